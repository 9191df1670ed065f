//! The two codec traits of `tokio-util` (the real crate brings the whole runtime).
pub mod codec {
    use bytes::BytesMut;
    pub trait Decoder {
        type Item;
        type Error: From<std::io::Error>;
        fn decode(&mut self, src: &mut BytesMut) -> Result<Option<Self::Item>, Self::Error>;
        fn decode_eof(&mut self, buf: &mut BytesMut) -> Result<Option<Self::Item>, Self::Error> {
            match self.decode(buf)? {
                Some(frame) => Ok(Some(frame)),
                None if buf.is_empty() => Ok(None),
                None => Err(std::io::Error::other("bytes remaining on stream").into()),
            }
        }
    }
    pub trait Encoder<Item> {
        type Error: From<std::io::Error>;
        fn encode(&mut self, item: Item, dst: &mut BytesMut) -> Result<(), Self::Error>;
    }
}
