//! Stand-in for `biome_unicode_table`: which bytes start what, as far as air asks for it.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Dispatch {
    ERR,
    WHS,
    SEM,
    HAS,
    IDT,
    DIG,
    UNI,
    OTHER,
}
pub fn lookup_byte(byte: u8) -> Dispatch {
    match byte {
        b'\t'..=b'\r' | b' ' => Dispatch::WHS,
        b';' => Dispatch::SEM,
        b'#' => Dispatch::HAS,
        b'a'..=b'z' | b'A'..=b'Z' | b'_' | b'$' => Dispatch::IDT,
        b'0'..=b'9' => Dispatch::DIG,
        128.. => Dispatch::UNI,
        0..=31 | 127 => Dispatch::ERR,
        _ => Dispatch::OTHER,
    }
}
