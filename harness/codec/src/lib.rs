//! The message framing of the language server test client.
#[allow(dead_code)]
#[path = "@REPO@/crates/lsp_test/src/tower_lsp/codec.rs"]
mod codec;
use bytes::BytesMut;
use codec::LanguageServerCodec;
use symrt::*;
use tokio_util::codec::{Decoder, Encoder};

type T = u8;
/// what a body means: None nothing, Some(None) an error, Some(Some(v)) a message
fn meaning(body: &[u8]) -> Option<Option<T>> {
    match std::str::from_utf8(body) {
        Ok("") => None,
        Ok(s) => Some(serde_json::from_str::<T>(s).ok()),
        Err(_) => Some(None),
    }
}
fn dec(n: usize) -> String {
    let mut d = Vec::new();
    let mut v = n;
    loop {
        d.insert(0, b'0' + (v % 10) as u8);
        v /= 10;
        if v == 0 {
            break;
        }
    }
    unsafe { String::from_utf8_unchecked(d) }
}
/// delivers the stream in pieces cut at `cuts` (ascending), decoding whatever is complete after each
fn deliver(stream: &[u8], cuts: &[usize], base: u64) -> Vec<Option<T>> {
    let mut c = LanguageServerCodec::<T>::default();
    let mut b = BytesMut::new();
    let mut out = Vec::new();
    let mut from = 0;
    for k in 0..=cuts.len() {
        let to = if k < cuts.len() { cuts[k] } else { stream.len() };
        b.extend_from_slice(&stream[from..to]);
        from = to;
        let mut errs = 0;
        loop {
            match c.decode(&mut b) {
                Ok(Some(v)) => out.push(Some(v)),
                Ok(None) => break,
                Err(_) => {
                    out.push(None);
                    errs += 1;
                    if errs > 6 {
                        // never recovers
                        check(false, base + 1);
                        return out;
                    }
                }
            }
        }
    }
    check(b.is_empty(), base + 2);
    out
}
fn cuts(n: usize, len: usize) -> Vec<usize> {
    let mut v = Vec::new();
    let mut lo = 0;
    for _ in 0..n {
        lo += pick((len - lo + 1) as u64);
        v.push(lo);
    }
    v
}
fn header(s: &mut Vec<u8>, n: usize, form: usize) {
    if form == 1 {
        s.extend_from_slice(b"Content-Type: application/vscode-jsonrpc; charset=utf-8\r\n");
    }
    s.extend_from_slice(b"Content-Length: ");
    s.extend_from_slice(dec(n).as_bytes());
    s.extend_from_slice(b"\r\n");
    if form == 2 {
        s.extend_from_slice(b"Content-Type: x; a=b; charset=utf8\r\n");
    }
    s.extend_from_slice(b"\r\n");
}
fn same(a: &[Option<T>], b: &[Option<T>]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut ok = true;
    for i in 0..a.len() {
        ok &= a[i] == b[i];
    }
    ok
}
/// any bodies: each message is delivered, or reported, exactly once and in order, however the bytes arrive
fn h_bodies() {
    let mut stream = Vec::new();
    let mut want = Vec::new();
    let (mut bad, mut empty) = (false, false);
    for i in 0..param(0) {
        let n = len(0, if i == 0 { param(1) } else { 1 } as usize);
        let body = bytes(n);
        header(&mut stream, n, if i == 0 { pick(3) } else { 0 });
        stream.extend_from_slice(&body);
        bad |= std::str::from_utf8(&body).is_err();
        empty |= n == 0;
        match meaning(&body) {
            None => cover(i == 0, 4),
            Some(v) => {
                cover(v.is_none() && std::str::from_utf8(&body).is_err(), 1);
                cover(v.is_none() && std::str::from_utf8(&body).is_ok(), 2);
                cover(v.is_some(), 3);
                want.push(v);
            }
        }
    }
    stream_ends(&mut stream, &mut want);
    let c = cuts(param(2) as usize, stream.len());
    // the assertions are numbered by what is special about the stream
    let base = if bad { 100 } else if empty { 200 } else { 0 };
    let got = deliver(&stream, &c, base);
    check(same(&got, &want), base + 3);
    observe(got.len() as u64);
}
fn stream_ends(stream: &mut Vec<u8>, want: &mut Vec<Option<T>>) {
    header(stream, 1, 0);
    stream.push(b'7');
    want.push(Some(7));
}
/// broken headers are reported and what follows is still delivered
fn h_recover() {
    let mut stream = Vec::new();
    let mut want = Vec::new();
    let kind = pick(4);
    let base = if kind == 3 { 300 } else { 0 };
    match kind {
        0 => {
            // text before the header
            let n = len(1, param(0) as usize);
            stream.extend_from_slice(over(b"az-09_", n).as_bytes());
            cover(true, 1);
            header(&mut stream, 1, 0);
            stream.push(b'3');
            want.push(None);
            want.push(Some(3));
        }
        1 => {
            // no number
            stream.extend_from_slice(b"Content-Length: ");
            let n = len(1, param(0) as usize);
            let v = over(b"7x-", n);
            assume(v.as_bytes().iter().any(|b| *b != b'7'));
            stream.extend_from_slice(v.as_bytes());
            stream.extend_from_slice(b"\r\n\r\n");
            want.push(None);
            cover(true, 2);
        }
        2 => {
            // another charset, or none
            stream.extend_from_slice(b"Content-Length: 1\r\nContent-Type: t");
            if flag_fixed() {
                stream.extend_from_slice(b"; charset=");
                let v = ascii(len(0, 2));
                assume(v.as_bytes().iter().all(|b| b.is_ascii_alphanumeric()));
                stream.extend_from_slice(v.as_bytes());
            }
            stream.extend_from_slice(b"\r\n\r\n4");
            want.push(None);
            cover(true, 3);
        }
        _ => {
            // no Content-Length at all
            stream.extend_from_slice(b"X-Other: 1\r\n\r\n");
            want.push(None);
            cover(true, 4);
        }
    }
    stream_ends(&mut stream, &mut want);
    let got = deliver(&stream, &cuts(param(1) as usize, stream.len()), base);
    // one or more reports, then the messages
    let mut g = Vec::new();
    for x in &got {
        if x.is_some() || g.last() != Some(&None) {
            g.push(*x);
        }
    }
    check(same(&g, &want), base + 4);
}
/// what is encoded is framed by its length in bytes and decodes to the same value
fn h_encode() {
    let n = len(0, param(0) as usize);
    let s = string(n);
    let long = flag_fixed();
    let mut text = s.clone();
    if long {
        for _ in 0..96 {
            text.push('y');
        }
    }
    let json = serde_json::to_string(&text).unwrap();
    let before = flag_fixed();
    let mut b = BytesMut::new();
    if before {
        b.extend_from_slice(b"earlier");
    }
    LanguageServerCodec::<String>::default().encode(text.clone(), &mut b).unwrap();
    let mut want: Vec<u8> = if before { b"earlier".to_vec() } else { Vec::new() };
    want.extend_from_slice(b"Content-Length: ");
    want.extend_from_slice(dec(json.len()).as_bytes());
    want.extend_from_slice(b"\r\n\r\n");
    want.extend_from_slice(json.as_bytes());
    check(b.len() == want.len(), 5);
    let mut d = 0;
    for i in 0..want.len() {
        d |= want[i] ^ b[i];
    }
    check(d == 0, 5);
    let mut rest = if before { b.split_off(7) } else { b };
    let back = LanguageServerCodec::<String>::default().decode(&mut rest);
    check(matches!(&back, Ok(Some(t)) if t.as_bytes() == text.as_bytes()), 6);
    check(rest.is_empty(), 7);
    cover(json.len() >= 100, 1);
    cover(s.chars().count() < s.len(), 2);
    observe(json.len() as u64);
}
entries!(h_bodies, h_recover, h_encode);
