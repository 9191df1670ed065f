//! Line ending detection and normalisation.
use settings::LineEnding;
use symrt::*;

/// every `\r` directly followed by `\n` is dropped, nothing else changes
fn reference(x: &[u8]) -> Vec<u8> {
    let mut v = Vec::with_capacity(x.len());
    for i in 0..x.len() {
        if x[i] == b'\r' && i + 1 < x.len() && x[i + 1] == b'\n' {
            continue;
        }
        v.push(x[i]);
    }
    v
}
fn same(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut ok = true;
    for i in 0..a.len() {
        ok &= a[i] == b[i];
    }
    ok
}
fn judge(x: String) {
    let want = reference(x.as_bytes());
    let n = line_ending::normalize(x.clone());
    observe_str(&n);
    check(same(n.as_bytes(), &want), 1);
    check(std::str::from_utf8(n.as_bytes()).is_ok(), 2);
    let b = line_ending::normalize_ref(&x);
    check(same(b.as_bytes(), &want), 3);
    // `\r\r\n` becomes `\r\n` in one pass; without such a run the result is stable
    let mut rr = false;
    for i in 0..x.len() {
        rr |= i + 2 < x.len() && x.as_bytes()[i] == b'\r' && x.as_bytes()[i + 1] == b'\r' && x.as_bytes()[i + 2] == b'\n';
    }
    if !rr {
        let again = line_ending::normalize(n.clone());
        check(same(again.as_bytes(), n.as_bytes()), 5);
        check(line_ending::infer(&n) == LineEnding::Lf, 6);
    }
    let d = x.len() - want.len();
    cover(d == 0, 1);
    cover(d == 1, 2);
    cover(d >= 2, 3);
}
/// every valid UTF-8 text of at most param(0) bytes
fn h_utf8() {
    judge(string(param(0) as usize));
}
/// every text of exactly param(0) characters over \r, \n, 'a'; optionally with a two byte character in front of it
fn h_mix() {
    let n = len(0, param(0) as usize);
    let s = over(b"\r\na", n);
    let x = if flag_fixed() { format!("\u{e9}{s}") } else { s };
    judge(x);
}
/// longer texts: 72 bytes mixing every kind of line ending, with an arbitrary ASCII window of
/// param(0) bytes at one of eight positions
fn h_long() {
    const UNIT: &[u8] = b"a\r\nbc\n\r\rd\r\n\r\nef\n";
    let mut v = Vec::new();
    while v.len() < 72 {
        v.extend_from_slice(UNIT);
    }
    let at = pick(8) * 10;
    let w = param(0) as usize;
    let s = ascii(w);
    let at = if at + w > v.len() { v.len() - w } else { at };
    v[at..at + w].copy_from_slice(s.as_bytes());
    judge(unsafe { String::from_utf8_unchecked(v) });
}
/// detection: the first line ending decides
fn ref_first(x: &[u8]) -> u64 {
    for i in 0..x.len() {
        if x[i] == b'\n' {
            return if i > 0 && x[i - 1] == b'\r' { 1 } else { 0 };
        }
    }
    0
}
fn code(e: LineEnding) -> u64 {
    match e {
        LineEnding::Lf => 0,
        LineEnding::Crlf => 1,
    }
}
fn h_infer() {
    let n = len(0, param(0) as usize);
    let x = if flag_fixed() { over(b"\r\na", n) } else { string_exact(if n > 5 { 5 } else { n }) };
    let b = x.as_bytes();
    let got = code(line_ending::infer(&x));
    observe(got);
    let mut crlf = 0;
    let mut lf = 0;
    for i in 0..b.len() {
        if b[i] == b'\n' {
            if i > 0 && b[i - 1] == b'\r' {
                crlf += 1
            } else {
                lf += 1
            }
        }
    }
    // files with at most one kind of line ending
    if crlf == 0 {
        check(got == 0, 1);
    } else if lf == 0 {
        check(got == 1, 2);
    } else {
        // mixed
        check(got == ref_first(b), 3);
    }
    cover(got == 0 && lf > 0 && crlf == 0, 1);
    cover(got == 1 && lf == 0, 2);
    cover(crlf > 0 && lf > 0, 3);
    cover(crlf == 0 && lf == 0, 4);
}
entries!(h_utf8, h_mix, h_long, h_infer);
