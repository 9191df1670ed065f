//! Value domains of the settings, as seen through construction, text and deserialization.
use serde::Deserialize;
use serde::de::IntoDeserializer;
use serde::de::value::SeqDeserializer;
use settings::*;
use std::num::{NonZeroU8, NonZeroU16};
use symrt::*;

/// error type which drops its message
#[derive(Debug)]
struct E;
impl std::fmt::Display for E {
    fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        Ok(())
    }
}
impl std::error::Error for E {}
impl serde::de::Error for E {
    fn custom<T: std::fmt::Display>(_: T) -> Self {
        E
    }
}

fn h_indent() {
    let v = u64_any();
    match pick(5) {
        0 => {
            assume(v < 256);
            let r = IndentWidth::try_from(v as u8);
            let ok = v >= 1 && v <= 24;
            check(r.is_ok() == ok, 1);
            if let Ok(w) = r {
                check(w.value() as u64 == v && u8::from(w) as u64 == v && NonZeroU8::from(w).get() as u64 == v, 2);
                cover(true, 1);
            } else {
                cover(true, 2);
            }
        }
        1 => {
            let r = IndentWidth::try_from(v as usize);
            let ok = v >= 1 && v <= 24;
            check(r.is_ok() == ok, 3);
            if let Ok(w) = r {
                check(w.value() as u64 == v, 4);
                cover(true, 3);
            } else {
                cover(v > 280, 4);
            }
        }
        2 => {
            assume(v < 256 && v != 0);
            let r = IndentWidth::try_from(NonZeroU8::new(v as u8).unwrap());
            check(r.is_ok() == (v <= 24), 5);
            if let Ok(w) = r {
                check(w.value() as u64 == v, 6);
            }
        }
        3 => {
            let d: serde::de::value::U64Deserializer<E> = v.into_deserializer();
            let r = IndentWidth::deserialize(d);
            check(r.is_ok() == (v >= 1 && v <= 24), 7);
            if let Ok(w) = r {
                check(w.value() as u64 == v, 8);
                cover(true, 5);
            }
        }
        _ => {
            let d: serde::de::value::I64Deserializer<E> = (v as i64).into_deserializer();
            let r = IndentWidth::deserialize(d);
            check(r.is_ok() == (v >= 1 && v <= 24), 9);
            if let Ok(w) = r {
                check(w.value() as u64 == v, 10);
                cover(true, 6);
            }
        }
    }
}
fn h_width() {
    let v = u64_any();
    let ok = v >= 1 && v <= 320;
    match pick(4) {
        0 => {
            assume(v < 65536);
            let r = LineWidth::try_from(v as u16);
            check(r.is_ok() == ok, 1);
            if let Ok(w) = r {
                check(w.value() as u64 == v && u16::from(w) as u64 == v && NonZeroU16::from(w).get() as u64 == v, 2);
                cover(true, 1);
            } else {
                cover(true, 2);
            }
        }
        1 => {
            assume(v < 65536 && v != 0);
            let r = LineWidth::try_from(NonZeroU16::new(v as u16).unwrap());
            check(r.is_ok() == ok, 3);
            if let Ok(w) = r {
                check(w.value() as u64 == v, 4);
            }
        }
        2 => {
            let d: serde::de::value::U64Deserializer<E> = v.into_deserializer();
            let r = LineWidth::deserialize(d);
            check(r.is_ok() == ok, 5);
            if let Ok(w) = r {
                check(w.value() as u64 == v, 6);
                cover(true, 3);
            }
        }
        _ => {
            let d: serde::de::value::I64Deserializer<E> = (v as i64).into_deserializer();
            let r = LineWidth::deserialize(d);
            check(r.is_ok() == ok, 7);
            if let Ok(w) = r {
                check(w.value() as u64 == v, 8);
                cover(true, 4);
            }
        }
    }
    check(LineWidth::default().value() == 80 && IndentWidth::default().value() == 2, 9);
}
fn same(a: &str, b: &str) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut ok = true;
    for i in 0..a.len() {
        ok &= a.as_bytes()[i] == b.as_bytes()[i];
    }
    ok
}
fn parse<'de, T: Deserialize<'de>>(s: &'de str) -> Option<T> {
    let d: serde::de::value::StrDeserializer<'de, E> = s.into_deserializer();
    T::deserialize(d).ok()
}
/// option names: exactly the documented spellings are accepted, each meaning itself
fn h_names() {
    let (del, ins, any) = (param(0) as usize, param(1) as usize, param(2) as usize);
    let s = if any > 0 { ascii(len(0, any)) } else { near(["tab", "space", "arrow", "equal", "preserve", "respect", "ignore"][pick(7)], del, ins) };
    observe_str(&s);
    let via_serde = flag_fixed();
    match pick(if via_serde { 2 } else { 3 }) {
        0 => {
            let want = if same(&s, "tab") { 1 } else if same(&s, "space") { 2 } else { 0 };
            let got: Option<IndentStyle> = if via_serde { parse(&s) } else { s.parse().ok() };
            let got = match got { None => 0, Some(IndentStyle::Tab) => 1, Some(IndentStyle::Space) => 2 };
            check(got == want, 1);
            cover(got == 1, 1);
            cover(got == 0, 2);
        }
        1 => {
            let want = if same(&s, "arrow") { 1 } else if same(&s, "equal") { 2 } else if same(&s, "preserve") { 3 } else { 0 };
            let got: Option<AssignmentStyle> = if via_serde { parse(&s) } else { s.parse().ok() };
            let got = match got { None => 0, Some(AssignmentStyle::Arrow) => 1, Some(AssignmentStyle::Equal) => 2, Some(AssignmentStyle::Preserve) => 3 };
            check(got == want, 2);
            cover(got == 3, 3);
            cover(got == 0, 4);
        }
        _ => {
            let want = if same(&s, "respect") { 1 } else if same(&s, "ignore") { 2 } else { 0 };
            let got: Option<PersistentLineBreaks> = s.parse().ok();
            let got = match got { None => 0, Some(PersistentLineBreaks::Respect) => 1, Some(PersistentLineBreaks::Ignore) => 2 };
            check(got == want, 3);
            cover(got == 2, 5);
        }
    }
}
fn names(k: usize, m: usize) -> Vec<String> {
    (0..k).map(|_| { let n = len(0, m); ascii(n) }).collect()
}
fn member(v: &[String], q: &str) -> bool {
    let mut r = false;
    for x in v {
        r |= same(x, q);
    }
    r
}
/// `skip` / `table` lists: membership is exactly "was listed", in whatever order and with whatever duplicates
fn h_lists() {
    let (k, m) = (param(0) as usize, param(1) as usize);
    let n = len(0, k);
    let v = names(n, m);
    let n = len(0, m);
    let q = ascii(n);
    let want = member(&v, &q);
    let seq = |v: &[String]| -> SeqDeserializer<std::vec::IntoIter<String>, E> { SeqDeserializer::new(v.to_vec().into_iter()) };
    match pick(3) {
        0 => {
            let t = Skip::deserialize(seq(&v)).ok().unwrap();
            check(t.contains(&q) == want, 1);
        }
        1 => {
            let t = Table::deserialize(seq(&v)).ok().unwrap();
            check(t.contains(&q) == want, 2);
        }
        _ => {
            let t = SortedStrings::new(v.clone());
            check(t.contains(&q) == want, 3);
        }
    }
    cover(want, 1);
    cover(!want && v.len() == k, 2);
}
fn h_merge() {
    let (k, m) = (param(0) as usize, param(1) as usize);
    let n = len(0, k);
    let a = names(n, m);
    let n = len(0, k);
    let b = names(n, m);
    let n = len(0, m);
    let q = ascii(n);
    let (wa, wb) = (member(&a, &q), member(&b, &q));
    let ta = Table::new(a);
    let tb = Table::new(b);
    let t = ta.merge(&tb);
    check(t.contains(&q) == (wa || wb), 1);
    check(ta.contains(&q) == wa && tb.contains(&q) == wb, 2);
    cover(wa && !wb, 1);
    cover(!wa && wb, 2);
    cover(!wa && !wb, 3);
}
entries!(h_indent, h_width, h_names, h_lists, h_merge);
