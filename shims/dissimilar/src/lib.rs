//! Stand-in for `dissimilar`: some way from one text to the other. Which one is
//! decided through `choose`, so that every way within reach is taken.
use std::cell::Cell;

#[derive(Copy, Clone, Debug, PartialEq, Eq)]
pub enum Chunk<'a> {
    Equal(&'a str),
    Delete(&'a str),
    Insert(&'a str),
}
thread_local! {
    static CHOOSE: Cell<Option<fn(usize) -> usize>> = const { Cell::new(None) };
}
/// `f(n)` is to return a number below `n`
pub fn choose_with(f: fn(usize) -> usize) {
    CHOOSE.with(|c| c.set(Some(f)));
}
fn choose(n: usize) -> usize {
    match CHOOSE.with(|c| c.get()) {
        Some(f) if n > 1 => f(n),
        _ => 0,
    }
}
fn char_at(s: &str, at: usize) -> usize {
    let b = s.as_bytes()[at];
    if b < 0x80 {
        1
    } else if b < 0xe0 {
        2
    } else if b < 0xf0 {
        3
    } else {
        4
    }
}
pub fn diff<'a>(a: &'a str, b: &'a str) -> Vec<Chunk<'a>> {
    // 0 equal, 1 delete, 2 insert: merged when they follow one another, a deletion before an insertion
    let mut out: Vec<(u8, usize, usize)> = vec![];
    let (mut i, mut j) = (0, 0);
    while i < a.len() || j < b.len() {
        let last = out.last().map(|x| x.0);
        let mut can = [0u8; 3];
        let mut n = 0;
        if i < a.len() && j < b.len() {
            let (x, y) = (char_at(a, i), char_at(b, j));
            if x == y && a.as_bytes()[i..i + x] == b.as_bytes()[j..j + x] {
                can[n] = 0;
                n += 1;
            }
        }
        if i < a.len() && last != Some(2) {
            can[n] = 1;
            n += 1;
        }
        if j < b.len() {
            can[n] = 2;
            n += 1;
        }
        if n == 0 {
            // an insertion is behind us, and only deletions ahead: swap them
            let k = out.pop().unwrap();
            let (s, e) = (i, a.len());
            match out.last_mut() {
                Some(d) if d.0 == 1 => d.2 = e,
                _ => out.push((1, s, e)),
            }
            out.push(k);
            break;
        }
        let k = can[choose(n)];
        let (s, e) = match k {
            2 => (j, j + char_at(b, j)),
            _ => (i, i + char_at(a, i)),
        };
        match out.last_mut() {
            Some(l) if l.0 == k => l.2 = e,
            _ => out.push((k, s, e)),
        }
        if k != 2 {
            i += e - s;
        }
        if k == 2 {
            j += e - s;
        } else if k == 0 {
            j += e - s;
        }
    }
    out.into_iter()
        .map(|(k, s, e)| match k {
            0 => Chunk::Equal(&a[s..e]),
            1 => Chunk::Delete(&a[s..e]),
            _ => Chunk::Insert(&b[s..e]),
        })
        .collect()
}
