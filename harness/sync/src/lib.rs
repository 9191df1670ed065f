//! Documents of the language server: the client's changes, and the edits which are sent to it.
#![allow(dead_code, unused_imports)]
use aether_lsp_utils::proto::{PositionEncoding, from_proto, to_proto};
use biome_line_index::{LineIndex, WideEncoding};
use biome_text_size::{TextRange, TextSize};
use symrt::*;
use tower_lsp::lsp_types::{Position, Range, TextDocumentContentChangeEvent, TextEdit};

mod logging {
    #[derive(Clone, Copy, Debug, serde::Deserialize, Default, PartialEq, Eq)]
    #[serde(rename_all = "lowercase")]
    pub(crate) enum LogLevel {
        Error,
        Warn,
        #[default]
        Info,
        Debug,
        Trace,
    }
}
#[path = "@REPO@/crates/lsp/src/settings.rs"]
mod settings_;
use settings_ as settings;
#[path = "@REPO@/crates/lsp/src/documents.rs"]
mod documents;
use documents::Document;

#[derive(Clone, Copy, PartialEq)]
enum Enc {
    Utf8,
    Utf16,
}
fn encoding() -> (Enc, PositionEncoding) {
    if flag_fixed() { (Enc::Utf8, PositionEncoding::Utf8) } else { (Enc::Utf16, PositionEncoding::Wide(WideEncoding::Utf16)) }
}
fn eq(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut r = true;
    for (x, y) in a.iter().zip(b) {
        r &= x == y;
    }
    r
}
/// UTF-8 of up to `max` characters: any letter or blank, any of two, three or four bytes, and line ends (`\r\n` when `crlf`)
fn text(max: usize, crlf: bool) -> String {
    let n = len(0, max);
    let mut v = vec![];
    for _ in 0..n {
        match pick(4) {
            0 => {
                let b = byte();
                assume((b < 0x80) & (b != b'\n') & (b != b'\r'));
                v.push(b);
            }
            1 => {
                if crlf {
                    v.push(b'\r');
                }
                v.push(b'\n');
            }
            2 => v.extend_from_slice("é".as_bytes()),
            _ => v.extend_from_slice("𐐀".as_bytes()),
        }
    }
    String::from_utf8(v).unwrap()
}
/// the positions of a client's text: the offsets at which there may be a cursor
fn stops(t: &str) -> Vec<usize> {
    let b = t.as_bytes();
    (0..=b.len()).filter(|&i| t.is_char_boundary(i) && !(i > 0 && i < b.len() && b[i - 1] == b'\r' && b[i] == b'\n')).collect()
}
/// the position of an offset, as the client counts
fn position(t: &str, at: usize, e: Enc) -> Position {
    let mut p = Position::new(0, 0);
    let b = t.as_bytes();
    let mut i = 0;
    while i < at {
        if b[i] == b'\n' {
            p.line += 1;
            p.character = 0;
        } else if e == Enc::Utf8 {
            p.character += 1;
        } else if b[i] & 0xc0 != 0x80 {
            p.character += if b[i] >= 0xf0 { 2 } else { 1 };
        }
        i += 1;
    }
    p
}
/// the offset of a position
fn offset(t: &str, p: Position, e: Enc) -> Option<usize> {
    stops(t).into_iter().find(|&i| position(t, i, e) == p)
}
fn without_cr(t: &str) -> Vec<u8> {
    let b = t.as_bytes();
    let mut v = vec![];
    for i in 0..b.len() {
        if !(b[i] == b'\r' && i + 1 < b.len() && b[i + 1] == b'\n') {
            v.push(b[i]);
        }
    }
    v
}
fn splice(t: &str, s: usize, e: usize, new: &str) -> String {
    format!("{}{}{}", &t[..s], new, &t[e..])
}
/// a change of the client's text, and what it is told to the server
fn change(client: &mut String, max: usize, crlf: bool, e: Enc) -> TextDocumentContentChangeEvent {
    let new = text(max, crlf);
    if pick(6) == 0 {
        *client = new.clone();
        return TextDocumentContentChangeEvent { range: None, range_length: None, text: new };
    }
    let s = stops(client);
    let a = pick(s.len() as u64);
    let b = a + pick((s.len() - a) as u64);
    let range = Range::new(position(client, s[a], e), position(client, s[b], e));
    *client = splice(client, s[a], s[b], &new);
    TextDocumentContentChangeEvent { range: Some(range), range_length: None, text: new }
}
/// The document is what the client has, after any notifications.
pub fn h_sync() {
    let (max, grow, changes) = (param(0) as usize, param(1) as usize, param(2) as usize);
    let (e, pe) = encoding();
    let crlf = flag_fixed();
    let mut client = text(max, crlf);
    let mut doc = Document::new(client.clone(), Some(1), pe);
    let endings = doc.endings;
    check(eq(doc.contents.as_bytes(), &without_cr(&client)), 1);
    check((endings == ::settings::LineEnding::Crlf) == (crlf && client.contains('\n')), 2);
    let mut batch = vec![];
    let mut version = 1;
    for i in 0..changes {
        batch.push(change(&mut client, grow, crlf, e));
        if i + 1 == changes || flag_fixed() {
            version += below(2) as i32 + (version == 1) as i32;
            doc.on_did_change(std::mem::take(&mut batch), version);
            check(eq(doc.contents.as_bytes(), &without_cr(&client)), 3);
            check(doc.version == Some(version), 4);
            check(doc.line_index == LineIndex::new(&doc.contents), 5);
            check(eq(doc.parse.syntax().text().as_bytes(), doc.contents.as_bytes()), 6);
        }
    }
    observe_bytes(doc.contents.as_bytes());
    cover(version == 2, 1);
    cover(version > 2, 2);
    cover(crlf && client.contains('\n'), 3);
}
// ---------------------------------------------------------------- edits
/// what a client does with edits: all of them are about the text as it was
fn apply(t: &str, edits: &[TextEdit], e: Enc) -> Option<String> {
    let mut v: Vec<(usize, usize, usize)> = vec![];
    for (i, x) in edits.iter().enumerate() {
        v.push((offset(t, x.range.start, e)?, offset(t, x.range.end, e)?, i));
    }
    // insertions before a replacement from the same place, and in their order
    v.sort_by_key(|x| (x.0, x.1, x.2));
    let mut out = String::new();
    let mut at = 0;
    for (s, f, i) in v {
        if s < at || f < s {
            return None;
        }
        out.push_str(&t[at..s]);
        out.push_str(&edits[i].new_text);
        at = f;
    }
    out.push_str(&t[at..]);
    Some(out)
}
fn with_endings(t: &str, crlf: bool) -> String {
    let mut s = String::new();
    for c in t.chars() {
        if crlf && c == '\n' {
            s.push('\r');
        }
        s.push(c);
    }
    s
}
/// The edits for a whole document lead from the client's text to the new one, whatever way the comparison finds.
pub fn h_edits() {
    let (max, max2) = (param(0) as usize, param(1) as usize);
    dissimilar::choose_with(|n| pick(n as u64));
    let (e, pe) = encoding();
    let crlf = flag_fixed();
    let old = text(max, false);
    let new = text(max2, false);
    let client = with_endings(&old, crlf);
    let index = LineIndex::new(&old);
    let endings = if crlf { ::settings::LineEnding::Crlf } else { ::settings::LineEnding::Lf };
    let edits = to_proto::replace_all_edit(&old, &new, &index, pe, endings);
    check(edits.is_ok(), 10);
    let edits = edits.unwrap();
    let got = apply(&client, &edits, e);
    check(got.is_some(), 11);
    check(eq(got.unwrap().as_bytes(), with_endings(&new, crlf).as_bytes()), 12);
    let mut ours = old.clone();
    aether_lsp_utils::diff::diff(&old, &new).apply(&mut ours);
    check(eq(ours.as_bytes(), new.as_bytes()), 13);
    observe(edits.len() as u64);
    cover(edits.len() == 2, 1);
    cover(edits.is_empty(), 2);
    cover(crlf && new.contains('\n'), 3);
}
/// One replacement, as for a range.
pub fn h_replace() {
    let (max, max2) = (param(0) as usize, param(1) as usize);
    let (e, pe) = encoding();
    let crlf = flag_fixed();
    let old = text(max, false);
    let new = text(max2, false);
    let client = with_endings(&old, crlf);
    let index = LineIndex::new(&old);
    let s = stops(&old);
    let a = pick(s.len() as u64);
    let b = a + pick((s.len() - a) as u64);
    let endings = if crlf { ::settings::LineEnding::Crlf } else { ::settings::LineEnding::Lf };
    let range = TextRange::new(TextSize::from(s[a] as u32), TextSize::from(s[b] as u32));
    let edits = to_proto::replace_range_edit(range, new.clone(), &index, pe, endings);
    check(edits.is_ok(), 10);
    let got = apply(&client, &edits.unwrap(), e);
    check(got.is_some(), 11);
    let want = splice(&old, s[a], s[b], &new);
    check(eq(got.unwrap().as_bytes(), with_endings(&want, crlf).as_bytes()), 12);
    // a range of the client is the one which was meant
    let p = Range::new(position(&client, s[a] + if crlf { lines(&old[..s[a]]) } else { 0 }, e), position(&client, s[b] + if crlf { lines(&old[..s[b]]) } else { 0 }, e));
    let back = from_proto::text_range(p, &index, pe);
    check(back.is_ok(), 14);
    check(back.unwrap() == range, 15);
    cover(crlf && want.contains('\n'), 1);
    cover(e == Enc::Utf16 && !old.is_ascii(), 2);
}
fn lines(t: &str) -> usize {
    t.bytes().filter(|b| *b == b'\n').count()
}
/// Edits which were received are applied as the protocol has it, in any order they come.
pub fn h_apply() {
    let (max, count) = (param(0) as usize, param(1) as usize);
    let (e, pe) = encoding();
    let old = text(max, false);
    let s = stops(&old);
    let mut edits: Vec<TextEdit> = vec![];
    let mut at: Vec<(usize, usize)> = vec![];
    for _ in 0..count {
        let a = pick(s.len() as u64);
        let b = a + pick((s.len() - a) as u64);
        // not over another, and a replacement behind the insertions at its start
        for (c, d) in &at {
            let apart = b <= *c || *d <= a;
            let order = *c != a || *c == *d;
            assume(apart && order);
        }
        at.push((a, b));
        let new = text(1, false);
        edits.push(TextEdit::new(Range::new(position(&old, s[a], e), position(&old, s[b], e)), new));
    }
    let want = apply(&old, &edits, e).unwrap();
    let mut got = old.clone();
    let mut index = LineIndex::new(&old);
    from_proto::apply_text_edits(&mut got, edits, &mut index, pe);
    check(eq(got.as_bytes(), want.as_bytes()), 20);
    observe_bytes(got.as_bytes());
    cover(true, 1);
}
entries!(h_sync, h_edits, h_replace, h_apply);
