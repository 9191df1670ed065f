//! Harness: the tree which the parser makes of a text, over the tree which tree-sitter announces.
mod program;
use air_r_parser::{RParserOptions, parse};
use air_r_syntax::RSyntaxKind::{self, *};
use air_r_syntax::{RSyntaxNode, RSyntaxToken};
use biome_rowan::{Direction, SyntaxSlot};
use program::{Program, Want};
use symrt::*;

/// The tree has the kinds, slots and tokens which are wanted.
fn shape(n: &RSyntaxNode, w: &Want, text: &[u8]) {
    let Want::Node(k, slots) = w else {
        check(false, 2);
        return;
    };
    check(n.kind() == *k, 2);
    let got: Vec<SyntaxSlot<_>> = n.slots().collect();
    check(got.len() == slots.len(), 3);
    for (g, w) in got.into_iter().zip(slots) {
        match (g, w) {
            (SyntaxSlot::Empty { .. }, None) => {}
            (SyntaxSlot::Node(n), Some(w)) => shape(&n, w, text),
            (SyntaxSlot::Token(t), Some(Want::Token(k, a, b))) => token(&t, *k, *a, *b, text),
            _ => check(false, 3),
        }
    }
}
fn token(t: &RSyntaxToken, k: RSyntaxKind, a: usize, b: usize, text: &[u8]) {
    check(t.kind() == k, 4);
    let r = t.text_trimmed_range();
    check((usize::from(r.start()) == a) & (usize::from(r.end()) == b), 5);
    check(same(t.text_trimmed().as_bytes(), &text[a..b]), 6);
}
fn same(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut r = true;
    for (x, y) in a.iter().zip(b) {
        r &= x == y;
    }
    r
}
/// Everything in the text is in the tree, once: tokens, comments, line breaks.
fn trivia(n: &RSyntaxNode, p: &Program) {
    let mut at = 0;
    let mut comments = p.found.iter();
    // the line breaks which are left over by tokens and comments
    let mut last = None;
    let text = &p.text;
    for t in n.descendants_tokens(Direction::Next) {
        for (trailing, pieces) in [(false, t.leading_trivia()), (true, t.trailing_trivia())] {
            if trailing {
                let r = t.text_trimmed_range();
                check(usize::from(r.start()) == at, 10);
                at = usize::from(r.end());
                last = if t.kind() == UNICODE_BOM { None } else { Some(at) };
            }
            for q in pieces.pieces() {
                let r = q.text_range();
                let (a, b) = (usize::from(r.start()), usize::from(r.end()));
                check((a == at) & (b > a) & (b <= text.len()), 10);
                at = b;
                let s = &text[a..b];
                check(same(q.text().as_bytes(), s), 11);
                if q.is_comments() {
                    let c = comments.next();
                    check(c.is_some_and(|c| *c == (a, b)), 12);
                    // it trails what is before it on its line
                    let mut line = last.is_none();
                    if let Some(l) = last {
                        for x in &text[l..a] {
                            line |= (*x == b'\n') | (*x == b'\r');
                        }
                    }
                    check(line != trailing, 13);
                    if trailing {
                        cover(true, 2);
                    } else {
                        cover(true, 3);
                    }
                } else if q.is_newline() {
                    check(!trailing, 14);
                    check((b - a == 1) & ((s[0] == b'\n') | (s[0] == b'\r')) | ((b - a == 2) && (s[0] == b'\r') & (s[1] == b'\n')), 15);
                    if b - a == 1 {
                        check(!((s[0] == b'\r') & (text.get(b).copied().unwrap_or(0) == b'\n')), 15);
                    }
                    // a trailing comment ends with its line
                } else {
                    check(q.is_whitespace(), 16);
                    for x in s {
                        check((*x != b'\n') & (*x != b'\r'), 16);
                    }
                }
            }
        }
    }
    check(at == text.len(), 10);
    check(comments.next().is_none(), 12);
    check(same(n.to_string().as_bytes(), text), 17);
}
fn run(p: &mut Program, error: bool) -> bool {
    let (data, want) = p.file();
    tree_sitter::announce(data, error);
    observe(p.text.len() as u64);
    let text = std::str::from_utf8(&p.text);
    assume(text.is_ok());
    let got = parse(text.unwrap(), RParserOptions::default());
    check(got.has_error() == error, 1);
    check(got.error().is_some() == error, 1);
    let n = got.syntax();
    if error {
        // nothing is understood, and nothing is lost
        check(same(n.to_string().as_bytes(), &p.text), 17);
        check(n.kind() == R_ROOT, 2);
        check(got.into_result().is_err(), 1);
        return false;
    }
    shape(&n, &want, &p.text);
    trivia(&n, p);
    check(got.into_result().is_ok(), 1);
    true
}
/// Any program of a few constructs.
pub fn h_shape() {
    let mut p = Program::new(param(0) as usize, 0, 0, 0);
    run(&mut p, false);
    cover(p.budget == 0, 1);
}
/// Any blanks, line breaks, semicolons and comments in a few gaps of it.
pub fn h_trivia() {
    let mut p = Program::new(param(0) as usize, param(1) as usize, param(2) as usize, param(3) as usize);
    run(&mut p, false);
    cover(p.gaps == 0, 1);
}
/// A text with a mistake is an error, as a whole.
pub fn h_error() {
    let mut p = Program::new(param(0) as usize, param(1) as usize, param(2) as usize, param(3) as usize);
    run(&mut p, true);
    cover(true, 1);
}
entries!(h_shape, h_trivia, h_error);
