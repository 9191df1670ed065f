//! Comment directives.
use comments::*;
use symrt::*;

fn is_ws(c: char) -> bool {
    // Unicode White_Space, written out: the reference does not use `char::is_whitespace`.
    matches!(c as u32, 9..=13 | 32 | 0x85 | 0xa0 | 0x1680 | 0x2000..=0x200a | 0x2028 | 0x2029 | 0x202f | 0x205f | 0x3000)
}
fn ref_body(t: &str) -> Option<Vec<char>> {
    let c: Vec<char> = t.chars().collect();
    if c.is_empty() || c[0] != '#' {
        return None;
    }
    let mut i = 0;
    while i < c.len() && c[i] == '#' {
        i += 1;
    }
    while i < c.len() && is_ws(c[i]) {
        i += 1;
    }
    Some(c[i..].to_vec())
}
fn eq(a: &[char], b: &str) -> bool {
    let mut it = b.chars();
    for x in a {
        if it.next() != Some(*x) {
            return false;
        }
    }
    it.next().is_none()
}
/// 0 none, 1 skip, 2 skip file, 3 table
fn ref_directive(t: &str) -> u64 {
    let Some(b) = ref_body(t) else { return 0 };
    if b.len() < 4 || !eq(&b[..4], "fmt:") {
        return 0;
    }
    let mut lo = 4;
    let mut hi = b.len();
    while lo < hi && is_ws(b[lo]) {
        lo += 1;
    }
    while hi > lo && is_ws(b[hi - 1]) {
        hi -= 1;
    }
    let v = &b[lo..hi];
    if eq(v, "skip") {
        1
    } else if eq(v, "skip file") {
        2
    } else if eq(v, "table") {
        3
    } else {
        0
    }
}
fn code(d: Option<Directive>) -> u64 {
    match d {
        None => 0,
        Some(Directive::Format(FormatDirective::Skip)) => 1,
        Some(Directive::Format(FormatDirective::SkipFile)) => 2,
        Some(Directive::Format(FormatDirective::Table)) => 3,
    }
}
fn judge(t: &str) {
    let got = code(parse_comment_directive(t));
    let want = ref_directive(t);
    observe(got);
    check(got == want, 1);
    cover(got == 1, 1);
    cover(got == 2, 2);
    cover(got == 3, 3);
    cover(got == 0, 4);
}
/// Every valid UTF-8 text of at most param(0) bytes.
fn h_any() {
    let t = string(param(0) as usize);
    judge(&t);
}
const CANON: [&str; 6] = ["# fmt: skip", "#fmt:skip file", "## fmt: table", "#\t fmt:  skip file \t", "# fmt: fmt: skip", "#: fmt: table"];
/// Every text one window edit away from a canonical directive: at most param(0) bytes
/// deleted and at most param(1) arbitrary bytes inserted at any position.
fn h_near() {
    let t = near(CANON[pick(CANON.len() as u64)], param(0) as usize, param(1) as usize);
    judge(&t);
}
/// The same for two independent one byte edits.
fn h_two() {
    let mut c = CANON[pick(3)].as_bytes().to_vec();
    let n = c.len();
    let i = pick(n as u64);
    let j = pick(n as u64);
    assume(i < j);
    c[i] = byte();
    c[j] = byte();
    assume(c[i] < 0x80);
    assume(c[j] < 0x80);
    let t = unsafe { String::from_utf8_unchecked(c) };
    judge(&t);
}
/// letters (of one case), with something else at up to one place
fn word(max: usize, upper: bool) -> String {
    let n = len(0, max);
    let at = len(0, n);
    let mark = if at < n { [b' ', b'-', b'_'][pick(3)] } else { b' ' };
    let mut v = vec![];
    for k in 0..n {
        v.push(if k == at {
            mark
        } else {
            let b = byte();
            assume(if upper && k == 0 { (b >= b'A') & (b <= b'Z') } else { (b >= b'a') & (b <= b'z') });
            b
        });
    }
    unsafe { String::from_utf8_unchecked(v) }
}
/// Any command, and any category; and any two words as a generated-file mark.
fn h_word() {
    let n = param(0) as usize;
    match pick(4) {
        0 => judge(&format!("# fmt: {}", word(n, false))),
        1 => judge(&format!("# fmt: {} {}", ["skip", "table", "skip file"][pick(3)], word(n, false))),
        2 => judge(&format!("# {}: {}", word(n, false), ["skip", "table", "skip file"][pick(3)])),
        _ => judge_generated(&format!("# {}", word(n, flag_fixed()))),
    }
}
/// The "Generated by" convention.
fn judge_generated(t: &str) {
    let got = code(parse_special_skip_file(t));
    observe(got);
    let want = match ref_body(t) {
        Some(b) => b.len() >= 12 && eq(&b[..12], "Generated by"),
        None => false,
    };
    check(got == if want { 2 } else { 0 }, 2);
    cover(got == 2, 1);
    cover(got == 0, 2);
}
fn h_generated() {
    let t = near(["# Generated by roxygen2", "#Generated by", "### \u{a0}Generated by cpp11: do not edit"][pick(3)], param(0) as usize, param(1) as usize);
    judge_generated(&t);
}
fn h_generated_any() {
    judge_generated(&string(param(0) as usize));
}
entries!(h_word, h_any, h_near, h_two, h_generated, h_generated_any);
