//! Which files are excluded and included.
#![allow(dead_code, unused_imports)]
#[path = "@REPO@/crates/workspace/src/file_patterns.rs"]
pub mod file_patterns;
pub mod settings {
    #[path = "@REPO@/crates/workspace/src/settings/default_exclude_patterns.rs"]
    mod default_exclude_patterns;
    #[path = "@REPO@/crates/workspace/src/settings/default_include_patterns.rs"]
    mod default_include_patterns;
    #[path = "@REPO@/crates/workspace/src/settings/line_ending.rs"]
    mod line_ending;
    pub use line_ending::LineEnding;
    #[path = "@REPO@/crates/workspace/src/settings/exclude_patterns.rs"]
    mod exclude_patterns;
    pub use default_exclude_patterns::DefaultExcludePatterns;
    pub use default_include_patterns::DefaultIncludePatterns;
    pub use exclude_patterns::ExcludePatterns;
}
use crate::settings::*;
use std::path::Path;
use symrt::*;

type Comps = Vec<Vec<u8>>;

/// the components of a relative path or pattern
fn split(s: &[u8]) -> Comps {
    let mut v: Comps = vec![vec![]];
    for &b in s {
        if b == b'/' {
            v.push(vec![]);
        } else {
            v.last_mut().unwrap().push(b);
        }
    }
    v
}
/// assume a relative path without empty, `.` or `..` components
fn normal(v: &Comps) {
    for c in v {
        assume(!c.is_empty());
        assume(!(c.len() == 1 && c[0] == b'.'));
        assume(!(c.len() == 2 && (c[0] == b'.') & (c[1] == b'.')));
    }
}

// ---------------------------------------------------------------- gitignore, by its documentation
struct Pat {
    dir_only: bool,
    anchored: bool,
    comps: Comps,
}
fn parse(line: &[u8]) -> Option<Pat> {
    let mut l = line;
    if l.is_empty() || l[0] == b'#' {
        return None;
    }
    let mut dir_only = false;
    let mut anchored = false;
    if l[0] == b'/' {
        anchored = true;
        l = &l[1..];
    }
    if !l.is_empty() && l[l.len() - 1] == b'/' {
        dir_only = true;
        l = &l[..l.len() - 1];
    }
    let comps = split(l);
    anchored |= comps.len() > 1;
    Some(Pat { dir_only, anchored, comps })
}
fn class(p: &[u8], i: &mut usize, b: u8) -> bool {
    // after '['
    let mut neg = false;
    if *i < p.len() && (p[*i] == b'!' || p[*i] == b'^') {
        neg = true;
        *i += 1;
    }
    let mut hit = false;
    let mut first = true;
    while first || p[*i] != b']' {
        first = false;
        if *i + 2 < p.len() && p[*i + 1] == b'-' && p[*i + 2] != b']' {
            hit |= (p[*i] <= b) & (b <= p[*i + 2]);
            *i += 3;
        } else {
            hit |= p[*i] == b;
            *i += 1;
        }
    }
    *i += 1;
    hit ^ neg
}
/// one component against one component pattern; `at[k]`: the pattern so far matches k bytes
fn comp_matches(p: &[u8], t: &[u8]) -> bool {
    let mut at = vec![false; t.len() + 1];
    at[0] = true;
    let mut i = 0;
    while i < p.len() {
        match p[i] {
            b'*' => {
                for k in 0..t.len() {
                    at[k + 1] |= at[k];
                }
                i += 1;
            }
            b'[' => {
                let mut to = vec![false; at.len()];
                let mut end = i + 1;
                for k in 0..t.len() {
                    end = i + 1;
                    to[k + 1] = at[k] & class(p, &mut end, t[k]);
                }
                if t.is_empty() {
                    class(p, &mut end, 0);
                }
                at = to;
                i = end;
            }
            c => {
                let mut to = vec![false; at.len()];
                for k in 0..t.len() {
                    to[k + 1] = at[k] & ((c == b'?') | (c == t[k]));
                }
                at = to;
                i += 1;
            }
        }
    }
    at[t.len()]
}
fn stars(c: &[u8]) -> bool {
    c.len() == 2 && c[0] == b'*' && c[1] == b'*'
}
/// the whole path against the components of an anchored pattern
fn path_matches(p: &[Vec<u8>], t: &[Vec<u8>]) -> bool {
    if p.is_empty() {
        return t.is_empty();
    }
    if stars(&p[0]) {
        if p.len() == 1 {
            // everything inside
            return !t.is_empty();
        }
        let mut any = false;
        for k in 0..=t.len() {
            any |= path_matches(&p[1..], &t[k..]);
        }
        return any;
    }
    if t.is_empty() {
        return false;
    }
    comp_matches(&p[0], &t[0]) & path_matches(&p[1..], &t[1..])
}
fn matches(pats: &[Pat], t: &[Vec<u8>], is_dir: bool) -> bool {
    let mut any = false;
    for p in pats {
        if p.dir_only && !is_dir {
            continue;
        }
        let full = if p.anchored { &t[..] } else { &t[t.len() - 1..] };
        any |= path_matches(&p.comps, full);
    }
    any
}
fn excluded(pats: &[Pat], t: &[Vec<u8>], is_dir: bool) -> bool {
    let mut any = false;
    for k in 1..=t.len() {
        any |= matches(pats, &t[..k], k < t.len() || is_dir);
    }
    any
}

fn judge(root: &str, lines: &[&str], rel: &str) {
    let t = split(rel.as_bytes());
    normal(&t);
    let is_dir = flag_fixed();
    let pats: Vec<Pat> = lines.iter().filter_map(|l| parse(l.as_bytes())).collect();
    let ex = match ExcludePatterns::try_from_iter(root, lines.iter().copied()) {
        Ok(x) => x,
        Err(_) => {
            check(false, 1);
            return;
        }
    };
    let mut path = String::from(root);
    if !path.ends_with('/') {
        path.push('/');
    }
    path.push_str(rel);
    let got = ex.matched(&path, is_dir).is_some();
    let whole = ex.matched_path_or_any_parents(&path, is_dir).is_some();
    let want = matches(&pats, &t, is_dir);
    let wantw = excluded(&pats, &t, is_dir);
    observe(got as u64);
    observe(whole as u64);
    check(got == want, 2);
    check(whole == wantw, 3);
    cover(got, 1);
    cover(!whole, 2);
    cover(whole & !got, 3);
}

const MENU: &[&str] = &[
    "ab", "ab/", "/ab", "/ab/", "a-*.R", "a/*.R", "a/**/*.R", "**/a/*.R", "a/**", "**/a", "a?", "[ab].R", "*.R", "a/b", "/a/b/", "**/a/**/b", "a.R/", "*", "/*", "[!a]/", "a*b*",
];
const ROOTS: &[&str] = &["/r", "/", "/a/b"];

/// the documented kinds of patterns
fn h_user() {
    let n = len(1, param(0) as usize);
    let m = MENU[pick(MENU.len() as u64)];
    let root = ROOTS[if param(1) == 1 { pick(3) } else { 0 }];
    judge(root, &[m], &over(b"ab/.R-", n));
}
/// two patterns
fn h_two() {
    let n = len(1, param(0) as usize);
    let m = MENU[pick(MENU.len() as u64)];
    let k = MENU[pick(MENU.len() as u64)];
    judge("/r", &[m, k], &over(b"ab/.R", n));
}
/// any short pattern
fn h_pattern() {
    let k = len(1, param(0) as usize);
    let n = len(1, param(1) as usize);
    let pat = over(b"ab*?/", k);
    // what the documentation leaves open: empty components; `**` next to something else
    let p = split(pat.as_bytes());
    for (i, c) in p.iter().enumerate() {
        assume(!c.is_empty() || i == 0 || i + 1 == p.len());
        assume(c.len() < 2 || stars(c) || !c.windows(2).any(|w| w[0] == b'*' && w[1] == b'*'));
    }
    let empty = if p[0].is_empty() { p.len() < 2 || p[1].is_empty() } else { false };
    assume(!empty);
    judge("/r", &[&pat], &over(b"ab/", n));
}

const DIRS: &[&str] = &[".git", "renv", "revdep"];
const FILES: &[&str] = &["cpp11.R", "RcppExports.R", "extendr-wrappers.R"];
fn is(c: &[u8], s: &str) -> bool {
    if c.len() != s.len() {
        return false;
    }
    let mut d = 0;
    for (a, b) in c.iter().zip(s.as_bytes()) {
        d |= a ^ b;
    }
    d == 0
}
fn starts(c: &[u8], s: &str) -> bool {
    c.len() >= s.len() && is(&c[..s.len()], s)
}
fn ends(c: &[u8], s: &str) -> bool {
    c.len() >= s.len() && is(&c[c.len() - s.len()..], s)
}
fn one(c: &[u8], is_dir: bool) -> bool {
    let mut d = false;
    for n in DIRS {
        d |= is(c, n);
    }
    let mut f = false;
    for n in FILES {
        f |= is(c, n);
    }
    let p = "import-standalone-";
    (d & is_dir) | f | (c.len() >= p.len() + 2 && starts(c, p) & ends(c, ".R"))
}
fn judge_default(path: &str) {
    let b = path.as_bytes();
    let abs = !b.is_empty() && b[0] == b'/';
    let t = split(if abs { &b[1..] } else { b });
    normal(&t);
    let is_dir = flag_fixed();
    let ex = DefaultExcludePatterns::default();
    let inc = DefaultIncludePatterns::default();
    let got = ex.matched(path, is_dir).is_some();
    let whole = ex.matched_path_or_any_parents(path, is_dir).is_some();
    let r = inc.matched(path, false).is_some();
    let mut want = false;
    for (i, c) in t.iter().enumerate() {
        want |= one(c, is_dir || i + 1 < t.len());
    }
    let l = t.last().unwrap();
    observe(got as u64);
    observe(whole as u64);
    observe(r as u64);
    check(got == one(l, is_dir), 10);
    check(whole == want, 11);
    let rr = ends(l, ".R") | ends(l, ".r");
    // a file named just `.R` has no extension
    check((r == rr) | (l.len() == 2), 12);
    cover(got, 1);
    cover(whole & !got, 2);
    cover(!whole & r, 3);
    cover(!whole & !r, 4);
}
const PATHS: &[&str] = &[
    "/p/renv/a.R", "/p/.git/a.r", "/revdep/a/b", "/cpp11.R", "p/RcppExports.R", "/p/extendr-wrappers.R", "/p/import-standalone-a.R", "renv",
];
/// the default patterns, on paths near the default names
fn h_default() {
    let s = PATHS[pick(PATHS.len() as u64)];
    let p = near(s, param(0) as usize, param(1) as usize);
    judge_default(&p);
}
/// the default patterns, on any short path
fn h_default_any() {
    let n = len(1, param(0) as usize);
    judge_default(&string_exact(n));
}
/// any single different byte anywhere
fn h_default_byte() {
    let s = PATHS[pick(PATHS.len() as u64)];
    let mut v = s.as_bytes().to_vec();
    let i = pick(v.len() as u64);
    v[i] = byte();
    assume(v[i] < 0x80);
    judge_default(std::str::from_utf8(&v).unwrap_or("x"));
}

/// the default patterns, on any word (letters, with something else at up to one place) as the name of a directory or file
fn h_default_word() {
    let n = len(1, param(0) as usize);
    let i = len(0, n);
    let mark = [b'-', b'.', b'_'][if i < n { pick(3) } else { 0 }];
    let upper = flag_fixed();
    let mut v = vec![];
    for k in 0..n {
        v.push(if k == i {
            mark
        } else {
            let b = byte();
            assume(if upper && k == 0 { (b >= b'A') & (b <= b'Z') } else { (b >= b'a') & (b <= b'z') });
            b
        });
    }
    let w = std::str::from_utf8(&v).unwrap();
    match pick(3) {
        0 => judge_default(&format!("/p/{w}/a.R")),
        1 => judge_default(&format!("/p/{w}.R")),
        _ => judge_default(&format!("/p/{w}")),
    }
}

/// any text as a pattern: an error, or a decision; never a failure. And a list of patterns
/// excludes what its patterns exclude.
fn h_robust() {
    let a = ascii(len(0, param(0) as usize));
    let p = over(b"ab/.", len(1, param(1) as usize));
    normal(&split(p.as_bytes()));
    // `!` takes back what others exclude
    assume(a.is_empty() || a.as_bytes()[0] != b'!');
    let path = format!("/r/{p}");
    let alone = ExcludePatterns::try_from_iter("/r", [&*a]);
    let both = ExcludePatterns::try_from_iter("/r", ["b?", &*a, "/a"]);
    cover(alone.is_err(), 1);
    check(alone.is_err() == both.is_err(), 20);
    if let (Ok(x), Ok(y)) = (alone, both) {
        let d = flag_fixed();
        let z = ExcludePatterns::try_from_iter("/r", ["b?", "/a"]).unwrap();
        let e = x.matched(&path, d).is_some();
        let w = x.matched_path_or_any_parents(&path, d).is_some();
        check(y.matched(&path, d).is_some() == (e | z.matched(&path, d).is_some()), 20);
        check(y.matched_path_or_any_parents(&path, d).is_some() == (w | z.matched_path_or_any_parents(&path, d).is_some()), 20);
        cover(e, 2);
        cover(w & !e, 3);
        observe(e as u64);
        observe(w as u64);
    }
}
/// the setting and the file decide the line ending
fn h_finalize() {
    let text = over(b"\r\na", len(0, param(0) as usize));
    use settings::LineEnding as L;
    use ::settings::LineEnding as E;
    let b = text.as_bytes();
    let mut first = E::Lf;
    for i in 0..b.len() {
        if b[i] == b'\n' {
            if i > 0 && b[i - 1] == b'\r' {
                first = E::Crlf;
            }
            break;
        }
    }
    let k = pick(4);
    let (set, want) = match k {
        0 => (L::Auto, first),
        1 => (L::Lf, E::Lf),
        2 => (L::Crlf, E::Crlf),
        _ => (L::Native, E::Lf),
    };
    check(set.finalize(&text) == want, 30);
    check(L::default() == L::Auto, 31);
    cover((k == 0) & (first == E::Crlf), 1);
    cover((k == 1) & (first == E::Crlf), 2);
    cover((k == 2) & (first == E::Lf), 3);
}
entries!(h_finalize, h_robust, h_user, h_two, h_pattern, h_default, h_default_word, h_default_any, h_default_byte);
