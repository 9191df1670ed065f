//! Configuration: `air.toml` to settings to formatter options; finding configuration; formatting a source.
#![allow(dead_code, unused_imports)]
use biome_formatter::FormatOptions;
use std::path::{Path, PathBuf};
use symrt::*;
use workspace::settings::Settings;
use workspace::toml::parse_air_inline_toml;

/// What an `air.toml` says.
#[derive(Clone)]
struct Want {
    tab: bool,
    width: u8,
    ending: u8, // auto lf crlf native
    line: u16,
    persistent: bool,
    assign: u8, // arrow equal preserve
    exclude: Vec<String>,
    default_exclude: bool,
    skip: Option<Vec<String>>,
    table: Option<Vec<String>>,
    default_table: bool,
}
fn defaults() -> Want {
    Want {
        tab: false,
        width: 2,
        ending: 0,
        line: 80,
        persistent: true,
        assign: 0,
        exclude: vec![],
        default_exclude: true,
        skip: None,
        table: None,
        default_table: true,
    }
}
fn same(a: &str, b: &str) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut r = true;
    for (x, y) in a.bytes().zip(b.bytes()) {
        r &= x == y;
    }
    r
}
fn among(v: &[String], x: &str) -> bool {
    let mut r = false;
    for s in v {
        r |= same(s, x);
    }
    r
}
/// every setting, seen through the options the formatter gets and the patterns
fn compare(s: &Settings, w: &Want, names: &[&str]) {
    let f = &s.format;
    for (src, first_crlf) in [("", false), ("a\n", false), ("a\r\nb\n", true)] {
        let o = f.to_format_options(src);
        check(o.indent_style().is_tab() == w.tab, 1);
        check(o.indent_width().value() == w.width, 2);
        check(o.line_width().value() == w.line, 3);
        let crlf = match w.ending {
            0 => first_crlf,
            2 => true,
            _ => false,
        };
        let want = if crlf { biome_formatter::LineEnding::Crlf } else { biome_formatter::LineEnding::Lf };
        check(o.line_ending() == want, 4);
        check(o.persistent_line_breaks().is_respect() == w.persistent, 5);
        let a = match o.assignment_style() {
            settings::AssignmentStyle::Arrow => 0,
            settings::AssignmentStyle::Equal => 1,
            settings::AssignmentStyle::Preserve => 2,
        };
        check(a == w.assign, 6);
        if src.is_empty() {
            for n in names {
                let skipped = match o.skip() {
                    Some(x) => x.contains(n),
                    None => false,
                };
                check(skipped == w.skip.as_ref().is_some_and(|v| among(v, n)), 7);
                let table = match o.table() {
                    Some(x) => x.contains(n),
                    None => false,
                };
                let d = w.default_table & (same(n, "tribble") | same(n, "fcase"));
                check(table == (d | w.table.as_ref().is_some_and(|v| among(v, n))), 8);
            }
        }
    }
    check(f.default_exclude.is_some() == w.default_exclude, 9);
    check(f.default_include.is_some(), 10);
    for n in names {
        let hit = workspace::discovery::any_exclude_matched_path_or_any_parents(Path::new("/r").join(n), false, f.exclude.as_ref(), None).is_some();
        check(hit == among(&w.exclude, n), 11);
    }
}

const KEYS: [&str; 11] = [
    "line-width",
    "indent-width",
    "indent-style",
    "line-ending",
    "persistent-line-breaks",
    "assignment-style",
    "exclude",
    "default-exclude",
    "skip",
    "table",
    "default-table",
];
const WORDS: [(&str, &[&str]); 3] =
    [("space", &["space", "tab"]), ("auto", &["auto", "lf", "crlf", "native"]), ("arrow", &["arrow", "equal", "preserve"])];

fn quoted(s: &str) -> bool {
    let mut ok = true;
    for b in s.bytes() {
        ok &= (b >= 0x20) & (b != b'"') & (b != b'\\') & (b != 0x7f);
    }
    ok
}
fn name(max: usize) -> String {
    let n = len(1, max);
    let v = bytes(n);
    for b in &v {
        assume((*b >= b'a') & (*b <= b'z'));
    }
    String::from_utf8(v).unwrap()
}
/// an integer as written, and its value when it is a TOML integer
fn number(max: usize) -> (String, Option<u64>) {
    let n = len(1, max);
    let mut d = String::new();
    let mut v = 0u64;
    let mut bad = false;
    for i in 0..n {
        let x = below(10);
        bad |= n > 1 && i == 0 && x == 0;
        v = v * 10 + x;
        d.push((b'0' + x as u8) as char);
    }
    (d, if bad { None } else { Some(v) })
}
/// a value for a key: its text, and whether it is valid; `w` gets what it means
fn value(k: usize, digits: usize, edit: usize, namelen: usize, w: &mut Want) -> (String, bool) {
    match k {
        0 | 1 => {
            let (s, v) = number(digits);
            let top = if k == 0 { 320 } else { 24 };
            let ok = match v {
                Some(v) => (v >= 1) & (v <= top),
                None => false,
            };
            if ok {
                if k == 0 {
                    w.line = v.unwrap() as u16
                } else {
                    w.width = v.unwrap() as u8
                }
            }
            (s, ok)
        }
        2 | 3 | 5 => {
            let words = WORDS[if k == 5 { 2 } else { k - 2 }].1;
            let s = near(words[pick(words.len() as u64)], edit, edit);
            assume(quoted(&s));
            let mut at = None;
            for (i, x) in words.iter().enumerate() {
                if same(&s, x) {
                    at = Some(i as u8);
                }
            }
            if let Some(i) = at {
                match k {
                    2 => w.tab = i == 1,
                    3 => w.ending = i,
                    _ => w.assign = i,
                }
            }
            (format!("\"{s}\""), at.is_some())
        }
        4 | 7 | 10 => {
            let v = flag_fixed();
            match k {
                4 => w.persistent = v,
                7 => w.default_exclude = v,
                _ => w.default_table = v,
            }
            (if v { "true" } else { "false" }.to_string(), true)
        }
        _ => {
            let n = len(0, 2);
            let v: Vec<String> = (0..n).map(|_| name(namelen)).collect();
            let s: Vec<String> = v.iter().map(|x| format!("\"{x}\"")).collect();
            match k {
                6 => w.exclude = v,
                8 => w.skip = Some(v),
                _ => w.table = Some(v),
            }
            (format!("[{}]", s.join(", ")), true)
        }
    }
}
/// One option with any value in reach: accepted exactly if valid, and it takes effect while all others keep their defaults.
pub fn h_option() {
    let (digits, edit, namelen) = (param(0) as usize, param(1) as usize, param(2) as usize);
    let mut w = defaults();
    let k = pick(11);
    let (v, ok) = value(k, digits, edit, namelen, &mut w);
    let probe = if k == 6 || k == 8 || k == 9 { name(namelen) } else { "q".to_string() };
    let text = format!("[format]\n{} = {}\n", KEYS[k], v);
    observe_str(&text);
    let got = parse_air_inline_toml(&text);
    check(got.is_ok() == ok, 20);
    observe(ok as u64);
    cover(!ok, 1);
    cover(ok, 2);
    if let Ok(t) = got {
        let s = t.into_settings(Path::new("/r"));
        check(s.is_ok(), 21);
        compare(&s.unwrap(), &w, &[&probe, "tribble", "fcase"]);
    }
}
/// Several options at once: each takes effect.
pub fn h_options() {
    let mut w = defaults();
    let first = pick(11);
    let step = 1 + pick(10);
    let n = param(0) as usize;
    let mut text = String::from("[format]\n");
    for i in 0..n {
        let k = (first + i * step) % 11;
        if (0..i).any(|j| (first + j * step) % 11 == k) {
            continue;
        }
        // a valid value other than the default
        let v = match k {
            0 => {
                w.line = 1 + below(9) as u16;
                (b'0' + w.line as u8) as char
            }
            1 => {
                w.width = 1 + below(9) as u8;
                (b'0' + w.width) as char
            }
            _ => ' ',
        };
        let v = match k {
            0 | 1 => v.to_string(),
            2 => {
                w.tab = true;
                "\"tab\"".to_string()
            }
            3 => {
                w.ending = 2;
                "\"crlf\"".to_string()
            }
            4 => {
                w.persistent = false;
                "false".to_string()
            }
            5 => {
                w.assign = 1 + pick(2) as u8;
                (if w.assign == 1 { "\"equal\"" } else { "\"preserve\"" }).to_string()
            }
            7 => {
                w.default_exclude = false;
                "false".to_string()
            }
            10 => {
                w.default_table = false;
                "false".to_string()
            }
            _ => {
                let x = name(1);
                match k {
                    6 => w.exclude = vec![x.clone()],
                    8 => w.skip = Some(vec![x.clone()]),
                    _ => w.table = Some(vec![x.clone()]),
                }
                format!("[\"{x}\"]")
            }
        };
        text.push_str(&format!("{} = {}\n", KEYS[k], v));
    }
    observe_str(&text);
    let got = parse_air_inline_toml(&text);
    check(got.is_ok(), 20);
    let s = got.unwrap().into_settings(Path::new("/r"));
    check(s.is_ok(), 21);
    let probe = name(1);
    compare(&s.unwrap(), &w, &[&probe, "tribble", "fcase"]);
    cover(w.tab, 1);
    cover(w.exclude.len() == 1, 2);
}
/// A key other than the documented ones is an error; and so is one outside `[format]`.
pub fn h_key() {
    let edit = param(0) as usize;
    let k = pick(11);
    let key = near(KEYS[k], edit, edit);
    let mut bare = !key.is_empty();
    for b in key.bytes() {
        bare &= ((b >= b'a') & (b <= b'z')) | ((b >= b'A') & (b <= b'Z')) | ((b >= b'0') & (b <= b'9')) | (b == b'-') | (b == b'_');
    }
    assume(bare);
    let v = ["1", "\"tab\"", "\"lf\"", "true", "\"equal\"", "[]"][[0, 0, 1, 2, 3, 4, 5, 3, 5, 5, 3][k]];
    let mode = pick(3);
    let text = match mode {
        0 => format!("[format]\n{key} = {v}\n"),
        1 => format!("{key} = {v}\n"),
        _ => format!("[format]\n[other]\n{key} = {v}\n"),
    };
    observe_str(&text);
    let ok = same(&key, KEYS[k]) & (mode == 0);
    let got = parse_air_inline_toml(&text).is_ok();
    check(got == ok, 22);
    cover(got, 1);
    cover(!got, 2);
}

/// Any key at all (lower case letters with up to two `-` or `_`) of up to `n` bytes: only the documented ones are options. And any
/// such word of up to `m` bytes as the value of an option that takes one of several words.
pub fn h_anything() {
    let (n, m) = (param(0) as usize, param(1) as usize);
    let bare = |n: usize| {
        let n = len(1, n);
        let mut v = vec![];
        let (i, j) = (len(0, n), len(0, n));
        assume(i <= j);
        let mark = if i < n { [b'-', b'_'][pick(2)] } else { b'-' };
        for k in 0..n {
            v.push(if k == i || k == j {
                mark
            } else {
                let b = byte();
                assume((b >= b'a') & (b <= b'z'));
                b
            });
        }
        String::from_utf8(v).unwrap()
    };
    let mode = pick(3);
    let (text, ok) = if mode < 2 {
        let key = bare(n);
        let v = if mode == 0 { pick(6) } else { 1 };
        let value = ["7", "true", "[]", "\"tab\"", "\"lf\"", "\"equal\""][v];
        let mut ok = false;
        for (k, t) in KEYS.iter().zip([0, 0, 3, 4, 1, 5, 2, 1, 2, 2, 1]) {
            ok |= same(&key, k) & (t == v);
        }
        if mode == 0 {
            (format!("[format]\n{key} = {value}\n"), ok)
        } else {
            (format!("{key} = {value}\n"), false)
        }
    } else {
        let word = bare(m);
        let k = [2, 3, 5][pick(3)];
        let mut ok = false;
        for w in WORDS[if k == 5 { 2 } else { k - 2 }].1 {
            ok |= same(&word, w);
        }
        (format!("[format]\n{} = \"{word}\"\n", KEYS[k]), ok)
    };
    observe_str(&text);
    let got = parse_air_inline_toml(&text).is_ok();
    check(got == ok, if mode == 2 { 20 } else { 22 });
    cover(got, 1);
    cover(!got, 2);
}

/// Which calls are tables and which are skipped, for any name: those listed, and the default ones unless that is turned off.
pub fn h_calls() {
    let n = len(1, param(0) as usize);
    let v = bytes(n);
    for b in &v {
        assume((*b >= b'a') & (*b <= b'z'));
    }
    let name = String::from_utf8(v).unwrap();
    let mut w = defaults();
    let listed = pick(4);
    let off = flag_fixed();
    w.default_table = !off;
    let mut text = String::from("[format]\n");
    if listed & 1 == 1 {
        text.push_str("table = [\"wide\", \"ab\"]\n");
        w.table = Some(vec!["wide".to_string(), "ab".to_string()]);
    }
    if listed & 2 == 2 {
        text.push_str("skip = [\"tribble\", \"b\"]\n");
        w.skip = Some(vec!["tribble".to_string(), "b".to_string()]);
    }
    if off {
        text.push_str("default-table = false\n");
    }
    let s = parse_air_inline_toml(&text).unwrap().into_settings(Path::new("/r")).unwrap();
    let o = s.format.to_format_options("");
    let table = o.table().as_ref().is_some_and(|x| x.contains(&name));
    let skip = o.skip().as_ref().is_some_and(|x| x.contains(&name));
    let d = !off & (same(&name, "tribble") | same(&name, "fcase"));
    check(table == (d | w.table.as_ref().is_some_and(|v| among(v, &name))), 8);
    check(skip == w.skip.as_ref().is_some_and(|v| among(v, &name)), 7);
    cover(table & d, 1);
    cover(skip, 2);
    cover(!table & !skip, 3);
    observe(table as u64 + 2 * skip as u64);
}

/// Is this a glob? `[` opens a class (a first `!` negates, a first `]` is literal), a backslash quotes.
/// Nested braces and a closing brace alone are not considered.
fn glob(p: &[u8]) -> bool {
    let mut i = 0;
    let mut depth = 0;
    while i < p.len() {
        match p[i] {
            b'\\' => {
                i += 1;
                if i == p.len() {
                    return false;
                }
            }
            b'{' => {
                assume(depth == 0);
                depth += 1;
            }
            b'}' if depth == 0 => assume(false),
            b'}' => depth -= 1,
            b'[' => {
                i += 1;
                if i < p.len() && p[i] == b'!' {
                    i += 1;
                }
                i += 1;
                while i < p.len() && p[i] != b']' {
                    i += 1;
                }
                if i >= p.len() {
                    return false;
                }
            }
            _ => {}
        }
        i += 1;
    }
    depth == 0
}
/// A list of excluded patterns with one which is not a pattern is an error, wherever it stands.
pub fn h_pattern() {
    let n = len(1, param(0) as usize);
    let text = over(b"a[]{}\\", n);
    let p = text.as_bytes();
    let toml = if flag_fixed() { format!("[format]\nexclude = ['q', '{text}']\n") } else { format!("[format]\nexclude = ['{text}', 'q']\n") };
    observe_str(&toml);
    let got = parse_air_inline_toml(&toml);
    check(got.is_ok(), 20);
    let got = got.unwrap().into_settings(Path::new("/r"));
    let ok = glob(p);
    check(got.is_ok() == ok, 23);
    observe(ok as u64);
    cover(ok, 1);
    cover(!ok, 2);
    if let Ok(s) = got {
        let hit = workspace::discovery::any_exclude_matched_path_or_any_parents(Path::new("/r/q"), false, s.format.exclude.as_ref(), None).is_some();
        check(hit, 11);
    }
}

// ---------------------------------------------------------------- finding air.toml
use workspace::discovery::{DiscoveredSettings, Exclude, Include, Mode, discover_r_file_paths, discover_settings};
use workspace::resolve::PathResolver;

fn put(p: &Path, s: &str) {
    std::fs::write(p, s).unwrap();
}
fn resolver(paths: &[PathBuf]) -> anyhow::Result<PathResolver<Settings>> {
    let mut r = PathResolver::new(Settings::default());
    for DiscoveredSettings { directory, settings } in discover_settings(paths)? {
        r.add(&directory, settings);
    }
    Ok(r)
}
/// The configuration of a path is the nearest one in it or above.
pub fn h_nearest() {
    let kinds = param(0);
    let base = root().join("p");
    let dirs: Vec<PathBuf> = vec![base.clone(), base.join("a"), base.join("a/b"), base.join("c")];
    let up = [None, Some(0), Some(1), Some(0)];
    // nothing, air.toml, .air.toml, both, directories of both names, a directory air.toml and .air.toml, a broken file
    let mut what = vec![];
    for (i, d) in dirs.iter().enumerate() {
        std::fs::create_dir(d).unwrap();
        let k = pick(kinds);
        what.push(k);
        let visible = format!("[format]\nline-width = {}\n", 11 + i);
        let hidden = format!("[format]\nline-width = {}\n", 21 + i);
        match k {
            1 => put(&d.join("air.toml"), &visible),
            2 => put(&d.join(".air.toml"), &hidden),
            3 => {
                put(&d.join(".air.toml"), &hidden);
                put(&d.join("air.toml"), &visible);
            }
            4 => {
                std::fs::create_dir(d.join("air.toml")).unwrap();
                std::fs::create_dir(d.join(".air.toml")).unwrap();
            }
            5 => {
                std::fs::create_dir(d.join("air.toml")).unwrap();
                put(&d.join(".air.toml"), &hidden);
            }
            6 => {
                put(&d.join("air.toml"), "[format]\nline-width = 0\n");
                put(&d.join(".air.toml"), &hidden);
            }
            _ => {}
        }
    }
    // the nearest configured directory: its index and line width (0: broken)
    let near = |mut i: usize| -> (u16, bool) {
        loop {
            match what[i] {
                1 | 3 => return (11 + i as u16, true),
                2 | 5 => return (21 + i as u16, true),
                6 => return (0, false),
                _ => {}
            }
            match up[i] {
                Some(j) => i = j,
                None => return (80, true),
            }
        }
    };
    let n = len(1, param(1) as usize);
    let mut paths = vec![];
    let mut want = vec![];
    for _ in 0..n {
        let i = pick(4);
        let p = match pick(4) {
            0 => dirs[i].clone(),
            1 => dirs[i].join("x.R"),
            2 => dirs[i].join("no/../x.R"),
            _ => dirs[i].join("missing/y.R"),
        };
        paths.push(p);
        want.push(near(i));
    }
    let ok = want.iter().all(|w| w.1);
    let got = resolver(&paths);
    check(got.is_ok() == ok, 30);
    if let Ok(r) = got {
        for (p, w) in paths.iter().zip(&want) {
            let p = fs::normalize_path(p);
            let s = r.resolve_or_fallback(&p);
            let o = s.format.to_format_options("");
            check(o.line_width().value() == w.0, 31);
            observe(w.0 as u64);
        }
    }
    cover(!ok, 1);
    cover(want.iter().any(|w| w.0 > 20 && w.0 < 80), 2);
    cover(want[0].0 == 80, 3);
    cover(n == 2 && want[0].0 != want[1].0, 4);
}

/// Only files named exactly `air.toml` and `.air.toml` are configuration.
pub fn h_config_name() {
    let edit = param(0) as usize;
    let base = root().join("p");
    std::fs::create_dir(&base).unwrap();
    let name = near(["air.toml", ".air.toml"][pick(2)], edit, edit);
    assume(valid_name(name.as_bytes()));
    put(&base.join(&name), "[format]\nindent-width = 7\n");
    let is = same(&name, "air.toml") | same(&name, ".air.toml");
    let s = resolver(&[base.join("x.R")]);
    check(s.is_ok(), 30);
    let r = s.unwrap();
    let o = r.resolve_or_fallback(base.join("x.R")).format.to_format_options("");
    check((o.indent_width().value() == 7) == is, 32);
    check(workspace::toml::is_air_toml(base.join(&name)) == is, 33);
    observe(is as u64);
    cover(is, 1);
    cover(!is, 2);
}
fn valid_name(n: &[u8]) -> bool {
    let mut ok = !n.is_empty();
    let mut dots = n.len() <= 2;
    for b in n {
        ok &= (*b != 0) & (*b != b'/');
        dots &= *b == b'.';
    }
    ok & !dots
}

// ---------------------------------------------------------------- finding files
fn eq(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut r = true;
    for (x, y) in a.iter().zip(b) {
        r &= x == y;
    }
    r
}
fn os(b: &[u8]) -> std::ffi::OsString {
    use std::os::unix::ffi::OsStringExt;
    std::ffi::OsString::from_vec(b.to_vec())
}
fn ends(n: &[u8], e: &[u8]) -> bool {
    n.len() >= e.len() && eq(&n[n.len() - e.len()..], e)
}
fn starts(n: &[u8], e: &[u8]) -> bool {
    n.len() >= e.len() && eq(&n[..e.len()], e)
}
fn default_dir(n: &[u8]) -> bool {
    eq(n, b"renv") | eq(n, b"revdep") | eq(n, b".git")
}
fn default_file(n: &[u8]) -> bool {
    eq(n, b"cpp11.R") | eq(n, b"RcppExports.R") | eq(n, b"extendr-wrappers.R") | (starts(n, b"import-standalone-") & ends(n, b".R") & (n.len() >= 20))
}
fn is_r(n: &[u8]) -> bool {
    ends(n, b".R") | ends(n, b".r")
}
/// any file name of 1 to `max` bytes, or one near a name with a special meaning
fn file_name(special: &[&str], edit: usize, max: usize) -> Vec<u8> {
    let k = pick(special.len() as u64 + (max > 0) as u64);
    let v = if k < special.len() { near_bytes(special[k].as_bytes(), edit) } else { let n = len(1, max); bytes(n) };
    assume(valid_name(&v));
    v
}
/// `c` with up to `edit` consecutive bytes replaced by as many arbitrary ones
fn near_bytes(c: &[u8], edit: usize) -> Vec<u8> {
    let mut v = c.to_vec();
    let n = if edit < c.len() { edit } else { c.len() };
    let at = len(0, c.len() - n);
    for i in 0..n {
        v[at + i] = byte();
    }
    v
}
struct Tree {
    base: PathBuf,
    dir: Vec<u8>,
    inner: Vec<u8>,
    outer: Vec<u8>,
}
impl Tree {
    fn path(&self, i: usize) -> PathBuf {
        match i {
            0 => self.base.clone(),
            1 => self.base.join(os(&self.dir)),
            2 => self.base.join(os(&self.dir)).join(os(&self.inner)),
            _ => self.base.join(os(&self.outer)),
        }
    }
}
fn tree(t: &Tree) {
    std::fs::create_dir(&t.base).unwrap();
    std::fs::create_dir(t.path(1)).unwrap();
    put(&t.path(2), "");
    put(&t.path(3), "");
}
fn found(t: &Tree, paths: &[PathBuf], r: &PathResolver<Settings>, force: bool, want: (bool, bool)) {
    let (e, i) = if force { (Exclude::Nothing, Include::Everything) } else { (Exclude::Matched, Include::Matched) };
    let got = discover_r_file_paths(paths, r, Mode::Format, e, i);
    use std::os::unix::ffi::OsStrExt;
    let mut inner = 0u64;
    let mut outer = 0u64;
    for g in got {
        check(g.is_ok(), 40);
        let g = g.unwrap();
        let is_inner = eq(g.as_os_str().as_bytes(), t.path(2).as_os_str().as_bytes());
        let is_outer = eq(g.as_os_str().as_bytes(), t.path(3).as_os_str().as_bytes());
        // the configuration itself is a file like any other when everything is included
        check(is_inner | is_outer | (force & eq(g.as_os_str().as_bytes(), t.base.join("air.toml").as_os_str().as_bytes())), 41);
        inner += is_inner as u64;
        outer += is_outer as u64;
    }
    check((inner > 0) == want.0, 42);
    check((outer > 0) == want.1, 43);
    check((inner <= 1) & (outer <= 1), 44);
    observe(inner);
    observe(outer);
    cover(want.0, 1);
    cover(want.1, 2);
    cover(!want.0 & !want.1, 3);
}
fn dotty(n: &[u8]) -> bool {
    (n[0] == b'.') & (n[n.len() - 1] == b'.')
}
/// Default rules, any names.
pub fn h_walk() {
    let (edit, max) = (param(0) as usize, param(1) as usize);
    let which = param(2);
    let dir = file_name(if which == 0 { &["renv", "revdep", ".git"] } else { &[] }, edit, if which == 0 { 0 } else { max });
    let inner = file_name(if which == 1 { &["cpp11.R", "RcppExports.R", "extendr-wrappers.R", "import-standalone-x.R"] } else { &[] }, edit, if which == 1 { 0 } else { max });
    let outer = if which == 2 { file_name(&[], 0, max) } else { b"g.R".to_vec() };
    assume(!eq(&dir, &outer));
    let t = Tree { base: root().join("p"), dir, inner, outer };
    tree(&t);
    let start = pick(4);
    let force = flag_fixed();
    let r = PathResolver::new(Settings::default());
    // the walk does not take names which start and end with a dot for hidden: not our concern
    assume(!(dotty(&t.dir) | dotty(&t.inner) | dotty(&t.outer)));
    let hd = t.dir[0] == b'.';
    let hi = t.inner[0] == b'.';
    let ho = t.outer[0] == b'.';
    let ok = |n: &[u8]| force | (is_r(n) & !default_file(n) & !default_dir(n));
    let okd = force | !(default_dir(&t.dir) | default_file(&t.dir));
    let want = match start {
        0 => (!hd & !hi & okd & ok(&t.inner), !ho & ok(&t.outer)),
        1 => (!hi & okd & ok(&t.inner), false),
        2 => (okd & ok(&t.inner), false),
        _ => (false, ok(&t.outer)),
    };
    found(&t, &[t.path(start)], &r, force, want);
}

/// a plain name: letters, digits, `-`, `_`, optionally with `.R` behind it
fn plain(max: usize, ext: bool) -> Vec<u8> {
    let n = len(1, max);
    let mut v = bytes(n);
    for b in &v {
        assume(((*b >= b'a') & (*b <= b'z')) | ((*b >= b'A') & (*b <= b'Z')) | ((*b >= b'0') & (*b <= b'9')) | (*b == b'-') | (*b == b'_'));
    }
    if ext {
        v.extend_from_slice(b".R");
    }
    v
}
/// does the line (one of six forms) name this entry? `comps`: its path below the root
fn named(form: usize, n: &[u8], comps: &[&[u8]], dir: bool) -> bool {
    let last = comps[comps.len() - 1];
    match form {
        0 => eq(last, n),
        1 => dir & eq(last, n),
        2 => comps.len() == 1 && eq(last, n),
        3 => comps.len() == 1 && (dir & eq(last, n)),
        4 => comps.len() == 2 && (eq(comps[0], n) & ends(last, b".R")),
        _ => comps.len() >= 2 && eq(last, n),
    }
}
fn line(form: usize, n: &[u8]) -> String {
    let n = std::str::from_utf8(n).unwrap();
    match form {
        0 => n.to_string(),
        1 => format!("{n}/"),
        2 => format!("/{n}"),
        3 => format!("/{n}/"),
        4 => format!("{n}/*.R"),
        _ => format!("*/{n}"),
    }
}
/// The user's exclusions, of configuration found on disk: also for paths which are supplied directly.
pub fn h_exclude() {
    let max = param(0) as usize;
    let t = Tree { base: root().join("p"), dir: plain(max, false), inner: plain(max, true), outer: plain(max, true) };
    tree(&t);
    let form = pick(6);
    let isfile = flag_fixed();
    let n = plain(max, isfile);
    put(&t.base.join("air.toml"), &format!("[format]\nexclude = [\"{}\"]\ndefault-exclude = false\n", line(form, &n)));
    let start = pick(4);
    let force = flag_fixed();
    let paths = [t.path(start)];
    let r = resolver(&paths);
    check(r.is_ok(), 30);
    let d = named(form, &n, &[&t.dir], true);
    let i = d | named(form, &n, &[&t.dir, &t.inner], false);
    let o = named(form, &n, &[&t.outer], false);
    found(&t, &paths, &r.unwrap(), force, (start != 3 && (force | !i), (start == 0 || start == 3) && (force | !o)));
}
/// `.gitignore` counts while searching a directory of a repository, not for what is supplied directly.
pub fn h_git() {
    let max = param(0) as usize;
    let t = Tree { base: root().join("p"), dir: plain(max, false), inner: plain(max, true), outer: plain(max, true) };
    tree(&t);
    let repo = flag_fixed();
    if repo {
        std::fs::create_dir(t.base.join(".git")).unwrap();
    }
    let form = pick(6);
    let isfile = flag_fixed();
    let n = plain(max, isfile);
    put(&t.base.join(".gitignore"), &format!("{}\n", line(form, &n)));
    let start = pick(4);
    let force = flag_fixed();
    let r = PathResolver::new(Settings::default());
    assume(!(default_dir(&t.dir) | default_file(&t.inner) | default_file(&t.outer)));
    let d = repo & named(form, &n, &[&t.dir], true);
    let i = repo & named(form, &n, &[&t.dir, &t.inner], false);
    let o = repo & named(form, &n, &[&t.outer], false);
    let want = match start {
        0 => (!(d | i), !o),
        1 => (!i, false),
        2 => (true, false),
        _ => (false, true),
    };
    found(&t, &[t.path(start)], &r, force, want);
}
/// However many workers search and whoever does what, all files are found once, and so is what is missing.
pub fn h_threads() {
    let n = param(0) as usize;
    ignore::WORKERS.store(n, std::sync::atomic::Ordering::SeqCst);
    let base = root().join("p");
    std::fs::create_dir(&base).unwrap();
    std::fs::create_dir(base.join("d")).unwrap();
    let mut want = vec![];
    for (i, f) in ["x.R", "y.R", "d/z.R", "no.txt", "d/cpp11.R"].iter().enumerate() {
        if i >= 3 || flag_fixed() {
            put(&base.join(f), "");
            if i < 3 {
                want.push(base.join(f));
            }
        }
    }
    let mut paths = vec![base.clone()];
    let missing = flag_fixed();
    if missing {
        paths.push(base.join("none.R"));
    }
    let r = PathResolver::new(Settings::default());
    let got = discover_r_file_paths(&paths, &r, Mode::Format, Exclude::Matched, Include::Matched);
    check(got.len() == want.len() + missing as usize, 45);
    for w in &want {
        check(got.iter().filter(|g| g.as_ref().is_ok_and(|g| g == w)).count() == 1, 45);
    }
    check(got.iter().filter(|g| g.is_err()).count() == missing as usize, 46);
    observe(got.len() as u64);
    cover(want.len() == 3 && missing, 1);
    cover(got.is_empty(), 2);
}
entries!(h_threads, h_pattern, h_calls, h_anything, h_option, h_options, h_key, h_nearest, h_config_name, h_walk, h_exclude, h_git);
