//! The published JSON schema of `air.toml` against what air accepts.
use serde_json::Value;
use symrt::*;
use workspace::toml::parse_air_inline_toml;

const SCHEMA: &str = include_str!("@REPO@/artifacts/air.schema.json");

/// A TOML value.
enum Doc {
    Int(i64),
    /// a number which is no integer
    Real,
    Bool(bool),
    Str(String),
    List(Vec<Doc>),
    Table(Vec<(String, Doc)>),
}

fn same(a: &str, b: &str) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut r = true;
    for (x, y) in a.bytes().zip(b.bytes()) {
        r &= x == y;
    }
    r
}
fn is_type(t: &str, d: &Doc) -> bool {
    match d {
        Doc::Int(_) => t == "integer" || t == "number",
        Doc::Real => t == "number",
        Doc::Bool(_) => t == "boolean",
        Doc::Str(_) => t == "string",
        Doc::List(_) => t == "array",
        Doc::Table(_) => t == "object",
    }
}
fn is_const(c: &Value, d: &Doc) -> bool {
    match (c, d) {
        (Value::String(s), Doc::Str(x)) => same(s, x),
        (Value::Bool(b), Doc::Bool(x)) => b == x,
        (Value::Number(n), Doc::Int(x)) => n.as_i64() == Some(*x),
        _ => false,
    }
}
/// JSON schema, as far as `schemars` writes it
fn valid(root: &Value, schema: &Value, d: &Doc) -> bool {
    let s = match schema {
        Value::Bool(b) => return *b,
        Value::Object(s) => s,
        _ => return true,
    };
    let mut ok = true;
    for (k, v) in s {
        ok &= match (k.as_str(), v) {
            ("$ref", Value::String(r)) => {
                let mut at = root;
                for part in r.trim_start_matches("#/").split('/') {
                    at = &at[part];
                }
                valid(root, at, d)
            }
            ("type", Value::String(t)) => is_type(t, d),
            ("type", Value::Array(ts)) => ts.iter().any(|t| t.as_str().is_some_and(|t| is_type(t, d))),
            ("const", c) => is_const(c, d),
            ("enum", Value::Array(cs)) => {
                let mut r = false;
                for c in cs {
                    r |= is_const(c, d);
                }
                r
            }
            ("anyOf", Value::Array(ss)) => {
                let mut r = false;
                for x in ss {
                    r |= valid(root, x, d);
                }
                r
            }
            ("oneOf", Value::Array(ss)) => {
                let mut n = 0u8;
                for x in ss {
                    n += valid(root, x, d) as u8;
                }
                n == 1
            }
            ("allOf", Value::Array(ss)) => {
                let mut r = true;
                for x in ss {
                    r &= valid(root, x, d);
                }
                r
            }
            ("minimum", m) => match d {
                Doc::Int(x) => *x >= m.as_i64().unwrap(),
                _ => true,
            },
            ("maximum", m) => match d {
                Doc::Int(x) => *x <= m.as_i64().unwrap(),
                _ => true,
            },
            ("minItems", m) => match d {
                Doc::List(x) => x.len() as i64 >= m.as_i64().unwrap(),
                _ => true,
            },
            ("maxItems", m) => match d {
                Doc::List(x) => x.len() as i64 <= m.as_i64().unwrap(),
                _ => true,
            },
            ("items", i) => match d {
                Doc::List(x) => {
                    let mut r = true;
                    for e in x {
                        r &= valid(root, i, e);
                    }
                    r
                }
                _ => true,
            },
            ("required", Value::Array(names)) => match d {
                Doc::Table(t) => {
                    let mut r = true;
                    for n in names {
                        let mut has = false;
                        for (k, _) in t {
                            has |= same(k, n.as_str().unwrap());
                        }
                        r &= has;
                    }
                    r
                }
                _ => true,
            },
            ("properties", _) | ("additionalProperties", _) => match d {
                Doc::Table(t) => {
                    let mut r = true;
                    for (key, x) in t {
                        let mut known = false;
                        if let Some(Value::Object(p)) = s.get("properties") {
                            for (name, sub) in p {
                                if same(key, name) {
                                    known = true;
                                    if k == "properties" {
                                        r &= valid(root, sub, x);
                                    }
                                }
                            }
                        }
                        if k == "additionalProperties" && !known {
                            r &= valid(root, v, x);
                        }
                    }
                    r
                }
                _ => true,
            },
            _ => true,
        };
    }
    ok
}

const KEYS: [&str; 11] = [
    "line-width",
    "indent-width",
    "indent-style",
    "line-ending",
    "persistent-line-breaks",
    "assignment-style",
    "exclude",
    "default-exclude",
    "skip",
    "table",
    "default-table",
];
const WORDS: [&str; 9] = ["space", "tab", "auto", "lf", "crlf", "native", "arrow", "equal", "preserve"];

fn written(d: &Doc) -> String {
    match d {
        Doc::Int(x) => x.to_string(),
        Doc::Real => "1.5".to_string(),
        Doc::Bool(b) => if *b { "true" } else { "false" }.to_string(),
        Doc::Str(s) => format!("\"{s}\""),
        Doc::List(v) => format!("[{}]", v.iter().map(written).collect::<Vec<_>>().join(", ")),
        Doc::Table(v) => format!("{{ {} }}", v.iter().map(|(k, x)| format!("{k} = {}", written(x))).collect::<Vec<_>>().join(", ")),
    }
}
fn quoted(s: &str) -> bool {
    let mut ok = true;
    for b in s.bytes() {
        ok &= (b >= 0x20) & (b != b'"') & (b != b'\\') & (b != 0x7f);
    }
    ok
}
/// an integer without superfluous zeros, and how it is written
fn integer(digits: usize) -> (String, Doc) {
    let neg = flag_fixed();
    // any few digits, perhaps after the first ones of a number just below a power of two
    let prefix = ["", "25", "6553", "6585", "429496729", "1844674407370955161"][pick(6)];
    let n = if prefix.is_empty() { len(1, digits) } else { 1 };
    let mut s = Vec::new();
    if neg {
        s.push(b'-');
    }
    let mut v = 0i64;
    let mut fits = true;
    for i in 0..prefix.len() + n {
        let x = if i < prefix.len() {
            (prefix.as_bytes()[i] - b'0') as i64
        } else {
            below(10) as i64
        };
        if i == 0 && n > 1 {
            assume(x != 0);
        }
        fits &= i < 18;
        v = v.wrapping_mul(10).wrapping_add(x);
        s.push(b'0' + x as u8);
    }
    // beyond 64 bits it is no TOML at all, and above every maximum of the schema
    let v = if fits { v } else { i64::MAX };
    (String::from_utf8(s).unwrap(), Doc::Int(if neg { -v } else { v }))
}
fn value(digits: usize, edit: usize) -> (String, Doc) {
    let d = match pick(8) {
        0 => return integer(digits),
        1 => {
            let s = near(WORDS[pick(9)], edit, edit);
            assume(quoted(&s));
            Doc::Str(s)
        }
        2 => Doc::Real,
        3 => Doc::Bool(flag_fixed()),
        4 => {
            let n = bytes(1)[0];
            assume((n >= b'a') & (n <= b'z'));
            let s = String::from_utf8(vec![n]).unwrap();
            Doc::List((0..len(0, 2)).map(|_| Doc::Str(s.clone())).collect())
        }
        5 => Doc::List(vec![Doc::Str("a".into()), [Doc::Int(1), Doc::Bool(true), Doc::List(vec![])].into_iter().nth(pick(3)).unwrap()]),
        6 => Doc::Table(vec![]),
        _ => Doc::Table(vec![("a".to_string(), Doc::Int(1))]),
    };
    (written(&d), d)
}
fn decide(schema: &Value, text: &str, d: &Doc) {
    observe_str(text);
    let says = valid(schema, schema, d);
    let does = parse_air_inline_toml(text).is_ok();
    check(!says | does, 1);
    check(says | !does, 2);
    observe(says as u64);
    cover(says, 1);
    cover(!says, 2);
}
/// Any value for any option.
pub fn h_value() {
    let schema: Value = serde_json::from_str(SCHEMA).unwrap();
    let (digits, edit) = (param(0) as usize, param(1) as usize);
    let k = pick(11);
    let (s, v) = value(digits, edit);
    let text = format!("[format]\n{} = {}\n", KEYS[k], s);
    decide(&schema, &text, &Doc::Table(vec![("format".into(), Doc::Table(vec![(KEYS[k].to_string(), v)]))]));
}
/// Any key, in any table.
pub fn h_keys() {
    let schema: Value = serde_json::from_str(SCHEMA).unwrap();
    let edit = param(0) as usize;
    let k = pick(12);
    let key = near(if k == 11 { "format" } else { KEYS[k] }, edit, edit);
    let mut bare = !key.is_empty();
    for b in key.bytes() {
        bare &= ((b >= b'a') & (b <= b'z')) | ((b >= b'A') & (b <= b'Z')) | ((b >= b'0') & (b <= b'9')) | (b == b'-') | (b == b'_');
    }
    assume(bare);
    let v = match k {
        0 | 1 => Doc::Int(1),
        2 => Doc::Str("tab".into()),
        3 => Doc::Str("lf".into()),
        5 => Doc::Str("equal".into()),
        6 | 8 | 9 => Doc::List(vec![]),
        11 => Doc::Table(vec![]),
        _ => Doc::Bool(true),
    };
    let s = written(&v);
    let (text, d) = match pick(4) {
        0 => (format!("[format]\n{key} = {s}\n"), Doc::Table(vec![("format".into(), Doc::Table(vec![(key, v)]))])),
        1 => (format!("{key} = {s}\n"), Doc::Table(vec![(key, v)])),
        2 => {
            let t = near("format", edit, edit);
            assume({
                let mut r = !t.is_empty();
                for b in t.bytes() {
                    r &= (b >= b'a') & (b <= b'z');
                }
                r
            });
            (format!("[{t}]\n{} = {s}\n", if k == 11 { "format" } else { KEYS[k] }), Doc::Table(vec![(t, Doc::Table(vec![(if k == 11 { "format" } else { KEYS[k] }.to_string(), v)]))]))
        }
        _ => (format!("[format.{key}]\n"), Doc::Table(vec![("format".into(), Doc::Table(vec![(key, Doc::Table(vec![]))]))])),
    };
    decide(&schema, &text, &d);
}
/// a word of lower case letters with up to two `-` or `_`
fn bare(n: usize) -> String {
    let n = len(1, n);
    let mut v = vec![];
    let (i, j) = (len(0, n), len(0, n));
    assume(i <= j);
    let mark = if i < n { [b'-', b'_'][pick(2)] } else { b'-' };
    for k in 0..n {
        v.push(if k == i || k == j {
            mark
        } else {
            let b = byte();
            assume((b >= b'a') & (b <= b'z'));
            b
        });
    }
    String::from_utf8(v).unwrap()
}
/// Any key at all, and any word.
pub fn h_anything() {
    let schema: Value = serde_json::from_str(SCHEMA).unwrap();
    let (n, m) = (param(0) as usize, param(1) as usize);
    let mode = pick(3);
    if mode < 2 {
        let key = bare(n);
        let v = match pick(if mode == 0 { 6 } else { 2 }) {
            0 => Doc::Table(vec![]),
            1 => Doc::Int(7),
            2 => Doc::Bool(true),
            3 => Doc::Str("tab".into()),
            4 => Doc::Str("lf".into()),
            _ => Doc::Str("equal".into()),
        };
        let s = written(&v);
        if mode == 0 {
            decide(&schema, &format!("[format]\n{key} = {s}\n"), &Doc::Table(vec![("format".into(), Doc::Table(vec![(key, v)]))]));
        } else {
            decide(&schema, &format!("{key} = {s}\n"), &Doc::Table(vec![(key, v)]));
        }
    } else {
        let v = Doc::Str(bare(m));
        let k = [2, 3, 5][pick(3)];
        decide(&schema, &format!("[format]\n{} = {}\n", KEYS[k], written(&v)), &Doc::Table(vec![("format".into(), Doc::Table(vec![(KEYS[k].to_string(), v)]))]));
    }
}
/// `format` itself of any type.
pub fn h_format() {
    let schema: Value = serde_json::from_str(SCHEMA).unwrap();
    let (s, v) = value(1, 1);
    if pick(2) == 0 {
        decide(&schema, "", &Doc::Table(vec![]));
    } else {
        decide(&schema, &format!("format = {s}\n"), &Doc::Table(vec![("format".into(), v)]));
    }
}
entries!(h_anything, h_value, h_keys, h_format);
