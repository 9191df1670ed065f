//! The grammar reader: accepted texts, trees, names and error positions against a second reader.
use biome_ungrammar::{Grammar, Rule};
use symrt::*;

// ---- the reference: tokens with positions, then a recursive reader producing a canonical text
#[derive(PartialEq, Clone, Copy)]
enum K {
    Id,
    Lit,
    Ch(u8), // = * ? : ( ) |
    Or2,
    And2,
}
struct T {
    k: K,
    s: String,
    line: usize,
    col: usize,
}
/// Err((line, column)) at the offending character
fn lex(text: &str) -> Result<Vec<T>, (usize, usize)> {
    let c: Vec<char> = text.chars().collect();
    let mut line = 1;
    let mut bol = 0; // index of the first character of the line
    let mut out: Vec<T> = Vec::new();
    let mut i = 0;
    while i < c.len() {
        let ch = c[i];
        if ch == '\n' {
            i += 1;
            line += 1;
            bol = i;
            continue;
        }
        if ch == ' ' || ch == '\t' {
            i += 1;
            continue;
        }
        if ch == '/' && i + 1 < c.len() && c[i + 1] == '/' {
            while i < c.len() && c[i] != '\n' {
                i += 1;
            }
            continue;
        }
        let at = (line, i - bol + 1);
        let mut s = String::new();
        let k;
        if ch == '\'' {
            let mut j = i + 1;
            loop {
                if j >= c.len() {
                    return Err(at);
                }
                if c[j] == '\'' {
                    break;
                }
                if c[j] == '\\' {
                    j += 1;
                    if j >= c.len() || !(c[j] == '\\' || c[j] == '\'') {
                        return Err(at);
                    }
                }
                s.push(c[j]);
                if c[j] == '\n' {
                    line += 1;
                    bol = j + 1;
                }
                j += 1;
            }
            i = j + 1;
            k = K::Lit;
        } else if ch.is_ascii_alphanumeric() || ch == '_' {
            while i < c.len() && (c[i].is_ascii_alphanumeric() || c[i] == '_') {
                s.push(c[i]);
                i += 1;
            }
            k = K::Id;
        } else if ch == '|' && i + 1 < c.len() && c[i + 1] == '|' {
            k = K::Or2;
            i += 2;
        } else if ch == '&' && i + 1 < c.len() && c[i + 1] == '&' {
            k = K::And2;
            i += 2;
        } else if matches!(ch, '=' | '*' | '?' | ':' | '(' | ')' | '|') {
            k = K::Ch(ch as u8);
            i += 1;
        } else {
            return Err(at);
        }
        out.push(T { k, s, line: at.0, col: at.1 });
    }
    Ok(out)
}
struct R {
    t: Vec<T>,
    i: usize,
    nodes: Vec<(String, Option<String>)>,
    toks: Vec<String>,
}
/// None: the text ends too early, or a node has no rule (no position)
type E = Option<(usize, usize)>;
fn same(a: &str, b: &str) -> bool {
    a.as_bytes() == b.as_bytes()
}
impl R {
    fn kind(&self, n: usize) -> Option<K> {
        self.t.get(self.i + n).map(|t| t.k)
    }
    fn here(&self) -> E {
        self.t.get(self.i).map(|t| (t.line, t.col))
    }
    fn node(&mut self, s: &str) -> usize {
        for i in 0..self.nodes.len() {
            if same(&self.nodes[i].0, s) {
                return i;
            }
        }
        self.nodes.push((s.to_string(), None));
        self.nodes.len() - 1
    }
    fn tok(&mut self, s: &str) -> usize {
        for i in 0..self.toks.len() {
            if same(&self.toks[i], s) {
                return i;
            }
        }
        self.toks.push(s.to_string());
        self.toks.len() - 1
    }
    fn grammar(&mut self) -> Result<(), E> {
        while self.i < self.t.len() {
            let at = self.here();
            if self.kind(0) != Some(K::Id) {
                return Err(at);
            }
            let name = self.t[self.i].s.clone();
            let n = self.node(&name);
            self.i += 1;
            if self.kind(0) != Some(K::Ch(b'=')) {
                return Err(self.here());
            }
            self.i += 1;
            if self.nodes[n].1.is_some() {
                return Err(at);
            }
            let r = self.rule()?;
            self.nodes[n].1 = Some(r);
        }
        for n in &self.nodes {
            if n.1.is_none() {
                return Err(None);
            }
        }
        Ok(())
    }
    fn rule(&mut self) -> Result<String, E> {
        let comb = |k: Option<K>| matches!(k, Some(K::Ch(b'|')) | Some(K::Or2) | Some(K::And2));
        if comb(self.kind(0)) {
            return Err(self.here());
        }
        let mut parts = vec![self.seq()?];
        let op = self.kind(0);
        while comb(self.kind(0)) {
            if self.kind(0) != op {
                return Err(self.here());
            }
            self.i += 1;
            parts.push(self.seq()?);
        }
        if parts.len() == 1 {
            return Ok(parts.pop().unwrap());
        }
        let name = match op {
            Some(K::Or2) => "some",
            Some(K::And2) => "all",
            _ => "alt",
        };
        Ok(list(name, &parts))
    }
    fn seq(&mut self) -> Result<String, E> {
        let mut parts = vec![self.atom()?];
        // an element starts with a name (unless it opens the next rule), a token or a parenthesis
        while match self.kind(0) {
            Some(K::Id) => self.kind(1) != Some(K::Ch(b'=')),
            Some(K::Lit) | Some(K::Ch(b'(')) => true,
            _ => false,
        } {
            parts.push(self.atom()?);
        }
        Ok(if parts.len() == 1 { parts.pop().unwrap() } else { list("seq", &parts) })
    }
    fn atom(&mut self) -> Result<String, E> {
        let mut r = match self.kind(0) {
            Some(K::Id) => {
                let s = self.t[self.i].s.clone();
                match self.kind(1) {
                    Some(K::Ch(b'=')) => return Err(self.here()),
                    Some(K::Ch(b':')) => {
                        self.i += 2;
                        let mut l = String::from("lab:");
                        l.push_str(&s);
                        let inner = self.atom()?;
                        return Ok(list(&l, &[inner]));
                    }
                    _ => {}
                }
                self.i += 1;
                num('n', self.node(&s))
            }
            Some(K::Lit) => {
                let s = self.t[self.i].s.clone();
                self.i += 1;
                num('t', self.tok(&s))
            }
            Some(K::Ch(b'(')) => {
                self.i += 1;
                let r = self.rule()?;
                if self.kind(0) != Some(K::Ch(b')')) {
                    return Err(self.here());
                }
                self.i += 1;
                r
            }
            _ => return Err(self.here()),
        };
        match self.kind(0) {
            Some(K::Ch(b'?')) => {
                self.i += 1;
                r = list("opt", &[r]);
            }
            Some(K::Ch(b'*')) => {
                self.i += 1;
                r = list("rep", &[r]);
            }
            _ => {}
        }
        Ok(r)
    }
}
fn num(c: char, i: usize) -> String {
    let mut s = String::new();
    s.push(c);
    let mut d = Vec::new();
    let mut v = i;
    loop {
        d.push(b'0' + (v % 10) as u8);
        v /= 10;
        if v == 0 {
            break;
        }
    }
    while let Some(x) = d.pop() {
        s.push(x as char);
    }
    s
}
fn list(n: &str, p: &[String]) -> String {
    let mut s = String::from("[");
    s.push_str(n);
    for x in p {
        s.push(' ');
        s.push_str(x);
    }
    s.push(']');
    s
}
fn show(g: &Grammar, r: &Rule) -> String {
    let many = |n: &str, v: &[Rule]| list(n, &v.iter().map(|x| show(g, x)).collect::<Vec<_>>());
    match r {
        Rule::Labeled { label, rule } => {
            let mut l = String::from("lab:");
            l.push_str(label);
            list(&l, &[show(g, rule)])
        }
        Rule::Node(n) => num('n', g.iter().position(|x| x == *n).unwrap_or(99)),
        Rule::Token(n) => num('t', g.tokens().position(|x| x == *n).unwrap_or(99)),
        Rule::Seq(v) => many("seq", v),
        Rule::Alt(v) => many("alt", v),
        Rule::UnorderedSome(v) => many("some", v),
        Rule::UnorderedAll(v) => many("all", v),
        Rule::Opt(x) => list("opt", &[show(g, x)]),
        Rule::Rep(x) => list("rep", &[show(g, x)]),
    }
}
/// "line:column: " at the start of an error message
fn position(m: &str) -> E {
    let b = m.as_bytes();
    let mut i = 0;
    let mut v = [0usize; 2];
    for k in 0..2 {
        let s = i;
        while i < b.len() && b[i] >= b'0' && b[i] <= b'9' {
            v[k] = v[k] * 10 + (b[i] - b'0') as usize;
            i += 1;
        }
        if i == s || i >= b.len() || b[i] != b':' {
            return None;
        }
        i += 1;
    }
    Some((v[0], v[1]))
}
fn one(text: &str) {
    let got = text.parse::<Grammar>();
    let mut why: E = None;
    let mut lexed = true;
    let want = match lex(text) {
        Err(p) => {
            why = Some(p);
            lexed = false;
            None
        }
        Ok(t) => {
            let mut r = R { t, i: 0, nodes: Vec::new(), toks: Vec::new() };
            match r.grammar() {
                Ok(()) => Some(r),
                Err(p) => {
                    why = p;
                    None
                }
            }
        }
    };
    match (&got, &want) {
        (Ok(g), Some(r)) => {
            check(g.iter().count() == r.nodes.len(), 2);
            check(g.tokens().count() == r.toks.len(), 3);
            for (i, n) in g.iter().enumerate() {
                check(same(&g[n].name, &r.nodes[i].0), 2);
                let s = show(g, &g[n].rule);
                check(same(&s, r.nodes[i].1.as_ref().unwrap()), 4);
                observe(s.len() as u64);
            }
            for (i, t) in g.tokens().enumerate() {
                check(same(&g[t].name, &r.toks[i]), 3);
            }
            cover(r.nodes.len() > 0, 1);
        }
        (Err(e), None) => {
            let m = e.to_string();
            check(position(&m) == why, 5);
            observe(why.map(|p| (p.0 * 100 + p.1) as u64).unwrap_or(0));
            cover(!lexed, 2);
            cover(lexed && why.is_some(), 3);
            cover(why.is_none(), 4);
        }
        _ => check(false, 1),
    }
}
const A: &[u8] = b"AB=*?()|&:'/\\ \n";
/// `before` + s + `after`; the characters of names and tokens become concrete (the reader hashes them),
/// everything else stays symbolic
fn text(before: &str, s: String, after: &str) -> String {
    let mut out = before.as_bytes().to_vec();
    let n = out.len();
    out.extend_from_slice(s.as_bytes());
    let mut quoted = false;
    let mut comment = false;
    for i in 0..out.len() {
        let b = out[i];
        if comment {
            comment = b != b'\n';
            continue;
        }
        let esc = quoted && i > 0 && out[i - 1] == b'\\' && !(i > 1 && out[i - 2] == b'\\');
        if b == b'\'' && !esc {
            quoted = !quoted;
        } else if quoted || b.is_ascii_alphanumeric() || b == b'_' {
            if i >= n {
                out[i] = fix(b as u64) as u8;
            }
        } else if b == b'/' && i > 0 && out[i - 1] == b'/' {
            comment = true;
        }
    }
    out.extend_from_slice(after.as_bytes());
    unsafe { String::from_utf8_unchecked(out) }
}
const BASES: [&str; 4] = [
    "A='x'(B|'y')*l:B?\nB='z'&&A",
    "A=B C|'a''b'\nB=A||C||B\n// c\nC=(A?)'\\''",
    "A=(B(A)*'x')?k:('x'|A)\n\nB='\\\\' A*",
    "Ab_1=\t'w\n'Ab_1//'\n|'w'",
];
/// a grammar starting `A=`, then any text over the alphabet
fn h_text() {
    let n = len(0, param(0) as usize);
    one(&text("A=", over(A, n), ""));
}
/// any text over the alphabet
fn h_start() {
    let n = len(0, param(0) as usize);
    one(&text("", over(A, n), ""));
}
/// a sample grammar with a stretch replaced
fn h_edit() {
    let b = BASES[pick(BASES.len() as u64)];
    let c = b.as_bytes();
    let del = param(0) as usize;
    let p = len(0, c.len());
    let d = len(0, if c.len() - p < del { c.len() - p } else { del });
    let k = len(0, param(1) as usize);
    one(&text(&b[..p], over(A, k), &b[p + d..]));
}
/// any Unicode text anywhere in a sample grammar
fn h_char() {
    let b = BASES[pick(BASES.len() as u64)];
    let p = len(0, b.len());
    let n = len(1, param(0) as usize);
    one(&text(&b[..p], string_exact(n), &b[p..]));
}
/// comments and white space may hold anything
fn h_comment() {
    let n = len(0, param(0) as usize);
    let tail = if flag_fixed() { "\nB=\t&" } else { "\n|A" };
    one(&text("A='x'//", string_exact(n), tail));
}
/// a token may hold anything; positions behind it stay right
fn h_literal() {
    let n = len(0, param(0) as usize);
    let s = string_exact(n);
    for b in s.as_bytes() {
        assume(*b != b'/');
    }
    let mut t = String::from("A='");
    t.push_str(&s);
    t.push_str("'\t$");
    one(&t);
}
entries!(h_literal, h_text, h_start, h_edit, h_char, h_comment);
