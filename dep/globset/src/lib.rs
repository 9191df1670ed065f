#![allow(dead_code, unused_macros, unexpected_cfgs)]
use std::borrow::Cow;
use std::path::Path;

use crate::glob::MatchStrategy;
pub use crate::glob::{Glob, GlobBuilder, GlobMatcher};

mod glob;

macro_rules! debug {
    ($($token:tt)*) => {};
}

#[derive(Clone, Debug, Eq, PartialEq)]
pub struct Error {
    glob: Option<String>,
    kind: ErrorKind,
}

#[derive(Clone, Debug, Eq, PartialEq)]
pub enum ErrorKind {
    InvalidRecursive,
    UnclosedClass,
    InvalidRange(char, char),
    UnopenedAlternates,
    UnclosedAlternates,
    NestedAlternates,
    DanglingEscape,
    Regex(String),
    #[doc(hidden)]
    __Nonexhaustive,
}

impl std::error::Error for Error {}

impl Error {
    pub fn glob(&self) -> Option<&str> {
        self.glob.as_deref()
    }
    pub fn kind(&self) -> &ErrorKind {
        &self.kind
    }
}

impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self.glob {
            None => self.kind.fmt(f),
            Some(ref glob) => write!(f, "error parsing glob '{}': {}", glob, self.kind),
        }
    }
}

impl std::fmt::Display for ErrorKind {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(match *self {
            ErrorKind::InvalidRecursive => "invalid use of **; must be one path component",
            ErrorKind::UnclosedClass => "unclosed character class; missing ']'",
            ErrorKind::UnopenedAlternates => "unopened alternate group; missing '{' (maybe escape '}' with '[}]'?)",
            ErrorKind::UnclosedAlternates => "unclosed alternate group; missing '}' (maybe escape '{' with '[{]'?)",
            ErrorKind::NestedAlternates => "nested alternate groups are not allowed",
            ErrorKind::DanglingEscape => "dangling '\\'",
            ErrorKind::Regex(ref err) => err,
            ErrorKind::InvalidRange(s, e) => return write!(f, "invalid range; '{}' > '{}'", s, e),
            ErrorKind::__Nonexhaustive => unreachable!(),
        })
    }
}

fn new_regex(_: &str) -> Result<regex_automata::meta::Regex, Error> {
    unimplemented!("single globs are not modelled")
}

/// what a pattern compiles to: alternatives of byte sets, with loops
#[derive(Clone, Debug)]
pub(crate) enum Node {
    /// one byte in (or out of) the ranges
    Byte(bool, Vec<(u8, u8)>),
    /// any number of bytes in (or out of) the ranges
    Star(bool, Vec<(u8, u8)>),
    Alt(Vec<Vec<Node>>),
}

#[inline(always)]
fn inset(neg: bool, r: &[(u8, u8)], b: u8) -> bool {
    let mut x = false;
    for &(l, h) in r {
        x |= b.wrapping_sub(l) <= h - l;
    }
    x ^ neg
}

/// `at[i]`: the pattern so far matches the first i bytes
fn step(nodes: &[Node], mut at: Vec<bool>, p: &[u8]) -> Vec<bool> {
    for n in nodes {
        match n {
            Node::Byte(neg, r) => {
                let mut to = vec![false; at.len()];
                for i in 0..p.len() {
                    to[i + 1] = at[i] & inset(*neg, r, p[i]);
                }
                at = to;
            }
            Node::Star(neg, r) => {
                for i in 0..p.len() {
                    at[i + 1] |= at[i] & inset(*neg, r, p[i]);
                }
            }
            Node::Alt(v) => {
                let mut to = vec![false; at.len()];
                for a in v {
                    let x = step(a, at.clone(), p);
                    for i in 0..to.len() {
                        to[i] |= x[i];
                    }
                }
                at = to;
            }
        }
    }
    at
}
fn run(nodes: &[Node], p: &[u8]) -> bool {
    let mut at = vec![false; p.len() + 1];
    at[0] = true;
    step(nodes, at, p)[p.len()]
}
fn eq(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut d = 0u8;
    for i in 0..a.len() {
        d |= a[i] ^ b[i];
    }
    d == 0
}
fn ends(p: &[u8], s: &[u8]) -> bool {
    p.len() >= s.len() && eq(&p[p.len() - s.len()..], s)
}
fn starts(p: &[u8], s: &[u8]) -> bool {
    p.len() >= s.len() && eq(&p[..s.len()], s)
}
/// the path has a base name, as globset sees it
fn has_name(p: &[u8]) -> bool {
    !p.is_empty() && p[p.len() - 1] != b'.'
}
/// the base name is exactly s (s has no '/')
fn name_is(p: &[u8], s: &[u8]) -> bool {
    if p.len() < s.len() {
        return false;
    }
    let k = p.len() - s.len();
    has_name(p) & ends(p, s) & (k == 0 || p[k - 1] == b'/')
}

#[derive(Clone, Debug)]
enum Strat {
    Literal(String),
    Basename(String),
    Ext(String),
    Prefix(String),
    Suffix(String, bool),
    Required(String, Vec<Node>),
    Regex(Vec<Node>),
}

/// the answer of the strategy globset chooses; strategies compare with literals, so a `&` of
/// comparisons decides
fn hit(s: &Strat, p: &[u8]) -> bool {
    match s {
        Strat::Literal(l) => eq(p, l.as_bytes()),
        Strat::Basename(l) => name_is(p, l.as_bytes()),
        // the extension starts at the last '.', and the literal has no other '.' and no '/'
        Strat::Ext(e) => has_name(p) & ends(p, e.as_bytes()),
        Strat::Prefix(l) => starts(p, l.as_bytes()),
        Strat::Suffix(l, component) => ends(p, l.as_bytes()) | (*component && eq(p, &l.as_bytes()[1..])),
        Strat::Required(e, re) => has_name(p) & ends(p, e.as_bytes()) & run(re, p),
        Strat::Regex(re) => run(re, p),
    }
}

#[derive(Clone, Debug)]
pub struct GlobSet {
    strats: Vec<Strat>,
}

impl GlobSet {
    pub fn builder() -> GlobSetBuilder {
        GlobSetBuilder::new()
    }
    pub fn empty() -> GlobSet {
        GlobSet { strats: vec![] }
    }
    pub fn is_empty(&self) -> bool {
        self.strats.is_empty()
    }
    pub fn len(&self) -> usize {
        self.strats.len()
    }
    pub fn is_match<P: AsRef<Path>>(&self, path: P) -> bool {
        self.is_match_candidate(&Candidate::new(path.as_ref()))
    }
    pub fn is_match_candidate(&self, path: &Candidate<'_>) -> bool {
        !self.matches_candidate(path).is_empty()
    }
    pub fn matches<P: AsRef<Path>>(&self, path: P) -> Vec<usize> {
        self.matches_candidate(&Candidate::new(path.as_ref()))
    }
    pub fn matches_candidate(&self, path: &Candidate<'_>) -> Vec<usize> {
        let mut into = vec![];
        self.matches_candidate_into(path, &mut into);
        into
    }
    pub fn matches_into<P: AsRef<Path>>(&self, path: P, into: &mut Vec<usize>) {
        self.matches_candidate_into(&Candidate::new(path.as_ref()), into);
    }
    pub fn matches_candidate_into(&self, path: &Candidate<'_>, into: &mut Vec<usize>) {
        into.clear();
        for (i, s) in self.strats.iter().enumerate() {
            if hit(s, &path.path) {
                into.push(i);
            }
        }
    }
    fn new(pats: &[Glob]) -> Result<GlobSet, Error> {
        let mut strats = vec![];
        for p in pats {
            strats.push(match MatchStrategy::new(p) {
                MatchStrategy::Literal(l) => Strat::Literal(l),
                MatchStrategy::BasenameLiteral(l) => Strat::Basename(l),
                MatchStrategy::Extension(e) => Strat::Ext(e),
                MatchStrategy::Prefix(l) => Strat::Prefix(l),
                MatchStrategy::Suffix { suffix, component } => Strat::Suffix(suffix, component),
                MatchStrategy::RequiredExtension(e) => Strat::Required(e, p.nodes()?),
                MatchStrategy::Regex => Strat::Regex(p.nodes()?),
            });
        }
        Ok(GlobSet { strats })
    }
}

impl Default for GlobSet {
    fn default() -> Self {
        GlobSet::empty()
    }
}

#[derive(Clone, Debug)]
pub struct GlobSetBuilder {
    pats: Vec<Glob>,
}

impl GlobSetBuilder {
    pub fn new() -> GlobSetBuilder {
        GlobSetBuilder { pats: vec![] }
    }
    pub fn build(&self) -> Result<GlobSet, Error> {
        GlobSet::new(&self.pats)
    }
    pub fn add(&mut self, pat: Glob) -> &mut GlobSetBuilder {
        self.pats.push(pat);
        self
    }
}

#[derive(Clone, Debug)]
pub struct Candidate<'a> {
    path: Cow<'a, [u8]>,
}

impl<'a> Candidate<'a> {
    pub fn new<P: AsRef<Path> + ?Sized>(path: &'a P) -> Candidate<'a> {
        use std::os::unix::ffi::OsStrExt;
        Candidate { path: Cow::Borrowed(path.as_ref().as_os_str().as_bytes()) }
    }
}
