//! Stand-in for `air_r_parser`: every text without `!` parses.
use air_r_syntax::RSyntaxNode;
use std::fmt;

#[derive(Clone, Debug, Default)]
pub struct RParserOptions;
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct ParseError;
impl fmt::Display for ParseError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("parse error")
    }
}
impl std::error::Error for ParseError {}
#[derive(Clone, Debug)]
pub struct Parse {
    root: RSyntaxNode,
    error: Option<ParseError>,
}
impl Parse {
    pub fn syntax(&self) -> RSyntaxNode {
        self.root.clone()
    }
    pub fn has_error(&self) -> bool {
        self.error.is_some()
    }
    pub fn error(&self) -> Option<&ParseError> {
        self.error.as_ref()
    }
    pub fn into_error(self) -> Option<ParseError> {
        self.error
    }
}
pub fn parse(text: &str, _: RParserOptions) -> Parse {
    let mut bad = false;
    for b in text.bytes() {
        bad |= b == b'!';
    }
    Parse { root: RSyntaxNode::of(text), error: if bad { Some(ParseError) } else { None } }
}
