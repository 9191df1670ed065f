//! Stand-in for `air_r_syntax`, for a language which is simpler than R: words, `{ ... }` around
//! lists of expressions, `-` in front of an expression, and comments from `%` to the end of the line.
pub use biome_rowan::{TextRange, TextSize, WalkEvent};
use biome_rowan::{AstNode, Child, Data, Language, Piece, SyntaxNode, SyntaxToken, TokenData, TriviaPieceKind};

#[derive(Clone, Copy, Debug, Default, PartialEq, Eq)]
pub struct RLanguage;
#[allow(non_camel_case_types)]
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
#[repr(u16)]
pub enum RSyntaxKind {
    EOF,
    IDENT,
    L_CURLY,
    R_CURLY,
    MINUS,
    R_ROOT,
    R_EXPRESSION_LIST,
    R_IDENTIFIER,
    R_BRACED_EXPRESSIONS,
    R_UNARY_EXPRESSION,
}
use RSyntaxKind::*;
pub type RSyntaxNode = SyntaxNode<RLanguage>;
pub type RSyntaxToken = SyntaxToken<RLanguage>;

struct Builder<'a> {
    text: &'a [u8],
    at: usize,
    nodes: Vec<Data>,
}
impl Builder<'_> {
    fn node(&mut self, kind: RSyntaxKind, parent: Option<usize>) -> usize {
        self.nodes.push(Data { kind: kind as u16, parent, children: vec![], at: self.at as u32 });
        let n = self.nodes.len() - 1;
        if let Some(p) = parent {
            self.nodes[p].children.push(Child::Node(n));
        }
        n
    }
    fn peek(&self) -> Option<u8> {
        self.text.get(self.at).copied()
    }
    /// what is between tokens, to the end of the line or of all of it
    fn trivia(&mut self, line: bool) -> Vec<Piece> {
        let mut v = vec![];
        while let Some(b) = self.peek() {
            let start = self.at as u32;
            let kind = match b {
                b' ' | b'\t' | b'\r' => TriviaPieceKind::Whitespace,
                b'\n' if !line => TriviaPieceKind::Newline,
                b'%' => TriviaPieceKind::SingleLineComment,
                _ => break,
            };
            self.at += 1;
            if kind == TriviaPieceKind::SingleLineComment {
                while self.peek().is_some_and(|b| b != b'\n') {
                    self.at += 1;
                }
            }
            v.push(Piece { kind, start, end: self.at as u32 });
        }
        v
    }
    fn token(&mut self, kind: RSyntaxKind, parent: usize, leading: Vec<Piece>, len: usize) {
        let start = self.at as u32;
        self.at += len;
        let end = self.at as u32;
        let trailing = self.trivia(true);
        self.nodes[parent].children.push(Child::Token(TokenData { kind: kind as u16, start, end, leading, trailing }));
    }
    fn expression(&mut self, parent: usize, leading: Vec<Piece>) {
        match self.peek().unwrap() {
            b'{' => {
                let n = self.node(R_BRACED_EXPRESSIONS, Some(parent));
                self.token(L_CURLY, n, leading, 1);
                let rest = self.list(n, false);
                let len = (self.at < self.text.len()) as usize;
                self.token(R_CURLY, n, rest, len);
            }
            b'-' => {
                let n = self.node(R_UNARY_EXPRESSION, Some(parent));
                self.token(MINUS, n, leading, 1);
                if self.peek().is_some_and(|b| !matches!(b, b'\n' | b'}')) {
                    self.expression(n, vec![]);
                }
            }
            _ => {
                let n = self.node(R_IDENTIFIER, Some(parent));
                let mut len = 1;
                while self.text.get(self.at + len).is_some_and(|b| !matches!(b, b' ' | b'\t' | b'\r' | b'\n' | b'%' | b'{' | b'}' | b'-')) {
                    len += 1;
                }
                self.token(IDENT, n, leading, len);
            }
        }
    }
    /// up to what ends it, whose leading trivia are returned
    fn list(&mut self, parent: usize, top: bool) -> Vec<Piece> {
        let n = self.node(R_EXPRESSION_LIST, Some(parent));
        loop {
            let leading = self.trivia(false);
            match self.peek() {
                None => return leading,
                Some(b'}') if !top => return leading,
                _ => self.expression(n, leading),
            }
        }
    }
}
impl Language for RLanguage {
    type Kind = RSyntaxKind;
    fn kind_from_raw(raw: u16) -> RSyntaxKind {
        [EOF, IDENT, L_CURLY, R_CURLY, MINUS, R_ROOT, R_EXPRESSION_LIST, R_IDENTIFIER, R_BRACED_EXPRESSIONS, R_UNARY_EXPRESSION][raw as usize]
    }
    fn build(text: &str) -> Vec<Data> {
        let mut b = Builder { text: text.as_bytes(), at: 0, nodes: vec![] };
        let root = b.node(R_ROOT, None);
        let rest = b.list(root, true);
        b.token(EOF, root, rest, 0);
        b.nodes
    }
}
macro_rules! ast {
    ($($n:ident: $($k:ident)|+;)*) => { $(
        #[derive(Clone, Debug, PartialEq, Eq)]
        pub struct $n(RSyntaxNode);
        impl AstNode for $n {
            type Language = RLanguage;
            fn can_cast(kind: RSyntaxKind) -> bool {
                matches!(kind, $($k)|+)
            }
            fn cast(node: RSyntaxNode) -> Option<Self> {
                if Self::can_cast(node.kind()) { Some($n(node)) } else { None }
            }
            fn syntax(&self) -> &RSyntaxNode {
                &self.0
            }
            fn into_syntax(self) -> RSyntaxNode {
                self.0
            }
        }
    )* };
}
ast! {
    RRoot: R_ROOT;
    RExpressionList: R_EXPRESSION_LIST;
    AnyRExpression: R_IDENTIFIER | R_BRACED_EXPRESSIONS | R_UNARY_EXPRESSION;
    RBracedExpressions: R_BRACED_EXPRESSIONS;
}
impl RExpressionList {
    pub fn iter(&self) -> std::vec::IntoIter<AnyRExpression> {
        self.0.children().map(AnyRExpression).collect::<Vec<_>>().into_iter()
    }
}
impl IntoIterator for RExpressionList {
    type Item = AnyRExpression;
    type IntoIter = std::vec::IntoIter<AnyRExpression>;
    fn into_iter(self) -> Self::IntoIter {
        self.iter()
    }
}
impl IntoIterator for &RExpressionList {
    type Item = AnyRExpression;
    type IntoIter = std::vec::IntoIter<AnyRExpression>;
    fn into_iter(self) -> Self::IntoIter {
        self.iter()
    }
}
