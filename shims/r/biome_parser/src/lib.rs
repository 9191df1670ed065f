//! Stand-in for `biome_parser`: events and trivia become a syntax tree.
use biome_rowan::{SendNode, TextRange};
#[derive(Clone, Debug)]
pub struct AnyParse {
    root: SendNode,
    diagnostics: Vec<prelude::ParseDiagnostic>,
}
impl AnyParse {
    pub fn new(root: SendNode, diagnostics: Vec<prelude::ParseDiagnostic>) -> AnyParse {
        AnyParse { root, diagnostics }
    }
    pub fn has_errors(&self) -> bool {
        !self.diagnostics.is_empty()
    }
    pub fn into_diagnostics(self) -> Vec<prelude::ParseDiagnostic> {
        self.diagnostics
    }
    pub fn root(&self) -> SendNode {
        self.root.clone()
    }
}
pub mod prelude {
    use biome_rowan::{TextRange, TextSize, TriviaPieceKind};
    #[derive(Clone, Debug)]
    pub struct ParseDiagnostic {
        pub message: String,
        pub span: Option<TextRange>,
    }
    impl ParseDiagnostic {
        pub fn new(message: impl Into<String>, span: Option<TextRange>) -> Self {
            ParseDiagnostic { message: message.into(), span }
        }
    }
    #[derive(Clone, Debug)]
    pub struct Trivia {
        kind: TriviaPieceKind,
        range: TextRange,
        trailing: bool,
    }
    impl Trivia {
        pub fn new(kind: TriviaPieceKind, range: TextRange, trailing: bool) -> Self {
            Trivia { kind, range, trailing }
        }
        pub fn kind(&self) -> TriviaPieceKind {
            self.kind
        }
        pub fn len(&self) -> TextSize {
            self.range.len()
        }
        pub fn offset(&self) -> TextSize {
            self.range.start()
        }
        pub fn trailing(&self) -> bool {
            self.trailing
        }
        pub fn text_range(&self) -> TextRange {
            self.range
        }
    }
}
pub use prelude::ParseDiagnostic;
pub mod token_source {
    pub use crate::prelude::Trivia;
}
pub mod event {
    use super::tree_sink::TreeSink;
    use biome_rowan::{SyntaxKind, TextSize};
    use std::num::NonZeroU32;
    #[derive(Clone, Debug, PartialEq, Eq)]
    pub enum Event<K: SyntaxKind> {
        Start { kind: K, forward_parent: Option<NonZeroU32> },
        Finish,
        Token { kind: K, end: TextSize },
    }
    pub fn process<K: SyntaxKind>(sink: &mut impl TreeSink<Kind = K>, events: Vec<Event<K>>, errors: Vec<super::ParseDiagnostic>) {
        sink.errors(errors);
        for e in events {
            match e {
                Event::Start { kind, forward_parent } => {
                    assert!(forward_parent.is_none(), "stand-in: forward parents");
                    if kind != K::TOMBSTONE {
                        sink.start_node(kind)
                    }
                }
                Event::Finish => sink.finish_node(),
                Event::Token { kind, end } => sink.token(kind, end),
            }
        }
    }
}
pub mod tree_sink {
    use super::{ParseDiagnostic, TextRange};
    use crate::prelude::Trivia;
    use biome_rowan::{Language, NodeCache, SyntaxFactory, SyntaxKind, SyntaxNode, TextSize, TreeBuilder, TriviaPiece};
    pub trait TreeSink {
        type Kind: SyntaxKind;
        fn token(&mut self, kind: Self::Kind, end: TextSize);
        fn start_node(&mut self, kind: Self::Kind);
        fn finish_node(&mut self);
        fn errors(&mut self, errors: Vec<ParseDiagnostic>);
    }
    /// Trivia between tokens goes to the next token as leading or to the one before it as trailing, as each piece says.
    pub struct LosslessTreeSink<'a, L: Language, F: SyntaxFactory<Kind = L::Kind>> {
        text: &'a str,
        trivia: &'a [Trivia],
        at: TextSize,
        next: usize,
        depth: usize,
        eof: bool,
        errors: Vec<ParseDiagnostic>,
        inner: TreeBuilder<'a, L, F>,
    }
    impl<'a, L: Language, F: SyntaxFactory<Kind = L::Kind>> LosslessTreeSink<'a, L, F> {
        pub fn new(text: &'a str, trivia: &'a [Trivia]) -> Self {
            LosslessTreeSink { text, trivia, at: 0.into(), next: 0, depth: 0, eof: true, errors: vec![], inner: TreeBuilder::over(text) }
        }
        pub fn with_cache(text: &'a str, trivia: &'a [Trivia], _: &'a mut NodeCache) -> Self {
            Self::new(text, trivia)
        }
        pub fn finish(self) -> (SyntaxNode<L>, Vec<ParseDiagnostic>) {
            (self.inner.finish(), self.errors)
        }
        fn eat(&mut self, trailing: bool) -> Vec<TriviaPiece> {
            let mut v = vec![];
            while let Some(t) = self.trivia.get(self.next) {
                if t.trailing() != trailing || t.offset() != self.at {
                    break;
                }
                v.push(TriviaPiece::new(t.kind(), t.len()));
                self.at += t.len();
                self.next += 1;
            }
            v
        }
        fn add(&mut self, kind: L::Kind, end: TextSize) {
            if kind == L::Kind::EOF {
                self.eof = false;
            }
            let start = self.at;
            let leading = self.eat(false);
            self.at = end;
            let trailing = self.eat(true);
            let text = &self.text[TextRange::new(start, self.at)];
            self.inner.token_with_trivia(kind, text, &leading, &trailing);
        }
    }
    impl<L: Language, F: SyntaxFactory<Kind = L::Kind>> TreeSink for LosslessTreeSink<'_, L, F> {
        type Kind = L::Kind;
        fn token(&mut self, kind: L::Kind, end: TextSize) {
            self.add(kind, end);
        }
        fn start_node(&mut self, kind: L::Kind) {
            self.inner.start_node(kind);
            self.depth += 1;
        }
        fn finish_node(&mut self) {
            self.depth -= 1;
            if self.depth == 0 && self.eof {
                self.add(L::Kind::EOF, TextSize::from(self.text.len() as u32));
            }
            self.inner.finish_node();
        }
        fn errors(&mut self, errors: Vec<ParseDiagnostic>) {
            self.errors = errors;
        }
    }
}
