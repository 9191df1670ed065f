//! Stand-in for `biome_rowan`: a syntax tree over its text, built when it is looked into.
use std::cell::OnceCell;
use std::fmt;
use std::marker::PhantomData;
use std::rc::Rc;

pub use biome_text_size::{TextRange, TextSize};

pub trait Language: Sized + Clone + Copy + fmt::Debug + Default + Eq + 'static {
    type Kind: Copy + Eq + fmt::Debug;
    fn kind_from_raw(raw: u16) -> Self::Kind;
    fn build(text: &str) -> Vec<Data>;
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum TriviaPieceKind {
    Newline,
    Whitespace,
    SingleLineComment,
}
#[derive(Clone, Debug)]
pub struct Piece {
    pub kind: TriviaPieceKind,
    pub start: u32,
    pub end: u32,
}
#[derive(Clone, Debug)]
pub struct TokenData {
    pub kind: u16,
    /// of the text without trivia
    pub start: u32,
    pub end: u32,
    pub leading: Vec<Piece>,
    pub trailing: Vec<Piece>,
}
impl TokenData {
    fn full(&self) -> (u32, u32) {
        (self.leading.first().map_or(self.start, |p| p.start), self.trailing.last().map_or(self.end, |p| p.end))
    }
}
#[derive(Clone, Debug)]
pub enum Child {
    Node(usize),
    Token(TokenData),
}
#[derive(Clone, Debug)]
pub struct Data {
    pub kind: u16,
    pub parent: Option<usize>,
    pub children: Vec<Child>,
    /// where it is when it has no tokens
    pub at: u32,
}
struct Tree {
    text: String,
    nodes: OnceCell<Vec<Data>>,
}
pub struct SyntaxNode<L: Language> {
    tree: Rc<Tree>,
    at: usize,
    l: PhantomData<L>,
}
impl<L: Language> Clone for SyntaxNode<L> {
    fn clone(&self) -> Self {
        SyntaxNode { tree: self.tree.clone(), at: self.at, l: PhantomData }
    }
}
impl<L: Language> PartialEq for SyntaxNode<L> {
    fn eq(&self, o: &Self) -> bool {
        Rc::ptr_eq(&self.tree, &o.tree) && self.at == o.at
    }
}
impl<L: Language> Eq for SyntaxNode<L> {}
impl<L: Language> fmt::Debug for SyntaxNode<L> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.text())
    }
}
impl<L: Language> SyntaxNode<L> {
    /// the root of a text
    pub fn of(text: &str) -> Self {
        SyntaxNode { tree: Rc::new(Tree { text: text.to_string(), nodes: OnceCell::new() }), at: 0, l: PhantomData }
    }
    /// the text with all trivia
    pub fn text(&self) -> String {
        if self.at == 0 {
            return self.tree.text.clone();
        }
        let r = self.text_range_with_trivia();
        self.tree.text[usize::from(r.start())..usize::from(r.end())].to_string()
    }
    fn nodes(&self) -> &[Data] {
        self.tree.nodes.get_or_init(|| L::build(&self.tree.text))
    }
    fn data(&self) -> &Data {
        &self.nodes()[self.at]
    }
    fn go(&self, at: usize) -> Self {
        SyntaxNode { tree: self.tree.clone(), at, l: PhantomData }
    }
    pub fn kind(&self) -> L::Kind {
        L::kind_from_raw(self.data().kind)
    }
    pub fn parent(&self) -> Option<Self> {
        self.data().parent.map(|p| self.go(p))
    }
    fn tokens(&self, at: usize, out: &mut Vec<TokenData>) {
        for c in &self.nodes()[at].children {
            match c {
                Child::Node(n) => self.tokens(*n, out),
                Child::Token(t) => out.push(t.clone()),
            }
        }
    }
    fn own_tokens(&self) -> Vec<TokenData> {
        let mut v = vec![];
        self.tokens(self.at, &mut v);
        v
    }
    pub fn text_range_with_trivia(&self) -> TextRange {
        let v = self.own_tokens();
        match (v.first(), v.last()) {
            (Some(a), Some(b)) => TextRange::new(a.full().0.into(), b.full().1.into()),
            _ => TextRange::empty(self.data().at.into()),
        }
    }
    pub fn text_trimmed_range(&self) -> TextRange {
        let v: Vec<TokenData> = self.own_tokens().into_iter().filter(|t| t.start != t.end).collect();
        match (v.first(), v.last()) {
            (Some(a), Some(b)) => TextRange::new(a.start.into(), b.end.into()),
            _ => TextRange::empty(self.text_range_with_trivia().end()),
        }
    }
    pub fn children(&self) -> std::vec::IntoIter<Self> {
        let v: Vec<Self> = self
            .data()
            .children
            .iter()
            .filter_map(|c| match c {
                Child::Node(n) => Some(self.go(*n)),
                _ => None,
            })
            .collect();
        v.into_iter()
    }
    pub fn first_child(&self) -> Option<Self> {
        self.children().next()
    }
    pub fn last_child(&self) -> Option<Self> {
        self.children().last()
    }
    fn siblings(&self) -> Vec<Self> {
        self.parent().map_or(vec![], |p| p.children().collect())
    }
    pub fn next_sibling(&self) -> Option<Self> {
        self.siblings().into_iter().skip_while(|n| n != self).nth(1)
    }
    pub fn prev_sibling(&self) -> Option<Self> {
        self.siblings().into_iter().take_while(|n| n != self).last()
    }
    pub fn ancestors(&self) -> impl Iterator<Item = Self> {
        std::iter::successors(Some(self.clone()), |n| n.parent())
    }
    pub fn descendants(&self) -> impl Iterator<Item = Self> {
        self.preorder().filter_map(|e| match e {
            WalkEvent::Enter(n) => Some(n),
            WalkEvent::Leave(_) => None,
        })
    }
    pub fn preorder(&self) -> Preorder<L> {
        Preorder { root: self.clone(), next: Some(WalkEvent::Enter(self.clone())), last: None }
    }
    pub fn first_leading_trivia(&self) -> Option<SyntaxTrivia<L>> {
        self.own_tokens().first().map(|t| SyntaxTrivia(t.leading.clone(), PhantomData))
    }
    pub fn last_trailing_trivia(&self) -> Option<SyntaxTrivia<L>> {
        self.own_tokens().last().map(|t| SyntaxTrivia(t.trailing.clone(), PhantomData))
    }
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum WalkEvent<T> {
    Enter(T),
    Leave(T),
}
pub struct Preorder<L: Language> {
    root: SyntaxNode<L>,
    next: Option<WalkEvent<SyntaxNode<L>>>,
    last: Option<SyntaxNode<L>>,
}
impl<L: Language> Preorder<L> {
    /// go on behind the node which was entered last
    pub fn skip_subtree(&mut self) {
        if let Some(WalkEvent::Enter(n)) = &self.next {
            if let Some(p) = n.parent() {
                if self.last.as_ref() == Some(&p) {
                    self.next = Some(WalkEvent::Leave(p));
                }
            }
        }
    }
}
impl<L: Language> Iterator for Preorder<L> {
    type Item = WalkEvent<SyntaxNode<L>>;
    fn next(&mut self) -> Option<Self::Item> {
        let now = self.next.take()?;
        self.last = None;
        self.next = match &now {
            WalkEvent::Enter(n) => {
                self.last = Some(n.clone());
                Some(match n.first_child() {
                    Some(c) => WalkEvent::Enter(c),
                    None => WalkEvent::Leave(n.clone()),
                })
            }
            WalkEvent::Leave(n) if *n == self.root => None,
            WalkEvent::Leave(n) => match n.next_sibling() {
                Some(s) => Some(WalkEvent::Enter(s)),
                None => n.parent().map(WalkEvent::Leave),
            },
        };
        Some(now)
    }
}
#[derive(Clone, Debug)]
pub struct SyntaxTrivia<L>(Vec<Piece>, PhantomData<L>);
impl<L> SyntaxTrivia<L> {
    pub fn pieces(&self) -> std::vec::IntoIter<SyntaxTriviaPiece<L>> {
        self.0.iter().map(|p| SyntaxTriviaPiece(p.clone(), PhantomData)).collect::<Vec<_>>().into_iter()
    }
}
#[derive(Clone, Debug)]
pub struct SyntaxTriviaPiece<L>(Piece, PhantomData<L>);
impl<L> SyntaxTriviaPiece<L> {
    pub fn is_whitespace(&self) -> bool {
        self.0.kind == TriviaPieceKind::Whitespace
    }
    pub fn is_newline(&self) -> bool {
        self.0.kind == TriviaPieceKind::Newline
    }
    pub fn is_comments(&self) -> bool {
        self.0.kind == TriviaPieceKind::SingleLineComment
    }
    pub fn kind(&self) -> TriviaPieceKind {
        self.0.kind
    }
    pub fn text_range(&self) -> TextRange {
        TextRange::new(self.0.start.into(), self.0.end.into())
    }
}
#[derive(Clone, Debug)]
pub struct SyntaxToken<L> {
    l: PhantomData<L>,
}
impl<L: Language> SyntaxToken<L> {
    pub fn new_detached<T1, T2>(_: L::Kind, _: &str, _: T1, _: T2) -> Self
    where
        T1: IntoIterator<Item = TriviaPiece>,
        T2: IntoIterator<Item = TriviaPiece>,
    {
        SyntaxToken { l: PhantomData }
    }
}
#[derive(Clone, Copy, Debug)]
pub struct TriviaPiece;
#[derive(Clone, Debug)]
pub enum SyntaxElement<L: Language> {
    Node(SyntaxNode<L>),
}
impl<L: Language> From<SyntaxNode<L>> for SyntaxElement<L> {
    fn from(n: SyntaxNode<L>) -> Self {
        SyntaxElement::Node(n)
    }
}
impl<L: Language> SyntaxElement<L> {
    pub fn leading_trivia(&self) -> Option<SyntaxTrivia<L>> {
        let SyntaxElement::Node(n) = self;
        n.first_leading_trivia()
    }
    pub fn trailing_trivia(&self) -> Option<SyntaxTrivia<L>> {
        let SyntaxElement::Node(n) = self;
        n.last_trailing_trivia()
    }
    pub fn text_trimmed_range(&self) -> TextRange {
        let SyntaxElement::Node(n) = self;
        n.text_trimmed_range()
    }
    pub fn text_range_with_trivia(&self) -> TextRange {
        let SyntaxElement::Node(n) = self;
        n.text_range_with_trivia()
    }
}
pub trait AstNode: Sized {
    type Language: Language;
    fn can_cast(kind: <Self::Language as Language>::Kind) -> bool;
    fn cast(node: SyntaxNode<Self::Language>) -> Option<Self>;
    fn syntax(&self) -> &SyntaxNode<Self::Language>;
    fn into_syntax(self) -> SyntaxNode<Self::Language>;
}
pub trait AstNodeList: Sized {}
