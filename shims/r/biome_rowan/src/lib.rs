//! Stand-in for `biome_rowan`: a syntax tree with slots, kept as one table of nodes over the text it was built from.
use std::fmt;
use std::iter::FusedIterator;
use std::marker::PhantomData;
use std::rc::Rc;

pub use biome_text_size::{TextLen, TextRange, TextSize};

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct RawSyntaxKind(pub u16);
pub trait SyntaxKind: fmt::Debug + PartialEq + Copy {
    const TOMBSTONE: Self;
    const EOF: Self;
    fn is_bogus(&self) -> bool;
    fn to_bogus(&self) -> Self;
    fn to_raw(&self) -> RawSyntaxKind;
    fn from_raw(raw: RawSyntaxKind) -> Self;
    fn is_root(&self) -> bool;
    fn is_list(&self) -> bool;
    fn is_trivia(self) -> bool;
    fn to_string(&self) -> Option<&'static str>;
}
pub trait Language: Sized + Clone + Copy + fmt::Debug + Eq + Ord + std::hash::Hash {
    type Kind: SyntaxKind;
    type Root: AstNode<Language = Self> + Clone + Eq + fmt::Debug;
}

/// A set of kinds.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct SyntaxKindSet<L>([u128; 4], PhantomData<L>);
impl<L: Language> SyntaxKindSet<L> {
    pub const fn from_raw(k: RawSyntaxKind) -> Self {
        let mut a = [0; 4];
        a[(k.0 / 128) as usize] = 1 << (k.0 % 128);
        SyntaxKindSet(a, PhantomData)
    }
    pub const fn union(self, o: Self) -> Self {
        SyntaxKindSet([self.0[0] | o.0[0], self.0[1] | o.0[1], self.0[2] | o.0[2], self.0[3] | o.0[3]], PhantomData)
    }
    pub fn matches(self, k: L::Kind) -> bool {
        let k = k.to_raw().0;
        self.0[(k / 128) as usize] >> (k % 128) & 1 == 1
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum TriviaPieceKind {
    Newline,
    Whitespace,
    SingleLineComment,
    MultiLineComment,
    Skipped,
}
impl TriviaPieceKind {
    pub fn is_newline(&self) -> bool {
        *self == TriviaPieceKind::Newline
    }
    pub fn is_whitespace(&self) -> bool {
        *self == TriviaPieceKind::Whitespace
    }
    pub fn is_comment(&self) -> bool {
        matches!(self, TriviaPieceKind::SingleLineComment | TriviaPieceKind::MultiLineComment)
    }
    pub fn is_single_line_comment(&self) -> bool {
        *self == TriviaPieceKind::SingleLineComment
    }
}
/// kind and length of a piece of trivia
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct TriviaPiece {
    pub kind: TriviaPieceKind,
    pub length: TextSize,
}
impl TriviaPiece {
    pub fn new<S: Into<TextSize>>(kind: TriviaPieceKind, length: S) -> TriviaPiece {
        TriviaPiece { kind, length: length.into() }
    }
}

// ---------------------------------------------------------------- building
#[derive(Clone, Debug)]
pub struct TokenData {
    kind: u16,
    /// with trivia
    start: u32,
    end: u32,
    text: (u32, u32),
    leading: Vec<(TriviaPieceKind, u32, u32)>,
    trailing: Vec<(TriviaPieceKind, u32, u32)>,
}
#[derive(Debug)]
pub struct Green {
    kind: u16,
    slots: Vec<Option<GreenElement>>,
}
#[derive(Debug)]
pub enum GreenElement {
    Node(Green),
    Token(TokenData),
}
impl GreenElement {
    fn kind(&self) -> u16 {
        match self {
            GreenElement::Node(n) => n.kind,
            GreenElement::Token(t) => t.kind,
        }
    }
}
pub struct RawSyntaxElement<K>(GreenElement, PhantomData<K>);
impl<K: SyntaxKind> RawSyntaxElement<K> {
    pub fn kind(&self) -> K {
        K::from_raw(RawSyntaxKind(self.0.kind()))
    }
}
pub struct RawSyntaxNode<K>(Green, PhantomData<K>);
impl<K: SyntaxKind> RawSyntaxNode<K> {
    pub fn new<I: IntoIterator<Item = Option<RawSyntaxElement<K>>>>(kind: K, slots: I) -> Self {
        RawSyntaxNode(Green { kind: kind.to_raw().0, slots: slots.into_iter().map(|x| x.map(|x| x.0)).collect() }, PhantomData)
    }
}
pub struct ParsedChildren<K>(Vec<RawSyntaxElement<K>>);
impl<K> ParsedChildren<K> {
    pub fn len(&self) -> usize {
        self.0.len()
    }
    pub fn is_empty(&self) -> bool {
        self.0.is_empty()
    }
}
impl<K> IntoIterator for ParsedChildren<K> {
    type Item = RawSyntaxElement<K>;
    type IntoIter = std::vec::IntoIter<RawSyntaxElement<K>>;
    fn into_iter(self) -> Self::IntoIter {
        self.0.into_iter()
    }
}
impl<'a, K> IntoIterator for &'a ParsedChildren<K> {
    type Item = &'a RawSyntaxElement<K>;
    type IntoIter = std::slice::Iter<'a, RawSyntaxElement<K>>;
    fn into_iter(self) -> Self::IntoIter {
        self.0.iter()
    }
}
pub struct RawNodeSlots<const N: usize> {
    present: [bool; N],
    at: usize,
}
impl<const N: usize> Default for RawNodeSlots<N> {
    fn default() -> Self {
        RawNodeSlots { present: [false; N], at: 0 }
    }
}
impl<const N: usize> RawNodeSlots<N> {
    pub fn next_slot(&mut self) {
        assert!(self.at < N);
        self.at += 1;
    }
    pub fn mark_present(&mut self) {
        self.present[self.at] = true;
    }
    pub fn into_node<K: SyntaxKind>(self, kind: K, children: ParsedChildren<K>) -> RawSyntaxNode<K> {
        let mut children = children.into_iter();
        let slots: Vec<_> = self.present.iter().map(|p| if *p { Some(children.next().expect("more slots than children")) } else { None }).collect();
        assert!(children.next().is_none());
        RawSyntaxNode::new(kind, slots)
    }
}
pub trait SyntaxFactory: fmt::Debug {
    type Kind: SyntaxKind;
    fn make_syntax(kind: Self::Kind, children: ParsedChildren<Self::Kind>) -> RawSyntaxNode<Self::Kind>;
    fn make_node_list_syntax(kind: Self::Kind, children: ParsedChildren<Self::Kind>, can_cast: fn(Self::Kind) -> bool) -> RawSyntaxNode<Self::Kind> {
        let valid = children.0.iter().all(|c| can_cast(c.kind()));
        RawSyntaxNode::new(if valid { kind } else { kind.to_bogus() }, children.into_iter().map(Some))
    }
    fn make_separated_list_syntax(kind: Self::Kind, children: ParsedChildren<Self::Kind>, can_cast: fn(Self::Kind) -> bool, separator: Self::Kind, allow_trailing: bool) -> RawSyntaxNode<Self::Kind> {
        let (mut node_next, mut slots, mut valid) = (true, vec![], true);
        for c in &children {
            let k = c.kind();
            if can_cast(k) != node_next && (can_cast(k) || k == separator) {
                slots.push(false);
                node_next = !node_next;
            }
            valid &= can_cast(k) || k == separator;
            slots.push(true);
            node_next = !node_next;
        }
        if node_next && !allow_trailing && !children.is_empty() {
            slots.push(false);
        }
        if !valid {
            return RawSyntaxNode::new(kind.to_bogus(), children.into_iter().map(Some));
        }
        let mut children = children.into_iter();
        let slots: Vec<_> = slots.into_iter().map(|p| if p { children.next() } else { None }).collect();
        RawSyntaxNode::new(kind, slots)
    }
}
#[derive(Default)]
pub struct NodeCache;

pub struct TreeBuilder<'a, L: Language, F: SyntaxFactory<Kind = L::Kind>> {
    text: &'a str,
    at: u32,
    open: Vec<(L::Kind, Vec<RawSyntaxElement<L::Kind>>)>,
    f: PhantomData<F>,
}
impl<'a, L: Language, F: SyntaxFactory<Kind = L::Kind>> TreeBuilder<'a, L, F> {
    /// the tokens will be those of `text`, in order
    pub fn over(text: &'a str) -> Self {
        TreeBuilder { text, at: 0, open: vec![(L::Kind::TOMBSTONE, vec![])], f: PhantomData }
    }
    pub fn start_node(&mut self, kind: L::Kind) {
        self.open.push((kind, vec![]));
    }
    pub fn token_with_trivia(&mut self, kind: L::Kind, text: &str, leading: &[TriviaPiece], trailing: &[TriviaPiece]) {
        let (start, end) = (self.at, self.at + u32::from(text.text_len()));
        assert!(std::ptr::eq(text.as_ptr(), self.text[start as usize..].as_ptr()), "not the next text");
        let mut at = start;
        let mut pieces = |l: &[TriviaPiece]| -> Vec<_> {
            l.iter()
                .map(|p| {
                    let s = at;
                    at += u32::from(p.length);
                    (p.kind, s, at)
                })
                .collect()
        };
        let leading = pieces(leading);
        let first = leading.last().map_or(start, |p| p.2);
        let n: u32 = trailing.iter().map(|p| u32::from(p.length)).sum();
        assert!(first + n <= end, "more trivia than text");
        at = end - n;
        let mut pieces = |l: &[TriviaPiece]| -> Vec<_> {
            l.iter()
                .map(|p| {
                    let s = at;
                    at += u32::from(p.length);
                    (p.kind, s, at)
                })
                .collect()
        };
        let trailing = pieces(trailing);
        self.at = end;
        let t = TokenData { kind: kind.to_raw().0, start, end, text: (first, end - n), leading, trailing };
        self.open.last_mut().unwrap().1.push(RawSyntaxElement(GreenElement::Token(t), PhantomData));
    }
    pub fn finish_node(&mut self) {
        let (kind, children) = self.open.pop().unwrap();
        let node = F::make_syntax(kind, ParsedChildren(children));
        self.open.last_mut().expect("nothing to finish").1.push(RawSyntaxElement(GreenElement::Node(node.0), PhantomData));
    }
    pub fn finish(mut self) -> SyntaxNode<L> {
        assert!(self.open.len() == 1);
        let mut l = self.open.pop().unwrap().1;
        assert!(l.len() == 1);
        let GreenElement::Node(n) = l.pop().unwrap().0 else { panic!("not a node") };
        let mut t = Tree { text: self.text.to_string(), nodes: vec![] };
        t.add(n, None, 0);
        SyntaxNode { tree: Rc::new(t), at: 0, l: PhantomData }
    }
}

// ---------------------------------------------------------------- the tree
struct Data {
    kind: u16,
    parent: Option<(usize, usize)>,
    slots: Vec<Slot>,
    range: (u32, u32),
}
enum Slot {
    Empty,
    Node(usize),
    Token(TokenData),
}
struct Tree {
    text: String,
    nodes: Vec<Data>,
}
impl Tree {
    fn add(&mut self, n: Green, parent: Option<(usize, usize)>, start: u32) -> u32 {
        let at = self.nodes.len();
        self.nodes.push(Data { kind: n.kind, parent, slots: vec![], range: (start, start) });
        let mut end = start;
        for (i, s) in n.slots.into_iter().enumerate() {
            let s = match s {
                None => Slot::Empty,
                Some(GreenElement::Token(t)) => {
                    end = t.end;
                    Slot::Token(t)
                }
                Some(GreenElement::Node(n)) => {
                    let k = self.nodes.len();
                    end = self.add(n, Some((at, i)), end);
                    Slot::Node(k)
                }
            };
            self.nodes[at].slots.push(s);
        }
        self.nodes[at].range.1 = end;
        end
    }
}
fn range(r: (u32, u32)) -> TextRange {
    TextRange::new(r.0.into(), r.1.into())
}
pub struct SyntaxNode<L: Language> {
    tree: Rc<Tree>,
    at: usize,
    l: PhantomData<L>,
}
impl<L: Language> Clone for SyntaxNode<L> {
    fn clone(&self) -> Self {
        self.go(self.at)
    }
}
impl<L: Language> PartialEq for SyntaxNode<L> {
    fn eq(&self, o: &Self) -> bool {
        Rc::ptr_eq(&self.tree, &o.tree) && self.at == o.at
    }
}
impl<L: Language> Eq for SyntaxNode<L> {}
impl<L: Language> std::hash::Hash for SyntaxNode<L> {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
        self.at.hash(h)
    }
}
impl<L: Language> fmt::Debug for SyntaxNode<L> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(self.tree_text())
    }
}
impl<L: Language> fmt::Display for SyntaxNode<L> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(self.tree_text())
    }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Direction {
    Next,
    Prev,
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum SyntaxSlot<L: Language> {
    Node(SyntaxNode<L>),
    Token(SyntaxToken<L>),
    Empty { index: u32 },
}
impl<L: Language> SyntaxSlot<L> {
    pub fn into_node(self) -> Option<SyntaxNode<L>> {
        match self {
            SyntaxSlot::Node(n) => Some(n),
            _ => None,
        }
    }
    pub fn into_token(self) -> Option<SyntaxToken<L>> {
        match self {
            SyntaxSlot::Token(n) => Some(n),
            _ => None,
        }
    }
    pub fn into_syntax_element(self) -> Option<SyntaxElement<L>> {
        match self {
            SyntaxSlot::Node(n) => Some(NodeOrToken::Node(n)),
            SyntaxSlot::Token(n) => Some(NodeOrToken::Token(n)),
            _ => None,
        }
    }
    pub fn kind(&self) -> Option<L::Kind> {
        match self {
            SyntaxSlot::Node(n) => Some(n.kind()),
            SyntaxSlot::Token(n) => Some(n.kind()),
            _ => None,
        }
    }
}
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct SyntaxElementKey(usize, u32);
impl<L: Language> SyntaxNode<L> {
    fn go(&self, at: usize) -> Self {
        SyntaxNode { tree: self.tree.clone(), at, l: PhantomData }
    }
    fn data(&self) -> &Data {
        &self.tree.nodes[self.at]
    }
    fn tree_text(&self) -> &str {
        let r = self.data().range;
        &self.tree.text[r.0 as usize..r.1 as usize]
    }
    pub fn new_detached<I: IntoIterator<Item = Option<SyntaxElement<L>>>>(_: L::Kind, _: I) -> Self {
        unimplemented!("stand-in: detached nodes")
    }
    pub fn kind(&self) -> L::Kind {
        L::Kind::from_raw(RawSyntaxKind(self.data().kind))
    }
    pub fn key(&self) -> SyntaxElementKey {
        SyntaxElementKey(self.at, self.data().range.0)
    }
    pub fn index(&self) -> usize {
        self.data().parent.map_or(0, |p| p.1)
    }
    pub fn parent(&self) -> Option<Self> {
        self.data().parent.map(|p| self.go(p.0))
    }
    pub fn grand_parent(&self) -> Option<Self> {
        self.parent()?.parent()
    }
    pub fn ancestors(&self) -> impl Iterator<Item = Self> + use<L> {
        std::iter::successors(Some(self.clone()), |n| n.parent())
    }
    pub fn slot_count(&self) -> usize {
        self.data().slots.len()
    }
    pub fn element_in_slot(&self, i: u32) -> SyntaxSlot<L> {
        match self.data().slots.get(i as usize) {
            Some(Slot::Node(n)) => SyntaxSlot::Node(self.go(*n)),
            Some(Slot::Token(_)) => SyntaxSlot::Token(SyntaxToken { node: self.clone(), slot: i as usize }),
            Some(Slot::Empty) => SyntaxSlot::Empty { index: i },
            None => panic!("no slot {i}"),
        }
    }
    fn element(&self, i: usize) -> Option<SyntaxElement<L>> {
        self.element_in_slot(i as u32).into_syntax_element()
    }
    pub fn slots(&self) -> impl ExactSizeIterator<Item = SyntaxSlot<L>> + DoubleEndedIterator + use<L> {
        let n = self.clone();
        (0..self.slot_count() as u32).map(move |i| n.element_in_slot(i))
    }
    pub fn children(&self) -> SyntaxNodeChildren<L> {
        SyntaxNodeChildren(self.children_with_tokens())
    }
    pub fn children_with_tokens(&self) -> SyntaxElementChildren<L> {
        SyntaxElementChildren { node: self.clone(), at: 0, end: self.slot_count() }
    }
    pub fn tokens(&self) -> impl Iterator<Item = SyntaxToken<L>> + use<L> {
        self.children_with_tokens().filter_map(|e| e.into_token())
    }
    pub fn first_child(&self) -> Option<Self> {
        self.children().next()
    }
    pub fn last_child(&self) -> Option<Self> {
        self.children().last()
    }
    pub fn first_child_or_token(&self) -> Option<SyntaxElement<L>> {
        self.children_with_tokens().next()
    }
    pub fn last_child_or_token(&self) -> Option<SyntaxElement<L>> {
        self.children_with_tokens().last()
    }
    pub fn next_sibling_or_token(&self) -> Option<SyntaxElement<L>> {
        let p = self.parent()?;
        (self.index() + 1..p.slot_count()).find_map(|i| p.element(i))
    }
    pub fn prev_sibling_or_token(&self) -> Option<SyntaxElement<L>> {
        let p = self.parent()?;
        (0..self.index()).rev().find_map(|i| p.element(i))
    }
    pub fn next_sibling(&self) -> Option<Self> {
        let p = self.parent()?;
        (self.index() + 1..p.slot_count()).find_map(|i| p.element(i)?.into_node())
    }
    pub fn prev_sibling(&self) -> Option<Self> {
        let p = self.parent()?;
        (0..self.index()).rev().find_map(|i| p.element(i)?.into_node())
    }
    pub fn first_token(&self) -> Option<SyntaxToken<L>> {
        self.children_with_tokens().find_map(|e| e.first_token())
    }
    pub fn last_token(&self) -> Option<SyntaxToken<L>> {
        (0..self.slot_count()).rev().find_map(|i| self.element(i)?.last_token())
    }
    pub fn preorder(&self) -> impl Iterator<Item = WalkEvent<Self>> + use<L> {
        self.preorder_with_tokens(Direction::Next).filter_map(|e| match e {
            WalkEvent::Enter(NodeOrToken::Node(n)) => Some(WalkEvent::Enter(n)),
            WalkEvent::Leave(NodeOrToken::Node(n)) => Some(WalkEvent::Leave(n)),
            _ => None,
        })
    }
    pub fn preorder_with_tokens(&self, direction: Direction) -> PreorderWithTokens<L> {
        PreorderWithTokens { stack: vec![(self.clone(), 0)], started: false, skip: None, direction }
    }
    pub fn descendants(&self) -> impl Iterator<Item = Self> + use<L> {
        self.preorder().filter_map(|e| match e {
            WalkEvent::Enter(n) => Some(n),
            _ => None,
        })
    }
    pub fn descendants_with_tokens(&self, d: Direction) -> impl Iterator<Item = SyntaxElement<L>> + use<L> {
        self.preorder_with_tokens(d).filter_map(|e| match e {
            WalkEvent::Enter(n) => Some(n),
            _ => None,
        })
    }
    pub fn descendants_tokens(&self, d: Direction) -> impl Iterator<Item = SyntaxToken<L>> + use<L> {
        self.descendants_with_tokens(d).filter_map(|e| e.into_token())
    }
    pub fn text_range_with_trivia(&self) -> TextRange {
        range(self.data().range)
    }
    pub fn text_trimmed_range(&self) -> TextRange {
        match (self.first_token(), self.last_token()) {
            (Some(a), Some(b)) => TextRange::new(a.text_trimmed_range().start(), b.text_trimmed_range().end()),
            _ => self.text_range_with_trivia(),
        }
    }
    pub fn text_with_trivia(&self) -> SyntaxNodeText {
        SyntaxNodeText(self.tree_text().to_string())
    }
    pub fn text_trimmed(&self) -> SyntaxNodeText {
        SyntaxNodeText(self.tree.text[self.text_trimmed_range()].to_string())
    }
    pub fn first_leading_trivia(&self) -> Option<SyntaxTrivia<L>> {
        self.first_token().map(|t| t.leading_trivia())
    }
    pub fn last_trailing_trivia(&self) -> Option<SyntaxTrivia<L>> {
        self.last_token().map(|t| t.trailing_trivia())
    }
    pub fn has_leading_comments(&self) -> bool {
        self.first_token().is_some_and(|t| t.has_leading_comments())
    }
    pub fn has_trailing_comments(&self) -> bool {
        self.last_token().is_some_and(|t| t.has_trailing_comments())
    }
    pub fn has_comments_direct(&self) -> bool {
        self.has_leading_comments() || self.has_trailing_comments()
    }
    pub fn has_comments_descendants(&self) -> bool {
        self.descendants_tokens(Direction::Next).any(|t| t.has_leading_comments() || t.has_trailing_comments())
    }
    pub fn has_leading_non_whitespace_trivia(&self) -> bool {
        self.first_leading_trivia().is_some_and(|t| t.pieces().any(|p| p.is_comments()))
    }
    pub fn into_list(self) -> SyntaxList<L> {
        SyntaxList { node: self }
    }
    pub fn is_list(&self) -> bool {
        self.kind().is_list()
    }
    pub fn as_send(&self) -> Option<SendNode> {
        if self.parent().is_some() { None } else { Some(SendNode(self.tree.clone())) }
    }
    pub fn covering_element(&self, _: TextRange) -> SyntaxElement<L> {
        unimplemented!("stand-in")
    }
}
#[derive(Clone)]
pub struct SendNode(Rc<Tree>);
impl fmt::Debug for SendNode {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("SendNode")
    }
}
impl SendNode {
    pub fn into_node<L: Language>(self) -> Option<SyntaxNode<L>> {
        Some(SyntaxNode { tree: self.0, at: 0, l: PhantomData })
    }
}
#[derive(Clone, PartialEq, Eq)]
pub struct SyntaxNodeText(String);
impl SyntaxNodeText {
    pub fn len(&self) -> TextSize {
        self.0.text_len()
    }
    pub fn is_empty(&self) -> bool {
        self.0.is_empty()
    }
    pub fn contains_char(&self, c: char) -> bool {
        self.0.contains(c)
    }
    pub fn char_at(&self, at: TextSize) -> Option<char> {
        self.0[usize::from(at)..].chars().next()
    }
    pub fn chars(&self) -> impl Iterator<Item = char> {
        self.0.chars()
    }
    pub fn to_string(&self) -> String {
        self.0.clone()
    }
}
impl PartialEq<str> for SyntaxNodeText {
    fn eq(&self, o: &str) -> bool {
        self.0 == o
    }
}
impl PartialEq<&str> for SyntaxNodeText {
    fn eq(&self, o: &&str) -> bool {
        self.0 == *o
    }
}
impl fmt::Display for SyntaxNodeText {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.0)
    }
}
impl fmt::Debug for SyntaxNodeText {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.0)
    }
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum WalkEvent<T> {
    Enter(T),
    Leave(T),
}
impl<T> WalkEvent<T> {
    pub fn map<F: FnOnce(T) -> U, U>(self, f: F) -> WalkEvent<U> {
        match self {
            WalkEvent::Enter(t) => WalkEvent::Enter(f(t)),
            WalkEvent::Leave(t) => WalkEvent::Leave(f(t)),
        }
    }
}
pub struct PreorderWithTokens<L: Language> {
    /// the nodes which are open and how many of their slots were seen
    stack: Vec<(SyntaxNode<L>, usize)>,
    started: bool,
    /// a token to be left
    skip: Option<SyntaxElement<L>>,
    direction: Direction,
}
impl<L: Language> PreorderWithTokens<L> {
    /// leave the node which was entered last without what is in it
    pub fn skip_subtree(&mut self) {
        if let Some((n, i)) = self.stack.last_mut() {
            *i = n.slot_count();
        }
    }
}
impl<L: Language> Iterator for PreorderWithTokens<L> {
    type Item = WalkEvent<SyntaxElement<L>>;
    fn next(&mut self) -> Option<Self::Item> {
        if let Some(e) = self.skip.take() {
            return Some(WalkEvent::Leave(e));
        }
        if !self.started {
            self.started = true;
            return Some(WalkEvent::Enter(NodeOrToken::Node(self.stack[0].0.clone())));
        }
        loop {
            let (n, i) = self.stack.last_mut()?;
            if *i == n.slot_count() {
                let (n, _) = self.stack.pop().unwrap();
                return Some(WalkEvent::Leave(NodeOrToken::Node(n)));
            }
            let at = if self.direction == Direction::Next { *i } else { n.slot_count() - 1 - *i };
            *i += 1;
            match n.element(at) {
                None => {}
                Some(NodeOrToken::Node(n)) => {
                    self.stack.push((n.clone(), 0));
                    return Some(WalkEvent::Enter(NodeOrToken::Node(n)));
                }
                Some(t) => {
                    self.skip = Some(t.clone());
                    return Some(WalkEvent::Enter(t));
                }
            }
        }
    }
}
#[derive(Clone)]
pub struct SyntaxElementChildren<L: Language> {
    node: SyntaxNode<L>,
    at: usize,
    end: usize,
}
impl<L: Language> Iterator for SyntaxElementChildren<L> {
    type Item = SyntaxElement<L>;
    fn next(&mut self) -> Option<SyntaxElement<L>> {
        while self.at < self.end {
            self.at += 1;
            if let Some(e) = self.node.element(self.at - 1) {
                return Some(e);
            }
        }
        None
    }
}
impl<L: Language> fmt::Debug for SyntaxElementChildren<L> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.debug_list().entries(self.clone()).finish()
    }
}
impl<L: Language> Default for SyntaxElementChildren<L> {
    fn default() -> Self {
        unimplemented!()
    }
}
#[derive(Clone)]
pub struct SyntaxNodeChildren<L: Language>(SyntaxElementChildren<L>);
impl<L: Language> Iterator for SyntaxNodeChildren<L> {
    type Item = SyntaxNode<L>;
    fn next(&mut self) -> Option<SyntaxNode<L>> {
        self.0.find_map(|e| e.into_node())
    }
}
#[derive(Clone, PartialEq, Eq, Hash)]
pub enum NodeOrToken<N, T> {
    Node(N),
    Token(T),
}
impl<N: fmt::Debug, T: fmt::Debug> fmt::Debug for NodeOrToken<N, T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            NodeOrToken::Node(n) => n.fmt(f),
            NodeOrToken::Token(t) => t.fmt(f),
        }
    }
}
impl<N, T> NodeOrToken<N, T> {
    pub fn into_node(self) -> Option<N> {
        match self {
            NodeOrToken::Node(n) => Some(n),
            _ => None,
        }
    }
    pub fn into_token(self) -> Option<T> {
        match self {
            NodeOrToken::Token(t) => Some(t),
            _ => None,
        }
    }
    pub fn as_node(&self) -> Option<&N> {
        match self {
            NodeOrToken::Node(n) => Some(n),
            _ => None,
        }
    }
    pub fn as_token(&self) -> Option<&T> {
        match self {
            NodeOrToken::Token(t) => Some(t),
            _ => None,
        }
    }
}
pub type SyntaxElement<L> = NodeOrToken<SyntaxNode<L>, SyntaxToken<L>>;
impl<L: Language> SyntaxElement<L> {
    pub fn kind(&self) -> L::Kind {
        match self {
            NodeOrToken::Node(n) => n.kind(),
            NodeOrToken::Token(t) => t.kind(),
        }
    }
    pub fn parent(&self) -> Option<SyntaxNode<L>> {
        match self {
            NodeOrToken::Node(n) => n.parent(),
            NodeOrToken::Token(t) => t.parent(),
        }
    }
    pub fn first_token(&self) -> Option<SyntaxToken<L>> {
        match self {
            NodeOrToken::Node(n) => n.first_token(),
            NodeOrToken::Token(t) => Some(t.clone()),
        }
    }
    pub fn last_token(&self) -> Option<SyntaxToken<L>> {
        match self {
            NodeOrToken::Node(n) => n.last_token(),
            NodeOrToken::Token(t) => Some(t.clone()),
        }
    }
    pub fn text_range_with_trivia(&self) -> TextRange {
        match self {
            NodeOrToken::Node(n) => n.text_range_with_trivia(),
            NodeOrToken::Token(t) => t.text_range(),
        }
    }
    pub fn text_trimmed_range(&self) -> TextRange {
        match self {
            NodeOrToken::Node(n) => n.text_trimmed_range(),
            NodeOrToken::Token(t) => t.text_trimmed_range(),
        }
    }
    pub fn index(&self) -> usize {
        match self {
            NodeOrToken::Node(n) => n.index(),
            NodeOrToken::Token(t) => t.slot,
        }
    }
}
impl<L: Language> From<SyntaxNode<L>> for SyntaxElement<L> {
    fn from(n: SyntaxNode<L>) -> Self {
        NodeOrToken::Node(n)
    }
}
impl<L: Language> From<SyntaxToken<L>> for SyntaxElement<L> {
    fn from(n: SyntaxToken<L>) -> Self {
        NodeOrToken::Token(n)
    }
}
#[derive(Clone, Debug)]
pub enum TokenAtOffset<T> {
    None,
    Single(T),
    Between(T, T),
}

pub struct SyntaxToken<L: Language> {
    node: SyntaxNode<L>,
    slot: usize,
}
impl<L: Language> Clone for SyntaxToken<L> {
    fn clone(&self) -> Self {
        SyntaxToken { node: self.node.clone(), slot: self.slot }
    }
}
impl<L: Language> PartialEq for SyntaxToken<L> {
    fn eq(&self, o: &Self) -> bool {
        self.node == o.node && self.slot == o.slot
    }
}
impl<L: Language> Eq for SyntaxToken<L> {}
impl<L: Language> std::hash::Hash for SyntaxToken<L> {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
        (self.node.at, self.slot).hash(h)
    }
}
impl<L: Language> fmt::Debug for SyntaxToken<L> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(self.text())
    }
}
impl<L: Language> fmt::Display for SyntaxToken<L> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(self.text())
    }
}
impl<L: Language> SyntaxToken<L> {
    pub fn new_detached<A, B>(_: L::Kind, _: &str, _: A, _: B) -> Self {
        unimplemented!("stand-in: detached tokens")
    }
    fn data(&self) -> &TokenData {
        match &self.node.data().slots[self.slot] {
            Slot::Token(t) => t,
            _ => unreachable!(),
        }
    }
    fn cut(&self, a: u32, b: u32) -> &str {
        &self.node.tree.text[a as usize..b as usize]
    }
    pub fn kind(&self) -> L::Kind {
        L::Kind::from_raw(RawSyntaxKind(self.data().kind))
    }
    pub fn key(&self) -> SyntaxElementKey {
        SyntaxElementKey(usize::MAX, self.data().start)
    }
    pub fn parent(&self) -> Option<SyntaxNode<L>> {
        Some(self.node.clone())
    }
    pub fn index(&self) -> usize {
        self.slot
    }
    pub fn ancestors(&self) -> impl Iterator<Item = SyntaxNode<L>> + use<L> {
        self.node.ancestors()
    }
    pub fn text(&self) -> &str {
        let d = self.data();
        self.cut(d.start, d.end)
    }
    pub fn text_trimmed(&self) -> &str {
        let d = self.data();
        self.cut(d.text.0, d.text.1)
    }
    pub fn token_text(&self) -> TokenText {
        let d = self.data();
        TokenText { tree: self.node.tree.clone(), range: (d.start, d.end) }
    }
    pub fn token_text_trimmed(&self) -> TokenText {
        TokenText { tree: self.node.tree.clone(), range: self.data().text }
    }
    pub fn text_range(&self) -> TextRange {
        let d = self.data();
        range((d.start, d.end))
    }
    pub fn text_range_with_trivia(&self) -> TextRange {
        self.text_range()
    }
    pub fn text_trimmed_range(&self) -> TextRange {
        range(self.data().text)
    }
    pub fn leading_trivia(&self) -> SyntaxTrivia<L> {
        SyntaxTrivia { token: self.clone(), leading: true }
    }
    pub fn trailing_trivia(&self) -> SyntaxTrivia<L> {
        SyntaxTrivia { token: self.clone(), leading: false }
    }
    pub fn has_leading_comments(&self) -> bool {
        self.data().leading.iter().any(|p| p.0.is_comment())
    }
    pub fn has_trailing_comments(&self) -> bool {
        self.data().trailing.iter().any(|p| p.0.is_comment())
    }
    pub fn has_leading_non_whitespace_trivia(&self) -> bool {
        self.has_leading_comments()
    }
    pub fn next_sibling_or_token(&self) -> Option<SyntaxElement<L>> {
        (self.slot + 1..self.node.slot_count()).find_map(|i| self.node.element(i))
    }
    pub fn prev_sibling_or_token(&self) -> Option<SyntaxElement<L>> {
        (0..self.slot).rev().find_map(|i| self.node.element(i))
    }
    pub fn next_token(&self) -> Option<SyntaxToken<L>> {
        let (mut n, mut i) = (self.node.clone(), self.slot);
        loop {
            if let Some(t) = (i + 1..n.slot_count()).find_map(|i| n.element(i)?.first_token()) {
                return Some(t);
            }
            i = n.index();
            n = n.parent()?;
        }
    }
    pub fn prev_token(&self) -> Option<SyntaxToken<L>> {
        let (mut n, mut i) = (self.node.clone(), self.slot);
        loop {
            if let Some(t) = (0..i).rev().find_map(|i| n.element(i)?.last_token()) {
                return Some(t);
            }
            i = n.index();
            n = n.parent()?;
        }
    }
}
#[derive(Clone)]
pub struct TokenText {
    tree: Rc<Tree>,
    range: (u32, u32),
}
impl TokenText {
    pub fn text(&self) -> &str {
        &self.tree.text[self.range.0 as usize..self.range.1 as usize]
    }
    pub fn len(&self) -> TextSize {
        self.text().text_len()
    }
    pub fn range(&self) -> TextRange {
        range(self.range)
    }
    pub fn slice(mut self, r: TextRange) -> TokenText {
        let s = self.range.0;
        self.range = (s + u32::from(r.start()), s + u32::from(r.end()));
        self
    }
}
impl std::ops::Deref for TokenText {
    type Target = str;
    fn deref(&self) -> &str {
        self.text()
    }
}
impl PartialEq for TokenText {
    fn eq(&self, o: &Self) -> bool {
        self.text() == o.text()
    }
}
impl Eq for TokenText {}
impl fmt::Debug for TokenText {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(self.text())
    }
}
#[derive(Clone, PartialEq, Eq)]
pub struct SyntaxTrivia<L: Language> {
    token: SyntaxToken<L>,
    leading: bool,
}
impl<L: Language> SyntaxTrivia<L> {
    fn list(&self) -> &[(TriviaPieceKind, u32, u32)] {
        let d = self.token.data();
        if self.leading { &d.leading } else { &d.trailing }
    }
    pub fn pieces(&self) -> SyntaxTriviaPieces<L> {
        SyntaxTriviaPieces { at: 0, end: self.list().len(), trivia: self.clone() }
    }
    pub fn is_empty(&self) -> bool {
        self.list().is_empty()
    }
    pub fn len(&self) -> usize {
        self.list().len()
    }
    pub fn first(&self) -> Option<SyntaxTriviaPiece<L>> {
        self.pieces().next()
    }
    pub fn last(&self) -> Option<SyntaxTriviaPiece<L>> {
        self.pieces().next_back()
    }
    pub fn text(&self) -> &str {
        let r = self.text_range();
        self.token.cut(r.start().into(), r.end().into())
    }
    pub fn text_range(&self) -> TextRange {
        let d = self.token.data();
        range(if self.leading { (d.start, d.text.0) } else { (d.text.1, d.end) })
    }
    pub fn has_skipped(&self) -> bool {
        false
    }
}
#[derive(Clone)]
pub struct SyntaxTriviaPieces<L: Language> {
    trivia: SyntaxTrivia<L>,
    at: usize,
    end: usize,
}
impl<L: Language> SyntaxTriviaPieces<L> {
    fn piece(&self, i: usize) -> SyntaxTriviaPiece<L> {
        SyntaxTriviaPiece { trivia: self.trivia.clone(), piece: self.trivia.list()[i] }
    }
}
impl<L: Language> Iterator for SyntaxTriviaPieces<L> {
    type Item = SyntaxTriviaPiece<L>;
    fn next(&mut self) -> Option<Self::Item> {
        (self.at < self.end).then(|| {
            self.at += 1;
            self.piece(self.at - 1)
        })
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        (self.end - self.at, Some(self.end - self.at))
    }
}
impl<L: Language> ExactSizeIterator for SyntaxTriviaPieces<L> {}
impl<L: Language> DoubleEndedIterator for SyntaxTriviaPieces<L> {
    fn next_back(&mut self) -> Option<Self::Item> {
        (self.at < self.end).then(|| {
            self.end -= 1;
            self.piece(self.end)
        })
    }
}
#[derive(Clone, PartialEq, Eq)]
pub struct SyntaxTriviaPiece<L: Language> {
    trivia: SyntaxTrivia<L>,
    piece: (TriviaPieceKind, u32, u32),
}
impl<L: Language> SyntaxTriviaPiece<L> {
    pub fn kind(&self) -> TriviaPieceKind {
        self.piece.0
    }
    pub fn text(&self) -> &str {
        self.trivia.token.cut(self.piece.1, self.piece.2)
    }
    pub fn text_range(&self) -> TextRange {
        range((self.piece.1, self.piece.2))
    }
    pub fn text_len(&self) -> TextSize {
        (self.piece.2 - self.piece.1).into()
    }
    pub fn is_newline(&self) -> bool {
        self.piece.0.is_newline()
    }
    pub fn is_whitespace(&self) -> bool {
        self.piece.0.is_whitespace()
    }
    pub fn is_comments(&self) -> bool {
        self.piece.0.is_comment()
    }
    pub fn is_skipped(&self) -> bool {
        false
    }
    pub fn token(&self) -> SyntaxToken<L> {
        self.trivia.token.clone()
    }
    pub fn as_comments(&self) -> Option<SyntaxTriviaPieceComments<L>> {
        self.is_comments().then(|| SyntaxTriviaPieceComments(self.clone()))
    }
}
impl<L: Language> fmt::Debug for SyntaxTriviaPiece<L> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(self.text())
    }
}
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct SyntaxTriviaPieceComments<L: Language>(SyntaxTriviaPiece<L>);
impl<L: Language> SyntaxTriviaPieceComments<L> {
    pub fn text(&self) -> &str {
        self.0.text()
    }
    pub fn text_range(&self) -> TextRange {
        self.0.text_range()
    }
    pub fn text_len(&self) -> TextSize {
        self.0.text_len()
    }
    pub fn has_newline(&self) -> bool {
        self.text().contains('\n')
    }
    pub fn as_piece(&self) -> &SyntaxTriviaPiece<L> {
        &self.0
    }
    pub fn into_piece(self) -> SyntaxTriviaPiece<L> {
        self.0
    }
}

// ---------------------------------------------------------------- typed nodes
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum SyntaxError {
    MissingRequiredChild,
    UnexpectedBogusNode,
    UnexpectedMetavariable,
}
impl fmt::Display for SyntaxError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("missing required child")
    }
}
impl std::error::Error for SyntaxError {}
pub type SyntaxResult<T> = Result<T, SyntaxError>;
pub trait AstNode: Clone {
    type Language: Language;
    const KIND_SET: SyntaxKindSet<Self::Language>;
    fn can_cast(kind: <Self::Language as Language>::Kind) -> bool;
    fn cast(syntax: SyntaxNode<Self::Language>) -> Option<Self>;
    fn cast_ref(syntax: &SyntaxNode<Self::Language>) -> Option<Self> {
        if Self::can_cast(syntax.kind()) { Self::cast(syntax.clone()) } else { None }
    }
    fn try_cast(syntax: SyntaxNode<Self::Language>) -> Result<Self, SyntaxNode<Self::Language>> {
        if Self::can_cast(syntax.kind()) { Ok(Self::cast(syntax).unwrap()) } else { Err(syntax) }
    }
    fn unwrap_cast(syntax: SyntaxNode<Self::Language>) -> Self {
        Self::cast(syntax).expect("wrong kind")
    }
    fn syntax(&self) -> &SyntaxNode<Self::Language>;
    fn into_syntax(self) -> SyntaxNode<Self::Language>;
    fn to_trimmed_text(&self) -> TokenText {
        let n = self.syntax();
        let r = n.text_trimmed_range();
        TokenText { tree: n.tree.clone(), range: (r.start().into(), r.end().into()) }
    }
    fn to_trimmed_string(&self) -> String {
        self.syntax().text_trimmed().to_string()
    }
    fn range(&self) -> TextRange {
        self.syntax().text_trimmed_range()
    }
    fn parent<T: AstNode<Language = Self::Language>>(&self) -> Option<T> {
        self.syntax().parent().and_then(T::cast)
    }
}
pub trait AstNodeSlotMap<const N: usize> {
    fn slot_map(&self) -> [u8; N];
}
#[derive(Clone, PartialEq, Eq, Hash)]
pub struct SyntaxList<L: Language> {
    node: SyntaxNode<L>,
}
impl<L: Language> SyntaxList<L> {
    pub fn len(&self) -> usize {
        self.node.slot_count()
    }
    pub fn is_empty(&self) -> bool {
        self.len() == 0
    }
    pub fn first(&self) -> Option<SyntaxSlot<L>> {
        (!self.is_empty()).then(|| self.node.element_in_slot(0))
    }
    pub fn last(&self) -> Option<SyntaxSlot<L>> {
        (!self.is_empty()).then(|| self.node.element_in_slot(self.len() as u32 - 1))
    }
    pub fn node(&self) -> &SyntaxNode<L> {
        &self.node
    }
    pub fn into_node(self) -> SyntaxNode<L> {
        self.node
    }
}
pub trait AstNodeList {
    type Language: Language;
    type Node: AstNode<Language = Self::Language>;
    fn syntax_list(&self) -> &SyntaxList<Self::Language>;
    fn into_syntax_list(self) -> SyntaxList<Self::Language>;
    fn iter(&self) -> AstNodeListIterator<Self::Language, Self::Node> {
        AstNodeListIterator { node: self.syntax_list().node.clone(), at: 0, end: self.len(), n: PhantomData }
    }
    fn len(&self) -> usize {
        self.syntax_list().len()
    }
    fn is_empty(&self) -> bool {
        self.len() == 0
    }
    fn first(&self) -> Option<Self::Node> {
        self.iter().next()
    }
    fn last(&self) -> Option<Self::Node> {
        self.iter().next_back()
    }
}
pub struct AstNodeListIterator<L: Language, N> {
    node: SyntaxNode<L>,
    at: usize,
    end: usize,
    n: PhantomData<N>,
}
impl<L: Language, N: AstNode<Language = L>> AstNodeListIterator<L, N> {
    fn get(&self, i: usize) -> N {
        N::unwrap_cast(self.node.element_in_slot(i as u32).into_node().expect("a list of nodes"))
    }
}
impl<L: Language, N: AstNode<Language = L>> Iterator for AstNodeListIterator<L, N> {
    type Item = N;
    fn next(&mut self) -> Option<N> {
        (self.at < self.end).then(|| {
            self.at += 1;
            self.get(self.at - 1)
        })
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        (self.end - self.at, Some(self.end - self.at))
    }
}
impl<L: Language, N: AstNode<Language = L>> DoubleEndedIterator for AstNodeListIterator<L, N> {
    fn next_back(&mut self) -> Option<N> {
        (self.at < self.end).then(|| {
            self.end -= 1;
            self.get(self.end)
        })
    }
}
impl<L: Language, N: AstNode<Language = L>> ExactSizeIterator for AstNodeListIterator<L, N> {}
impl<L: Language, N: AstNode<Language = L>> FusedIterator for AstNodeListIterator<L, N> {}
#[derive(Clone)]
pub struct AstSeparatedElement<L: Language, N> {
    pub node: SyntaxResult<N>,
    pub trailing_separator: SyntaxResult<Option<SyntaxToken<L>>>,
}
impl<L: Language, N: AstNode<Language = L>> AstSeparatedElement<L, N> {
    pub fn node(&self) -> SyntaxResult<&N> {
        self.node.as_ref().map_err(|e| *e)
    }
    pub fn into_node(self) -> SyntaxResult<N> {
        self.node
    }
    pub fn trailing_separator(&self) -> SyntaxResult<Option<&SyntaxToken<L>>> {
        match &self.trailing_separator {
            Ok(s) => Ok(s.as_ref()),
            Err(e) => Err(*e),
        }
    }
    pub fn into_trailing_separator(self) -> SyntaxResult<Option<SyntaxToken<L>>> {
        self.trailing_separator
    }
}
impl<L: Language, N: fmt::Debug> fmt::Debug for AstSeparatedElement<L, N> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.node.fmt(f)
    }
}
pub trait AstSeparatedList {
    type Language: Language;
    type Node: AstNode<Language = Self::Language>;
    fn syntax_list(&self) -> &SyntaxList<Self::Language>;
    fn into_syntax_list(self) -> SyntaxList<Self::Language>;
    fn elements(&self) -> AstSeparatedListElementsIterator<Self::Language, Self::Node> {
        AstSeparatedListElementsIterator { node: self.syntax_list().node.clone(), at: 0, end: self.syntax_list().len(), n: PhantomData }
    }
    fn iter(&self) -> AstSeparatedListNodesIterator<Self::Language, Self::Node> {
        AstSeparatedListNodesIterator(self.elements())
    }
    fn separators(&self) -> impl Iterator<Item = SyntaxResult<SyntaxToken<Self::Language>>> {
        self.elements().filter_map(|e| e.trailing_separator.transpose())
    }
    fn len(&self) -> usize {
        self.syntax_list().len().div_ceil(2)
    }
    fn is_empty(&self) -> bool {
        self.len() == 0
    }
    fn first(&self) -> Option<SyntaxResult<Self::Node>> {
        self.iter().next()
    }
    fn last(&self) -> Option<SyntaxResult<Self::Node>> {
        self.iter().last()
    }
    fn trailing_separator(&self) -> Option<SyntaxToken<Self::Language>> {
        self.syntax_list().last().and_then(|s| s.into_token())
    }
}
pub struct AstSeparatedListElementsIterator<L: Language, N> {
    node: SyntaxNode<L>,
    at: usize,
    end: usize,
    n: PhantomData<N>,
}
impl<L: Language, N> Clone for AstSeparatedListElementsIterator<L, N> {
    fn clone(&self) -> Self {
        AstSeparatedListElementsIterator { node: self.node.clone(), at: self.at, end: self.end, n: PhantomData }
    }
}
impl<L: Language, N: AstNode<Language = L>> Iterator for AstSeparatedListElementsIterator<L, N> {
    type Item = AstSeparatedElement<L, N>;
    fn next(&mut self) -> Option<Self::Item> {
        if self.at >= self.end {
            return None;
        }
        let node = match self.node.element_in_slot(self.at as u32) {
            SyntaxSlot::Empty { .. } => Err(SyntaxError::MissingRequiredChild),
            SyntaxSlot::Node(n) => Ok(N::unwrap_cast(n)),
            SyntaxSlot::Token(_) => panic!("Malformed list, node expected"),
        };
        let trailing_separator = if self.at + 1 < self.end {
            match self.node.element_in_slot(self.at as u32 + 1) {
                SyntaxSlot::Empty { .. } => Err(SyntaxError::MissingRequiredChild),
                SyntaxSlot::Token(t) => Ok(Some(t)),
                SyntaxSlot::Node(_) => panic!("Malformed separated list, separator expected"),
            }
        } else {
            Ok(None)
        };
        self.at += 2;
        Some(AstSeparatedElement { node, trailing_separator })
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let n = (self.end - self.at.min(self.end)).div_ceil(2);
        (n, Some(n))
    }
}
impl<L: Language, N: AstNode<Language = L>> ExactSizeIterator for AstSeparatedListElementsIterator<L, N> {}
impl<L: Language, N: AstNode<Language = L>> FusedIterator for AstSeparatedListElementsIterator<L, N> {}
pub struct AstSeparatedListNodesIterator<L: Language, N>(AstSeparatedListElementsIterator<L, N>);
impl<L: Language, N: AstNode<Language = L>> Iterator for AstSeparatedListNodesIterator<L, N> {
    type Item = SyntaxResult<N>;
    fn next(&mut self) -> Option<Self::Item> {
        self.0.next().map(|e| e.node)
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.0.size_hint()
    }
}
impl<L: Language, N: AstNode<Language = L>> ExactSizeIterator for AstSeparatedListNodesIterator<L, N> {}
impl<L: Language, N: AstNode<Language = L>> FusedIterator for AstSeparatedListNodesIterator<L, N> {}
pub mod support {
    use super::*;
    pub fn node<L: Language, N: AstNode<Language = L>>(parent: &SyntaxNode<L>, slot: usize) -> Option<N> {
        match parent.element_in_slot(slot as u32) {
            SyntaxSlot::Empty { .. } => None,
            SyntaxSlot::Node(n) => Some(N::unwrap_cast(n)),
            SyntaxSlot::Token(_) => panic!("expected a node in slot {slot}"),
        }
    }
    pub fn required_node<L: Language, N: AstNode<Language = L>>(parent: &SyntaxNode<L>, slot: usize) -> SyntaxResult<N> {
        node(parent, slot).ok_or(SyntaxError::MissingRequiredChild)
    }
    pub fn token<L: Language>(parent: &SyntaxNode<L>, slot: usize) -> Option<SyntaxToken<L>> {
        match parent.element_in_slot(slot as u32) {
            SyntaxSlot::Empty { .. } => None,
            SyntaxSlot::Token(t) => Some(t),
            SyntaxSlot::Node(_) => panic!("expected a token in slot {slot}"),
        }
    }
    pub fn required_token<L: Language>(parent: &SyntaxNode<L>, slot: usize) -> SyntaxResult<SyntaxToken<L>> {
        token(parent, slot).ok_or(SyntaxError::MissingRequiredChild)
    }
    pub fn list<L: Language, N: AstNode<Language = L>>(parent: &SyntaxNode<L>, slot: usize) -> N {
        required_node(parent, slot).expect("expected a list")
    }
    pub fn elements<L: Language>(parent: &SyntaxNode<L>) -> SyntaxElementChildren<L> {
        parent.children_with_tokens()
    }
    pub struct DebugSyntaxElement<T>(pub T);
    impl<T: fmt::Debug> fmt::Debug for DebugSyntaxElement<T> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            self.0.fmt(f)
        }
    }
    pub struct DebugSyntaxResult<T>(pub SyntaxResult<T>);
    impl<T: fmt::Debug> fmt::Debug for DebugSyntaxResult<T> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            self.0.fmt(f)
        }
    }
    pub struct DebugOptionalElement<T>(pub Option<T>);
    impl<T: fmt::Debug> fmt::Debug for DebugOptionalElement<T> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            self.0.fmt(f)
        }
    }
}
impl<L: Language> serde::Serialize for SyntaxNode<L> {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_unit()
    }
}
impl<L: Language> serde::Serialize for SyntaxToken<L> {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_unit()
    }
}
impl serde::Serialize for SyntaxError {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_unit()
    }
}
impl<L: Language> serde::Serialize for SyntaxElementChildren<L> {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_unit()
    }
}
