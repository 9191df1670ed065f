//! Stand-in for `tree-sitter`: `parse` gives the tree which was announced for the text.
use std::cell::RefCell;
#[derive(Clone, Debug)]
pub struct Data {
    pub kind: &'static str,
    pub field: Option<&'static str>,
    pub start: usize,
    pub end: usize,
    pub children: Vec<Data>,
}
thread_local! {
    static NEXT: RefCell<Option<(Data, bool)>> = const { RefCell::new(None) };
}
/// What the next `parse` gives: its root, and whether there are errors in the text.
pub fn announce(root: Data, error: bool) {
    NEXT.with(|n| *n.borrow_mut() = Some((root, error)));
}
#[derive(Clone, Copy, Debug)]
pub struct Language;
#[derive(Clone, Copy, Debug)]
pub struct LanguageError;
#[derive(Default)]
pub struct Parser;
impl Parser {
    pub fn new() -> Parser {
        Parser
    }
    pub fn set_language(&mut self, _: &Language) -> Result<(), LanguageError> {
        Ok(())
    }
    pub fn parse(&mut self, _: impl AsRef<[u8]>, _: Option<&Tree>) -> Option<Tree> {
        let (root, error) = NEXT.with(|n| n.borrow_mut().take()).expect("no tree was announced");
        let mut t = Tree { nodes: vec![], error };
        t.add(root, None);
        Some(t)
    }
}
struct Entry {
    kind: &'static str,
    field: Option<&'static str>,
    start: usize,
    end: usize,
    parent: Option<usize>,
    first: Option<usize>,
    next: Option<usize>,
}
pub struct Tree {
    nodes: Vec<Entry>,
    error: bool,
}
impl Tree {
    fn add(&mut self, d: Data, parent: Option<usize>) -> usize {
        let at = self.nodes.len();
        self.nodes.push(Entry { kind: d.kind, field: d.field, start: d.start, end: d.end, parent, first: None, next: None });
        let mut last: Option<usize> = None;
        for c in d.children {
            let k = self.add(c, Some(at));
            match last {
                None => self.nodes[at].first = Some(k),
                Some(l) => self.nodes[l].next = Some(k),
            }
            last = Some(k);
        }
        at
    }
    pub fn root_node(&self) -> Node<'_> {
        Node { tree: self, at: 0 }
    }
}
#[derive(Clone, Copy)]
pub struct Node<'t> {
    tree: &'t Tree,
    at: usize,
}
impl PartialEq for Node<'_> {
    fn eq(&self, o: &Self) -> bool {
        std::ptr::eq(self.tree, o.tree) && self.at == o.at
    }
}
impl Eq for Node<'_> {}
impl std::fmt::Debug for Node<'_> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(self.kind())
    }
}
#[derive(Clone, Copy, Debug, Default)]
pub struct Point {
    pub row: usize,
    pub column: usize,
}
impl<'t> Node<'t> {
    fn go(self, at: Option<usize>) -> Option<Node<'t>> {
        Some(Node { tree: self.tree, at: at? })
    }
    fn entry(&self) -> &'t Entry {
        &self.tree.nodes[self.at]
    }
    pub fn id(&self) -> usize {
        self.at
    }
    pub fn has_error(&self) -> bool {
        self.tree.error
    }
    pub fn is_error(&self) -> bool {
        false
    }
    pub fn is_missing(&self) -> bool {
        false
    }
    pub fn is_extra(&self) -> bool {
        self.kind() == "comment"
    }
    pub fn kind(&self) -> &'static str {
        self.entry().kind
    }
    pub fn start_byte(&self) -> usize {
        self.entry().start
    }
    pub fn end_byte(&self) -> usize {
        self.entry().end
    }
    pub fn byte_range(&self) -> std::ops::Range<usize> {
        self.start_byte()..self.end_byte()
    }
    pub fn parent(&self) -> Option<Node<'t>> {
        self.go(self.entry().parent)
    }
    pub fn next_sibling(&self) -> Option<Node<'t>> {
        self.go(self.entry().next)
    }
    pub fn child(&self, i: usize) -> Option<Node<'t>> {
        std::iter::successors(self.go(self.entry().first), |n| n.next_sibling()).nth(i)
    }
    pub fn child_count(&self) -> usize {
        std::iter::successors(self.go(self.entry().first), |n| n.next_sibling()).count()
    }
    pub fn child_by_field_name(&self, name: impl AsRef<[u8]>) -> Option<Node<'t>> {
        std::iter::successors(self.go(self.entry().first), |n| n.next_sibling()).find(|n| n.entry().field.is_some_and(|f| f.as_bytes() == name.as_ref()))
    }
    pub fn walk(&self) -> TreeCursor<'t> {
        TreeCursor { root: self.at, node: *self }
    }
}
#[derive(Clone)]
pub struct TreeCursor<'t> {
    root: usize,
    node: Node<'t>,
}
impl<'t> TreeCursor<'t> {
    pub fn node(&self) -> Node<'t> {
        self.node
    }
    pub fn field_name(&self) -> Option<&'static str> {
        if self.node.at == self.root { None } else { self.node.entry().field }
    }
    fn to(&mut self, at: Option<usize>) -> bool {
        match self.node.go(at) {
            Some(n) => {
                self.node = n;
                true
            }
            None => false,
        }
    }
    pub fn goto_first_child(&mut self) -> bool {
        self.to(self.node.entry().first)
    }
    pub fn goto_next_sibling(&mut self) -> bool {
        self.node.at != self.root && self.to(self.node.entry().next)
    }
    pub fn goto_parent(&mut self) -> bool {
        self.node.at != self.root && self.to(self.node.entry().parent)
    }
}
