//! Stand-in for `air_r_factory`: a new tree is the tree of its text.
use air_r_syntax::*;
use biome_rowan::AstNode;

pub fn r_expression_list<I>(items: I) -> RExpressionList
where
    I: IntoIterator<Item = AnyRExpression>,
    I::IntoIter: ExactSizeIterator,
{
    let text: String = items.into_iter().map(|e| e.syntax().text()).collect();
    RExpressionList::cast(RSyntaxNode::of(&text).first_child().unwrap()).unwrap()
}
pub struct RRootBuilder(RRoot);
impl RRootBuilder {
    pub fn build(self) -> RRoot {
        self.0
    }
}
pub fn r_root(list: RExpressionList, _eof: RSyntaxToken) -> RRootBuilder {
    RRootBuilder(RRoot::cast(RSyntaxNode::of(&list.syntax().text())).unwrap())
}
