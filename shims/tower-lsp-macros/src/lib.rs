//! `async fn` in traits needs no rewriting any more.
use proc_macro::TokenStream;

#[proc_macro_attribute]
pub fn async_trait(_: TokenStream, item: TokenStream) -> TokenStream {
    item
}
