//! Stand-in for `tracing-attributes`: an instrumented function is the function.
use proc_macro::TokenStream;

#[proc_macro_attribute]
pub fn instrument(_: TokenStream, item: TokenStream) -> TokenStream {
    item
}
