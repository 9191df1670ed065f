//! Stand-in for `strum`: the names of variants.
use proc_macro::{Delimiter, TokenStream, TokenTree};

#[proc_macro_derive(IntoStaticStr, attributes(strum))]
pub fn into_static_str(item: TokenStream) -> TokenStream {
    let mut name = String::new();
    let mut arms = String::new();
    let mut it = item.into_iter();
    while let Some(t) = it.next() {
        match t {
            TokenTree::Ident(i) if i.to_string() == "enum" => {
                if let Some(TokenTree::Ident(n)) = it.next() {
                    name = n.to_string();
                }
            }
            TokenTree::Group(g) if g.delimiter() == Delimiter::Brace && !name.is_empty() => {
                let mut start = true;
                for t in g.stream() {
                    match t {
                        TokenTree::Ident(i) if start => {
                            arms += &format!("{name}::{i} {{ .. }} => \"{i}\",");
                            start = false;
                        }
                        TokenTree::Punct(p) if p.as_char() == ',' => start = true,
                        _ => {}
                    }
                }
            }
            _ => {}
        }
    }
    format!(
        "impl From<{name}> for &'static str {{ fn from(x: {name}) -> &'static str {{ match x {{ {arms} }} }} }}
         impl From<&{name}> for &'static str {{ fn from(x: &{name}) -> &'static str {{ match x {{ {arms} }} }} }}"
    )
    .parse()
    .unwrap()
}
