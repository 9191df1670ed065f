//! Stand-in for `struct-field-names-as-array`: the names of the fields, in order.
use proc_macro::{Delimiter, TokenStream, TokenTree};

#[proc_macro_derive(FieldNamesAsArray, attributes(field_names_as_array))]
pub fn derive(item: TokenStream) -> TokenStream {
    let mut name = String::new();
    let mut fields: Vec<String> = vec![];
    let mut it = item.into_iter().peekable();
    while let Some(t) = it.next() {
        match t {
            TokenTree::Ident(i) if i.to_string() == "struct" => {
                if let Some(TokenTree::Ident(n)) = it.next() {
                    name = n.to_string();
                }
            }
            TokenTree::Group(g) if g.delimiter() == Delimiter::Brace && !name.is_empty() => {
                let mut start = true;
                let mut depth = 0i32;
                let mut inner = g.stream().into_iter().peekable();
                while let Some(t) = inner.next() {
                    match t {
                        TokenTree::Punct(p) => match p.as_char() {
                            '#' => {
                                inner.next();
                            }
                            '<' => depth += 1,
                            '>' => depth -= 1,
                            ',' if depth == 0 => start = true,
                            _ => {}
                        },
                        TokenTree::Ident(i) if start => {
                            let s = i.to_string();
                            if s == "pub" {
                                if let Some(TokenTree::Group(_)) = inner.peek() {
                                    inner.next();
                                }
                            } else {
                                fields.push(s);
                                start = false;
                            }
                        }
                        _ => {}
                    }
                }
            }
            _ => {}
        }
    }
    let list: Vec<String> = fields.iter().map(|f| format!("\"{f}\"")).collect();
    format!(
        "impl {name} {{ pub const FIELD_NAMES_AS_ARRAY: [&'static str; {}] = [{}]; }}",
        fields.len(),
        list.join(", ")
    )
    
    .parse()
    .unwrap()
}
