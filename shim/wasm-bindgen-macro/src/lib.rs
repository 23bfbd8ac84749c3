//! Native stand-in for the `#[wasm_bindgen]` attribute: leaves the annotated item as it is and
//! strips nested `#[wasm_bindgen(..)]` helper attributes.
use proc_macro::{Delimiter, Group, TokenStream, TokenTree};

fn is_helper(group: &Group) -> bool {
    if group.delimiter() != Delimiter::Bracket {
        return false;
    }
    let first: Vec<String> = group.stream().into_iter().take(4).map(|t| t.to_string()).collect();
    first.first().map_or(false, |t| t == "wasm_bindgen" && first.get(1).map_or(true, |n| n != ":"))
        || first.join("") == "wasm_bindgen::"
}

fn strip(input: TokenStream) -> TokenStream {
    let mut out: Vec<TokenTree> = Vec::new();
    let mut iter = input.into_iter().peekable();
    while let Some(token) = iter.next() {
        if let TokenTree::Punct(p) = &token {
            if p.as_char() == '#' {
                if let Some(TokenTree::Group(g)) = iter.peek() {
                    if is_helper(g) {
                        iter.next();
                        continue;
                    }
                }
            }
        }
        match token {
            TokenTree::Group(g) => {
                let mut new = Group::new(g.delimiter(), strip(g.stream()));
                new.set_span(g.span());
                out.push(TokenTree::Group(new));
            }
            other => out.push(other),
        }
    }
    out.into_iter().collect()
}

#[proc_macro_attribute]
pub fn wasm_bindgen(_attr: TokenStream, input: TokenStream) -> TokenStream {
    strip(input)
}
