//! `#[wasm_bindgen]` without a browser: the item as it is, without the attributes meant for wasm-bindgen.
use proc_macro::{Delimiter, Group, TokenStream, TokenTree};

fn strip(ts: TokenStream) -> TokenStream {
    let mut out: Vec<TokenTree> = vec![];
    for t in ts {
        if let TokenTree::Group(g) = &t {
            if g.delimiter() == Delimiter::Bracket {
                let ours = matches!(g.stream().into_iter().next(), Some(TokenTree::Ident(i)) if i.to_string() == "wasm_bindgen");
                if ours && matches!(out.last(), Some(TokenTree::Punct(p)) if p.as_char() == '#') {
                    out.pop();
                    continue;
                }
            }
            let mut n = Group::new(g.delimiter(), strip(g.stream()));
            n.set_span(g.span());
            out.push(TokenTree::Group(n));
            continue;
        }
        out.push(t);
    }
    out.into_iter().collect()
}

#[proc_macro_attribute]
pub fn wasm_bindgen(_args: TokenStream, item: TokenStream) -> TokenStream {
    strip(item)
}
