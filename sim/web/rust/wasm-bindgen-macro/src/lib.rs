//! Stand-in for wasm-bindgen's attribute: items stay as they are, imported functions do nothing.
use proc_macro::{Delimiter, Group, TokenStream, TokenTree};

/// Without the attributes that only wasm-bindgen understands
fn strip(input: TokenStream) -> TokenStream {
    let mut out: Vec<TokenTree> = vec![];
    let tokens: Vec<TokenTree> = input.into_iter().collect();
    let mut i = 0;
    while i < tokens.len() {
        if let (TokenTree::Punct(p), Some(TokenTree::Group(g))) = (&tokens[i], tokens.get(i + 1)) {
            if p.as_char() == '#' && g.delimiter() == Delimiter::Bracket {
                if let Some(TokenTree::Ident(n)) = g.stream().into_iter().next() {
                    if n.to_string() == "wasm_bindgen" {
                        i += 2;
                        continue;
                    }
                }
            }
        }
        out.push(match &tokens[i] {
            TokenTree::Group(g) => {
                let mut n = Group::new(g.delimiter(), strip(g.stream()));
                n.set_span(g.span());
                TokenTree::Group(n)
            }
            t => t.clone(),
        });
        i += 1;
    }
    out.into_iter().collect()
}

#[proc_macro_attribute]
pub fn wasm_bindgen(_attr: TokenStream, item: TokenStream) -> TokenStream {
    let tokens: Vec<TokenTree> = strip(item).into_iter().collect();
    let foreign = tokens.iter().position(|t| matches!(t, TokenTree::Ident(i) if i.to_string() == "extern"));
    let is_fn = tokens.iter().any(|t| matches!(t, TokenTree::Ident(i) if ["fn", "struct", "impl", "enum"].contains(&i.to_string().as_str())));
    if foreign.is_none() || is_fn {
        return tokens.into_iter().collect();
    }
    let mut out: Vec<TokenTree> = vec![];
    for t in &tokens {
        if let TokenTree::Group(g) = t {
            if g.delimiter() == Delimiter::Brace {
                let mut returns = false;
                for t in g.stream() {
                    match &t {
                        TokenTree::Punct(p) if p.as_char() == ';' => {
                            let body: TokenStream = if returns { "{ unimplemented!() }" } else { "{}" }.parse().unwrap();
                            out.extend(body);
                            returns = false;
                        }
                        TokenTree::Punct(p) if p.as_char() == '>' => {
                            returns = true;
                            out.push(t);
                        }
                        _ => out.push(t),
                    }
                }
            }
        }
    }
    out.into_iter().collect()
}
