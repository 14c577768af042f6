//! Prints a token stream one statement per line; `__RAW__!(n)` is replaced by raw text n.
use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};

pub fn print(ts: TokenStream, raws: &[String]) -> String {
    let mut s = String::new();
    rec(ts, raws, &mut s);
    s
}

fn rec(ts: TokenStream, raws: &[String], s: &mut String) {
    let v: Vec<TokenTree> = ts.into_iter().collect();
    let mut i = 0;
    let mut joint = false;
    while i < v.len() {
        if let TokenTree::Ident(id) = &v[i] {
            if id == "__RAW__" {
                if let Some(TokenTree::Group(g)) = v.get(i + 2) {
                    let n: usize = g.stream().to_string().trim().parse().unwrap();
                    let t = &raws[n];
                    if !t.trim().is_empty() {
                        if !s.ends_with('\n') {
                            s.push('\n');
                        }
                        s.push_str(t);
                        if !s.ends_with('\n') {
                            s.push('\n');
                        }
                    }
                    i += 3;
                    // optional `;`
                    if let Some(TokenTree::Punct(p)) = v.get(i) {
                        if p.as_char() == ';' {
                            i += 1;
                        }
                    }
                    joint = false;
                    continue;
                }
            }
        }
        if !joint && !s.is_empty() && !s.ends_with(|c: char| c == ' ' || c == '\n' || c == '(' || c == '[') {
            s.push(' ');
        }
        joint = false;
        match &v[i] {
            TokenTree::Group(g) => {
                let (a, b) = match g.delimiter() {
                    Delimiter::Parenthesis => ("(", ")"),
                    Delimiter::Brace => ("{", "}"),
                    Delimiter::Bracket => ("[", "]"),
                    Delimiter::None => ("", ""),
                };
                s.push_str(a);
                let brace = g.delimiter() == Delimiter::Brace;
                if brace {
                    s.push('\n');
                }
                rec(g.stream(), raws, s);
                if brace && !s.ends_with('\n') {
                    s.push('\n');
                }
                s.push_str(b);
                if brace {
                    // keep `} else`, `} ,` etc. on separate lines, harmless
                    s.push('\n');
                }
            }
            TokenTree::Punct(p) => {
                s.push(p.as_char());
                joint = p.spacing() == Spacing::Joint;
                if p.as_char() == ';' {
                    s.push('\n');
                }
            }
            TokenTree::Ident(id) => s.push_str(&id.to_string()),
            TokenTree::Literal(l) => s.push_str(&l.to_string()),
        }
        i += 1;
    }
}
