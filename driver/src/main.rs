//! Expands derive inputs with the real `derive_builder_core::builder_for_struct` and prints what the
//! expansion declares, as JSON (one line per input).
use proc_macro2::{Delimiter, TokenStream, TokenTree};
use quote::ToTokens;
use serde_json::{json, Value};
use std::io::{BufRead, Write};

fn flat(ts: TokenStream, out: &mut String) {
    for t in ts {
        match t {
            TokenTree::Group(g) => {
                let (a, b) = match g.delimiter() {
                    Delimiter::Parenthesis => ("( ", ") "),
                    Delimiter::Brace => ("{ ", "} "),
                    Delimiter::Bracket => ("[ ", "] "),
                    Delimiter::None => ("", ""),
                };
                out.push_str(a);
                flat(g.stream(), out);
                out.push_str(b);
            }
            TokenTree::Punct(p) => {
                out.push(p.as_char());
                out.push(' ');
            }
            t => {
                out.push_str(&t.to_string());
                out.push(' ');
            }
        }
    }
}
fn tok<T: ToTokens>(t: T) -> String {
    let mut s = String::new();
    flat(t.into_token_stream(), &mut s);
    s.trim_end().to_string()
}
fn attrs(a: &[syn::Attribute]) -> Value {
    a.iter().map(tok).collect::<Vec<_>>().into()
}
fn generics(g: &syn::Generics) -> Value {
    json!({"params": g.params.iter().map(tok).collect::<Vec<_>>(),
           "where": g.where_clause.as_ref().map(|w| w.predicates.iter().map(tok).collect::<Vec<_>>())})
}
fn fields(f: &syn::Fields) -> Value {
    f.iter()
        .map(|f| json!({"attrs": attrs(&f.attrs), "vis": tok(&f.vis), "name": f.ident.as_ref().map(|i| i.to_string()), "ty": tok(&f.ty)}))
        .collect::<Vec<_>>()
        .into()
}
fn item(i: &syn::Item) -> Value {
    match i {
        syn::Item::Struct(s) => json!({"kind": "struct", "attrs": attrs(&s.attrs), "vis": tok(&s.vis), "name": s.ident.to_string(),
            "generics": generics(&s.generics), "fields": fields(&s.fields)}),
        syn::Item::Enum(e) => json!({"kind": "enum", "attrs": attrs(&e.attrs), "vis": tok(&e.vis), "name": e.ident.to_string(),
            "generics": generics(&e.generics),
            "variants": e.variants.iter().map(|v| json!({"attrs": attrs(&v.attrs), "name": v.ident.to_string(), "fields": fields(&v.fields)})).collect::<Vec<_>>()}),
        syn::Item::Impl(m) => json!({"kind": "impl", "attrs": attrs(&m.attrs), "generics": generics(&m.generics),
            "trait": m.trait_.as_ref().map(|(_, p, _)| tok(p)), "self": tok(&m.self_ty),
            "fns": m.items.iter().map(|i| match i {
                syn::ImplItem::Fn(f) => json!({"attrs": attrs(&f.attrs), "vis": tok(&f.vis), "name": f.sig.ident.to_string(),
                    "generics": generics(&f.sig.generics), "inputs": f.sig.inputs.iter().map(tok).collect::<Vec<_>>(),
                    "output": match &f.sig.output { syn::ReturnType::Default => String::new(), syn::ReturnType::Type(_, t) => tok(t) },
                    "body": tok(&f.block), "fields": inits(&f.block)}),
                i => json!({"other": tok(i)}),
            }).collect::<Vec<_>>()}),
        syn::Item::Macro(m) => json!({"kind": "macro", "path": tok(&m.mac.path), "tokens": m.mac.tokens.to_string(),
            "text": syn::parse2::<syn::LitStr>(m.mac.tokens.clone()).ok().map(|l| l.value())}),
        i => json!({"kind": "other", "tokens": tok(i)}),
    }
}
/// the struct expression a block ends with: its path and its field initializers, in order
fn inits(b: &syn::Block) -> Value {
    fn strip(e: &syn::Expr) -> &syn::Expr {
        match e {
            syn::Expr::Group(g) => strip(&g.expr),
            syn::Expr::Paren(g) => strip(&g.expr),
            e => e,
        }
    }
    let e = match b.stmts.last() {
        Some(syn::Stmt::Expr(e, None)) => strip(e),
        _ => return Value::Null,
    };
    let s = match e {
        syn::Expr::Call(c) if c.args.len() == 1 => strip(&c.args[0]),
        e => e,
    };
    match s {
        syn::Expr::Struct(s) => json!({"path": tok(&s.path), "rest": s.rest.is_some(),
            "stmts": b.stmts[..b.stmts.len() - 1].iter().map(tok).collect::<Vec<_>>(),
            "inits": s.fields.iter().map(|f| json!({"name": tok(&f.member), "attrs": attrs(&f.attrs), "expr": tok(&f.expr)})).collect::<Vec<_>>()}),
        _ => Value::Null,
    }
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let stdin = std::io::stdin();
    let mut out = std::io::BufWriter::new(std::io::stdout());
    for line in stdin.lock().lines() {
        let v: Value = serde_json::from_str(&line.unwrap()).unwrap();
        let src = v["src"].as_str().unwrap().to_string();
        let ast: syn::DeriveInput = match syn::parse_str(&src) {
            Ok(a) => a,
            Err(e) => {
                writeln!(out, "{}", json!({"id": v["id"], "invalid": e.to_string()})).unwrap();
                continue;
            }
        };
        let r = std::panic::catch_unwind(|| {
            let ts = derive_builder_core::builder_for_struct(ast);
            let text = if v["text"] == true { ts.to_string() } else { tok(ts.clone()) };
            match syn::parse2::<syn::File>(ts) {
                Ok(f) => json!({"items": f.items.iter().map(item).collect::<Vec<_>>(), "tokens": text}),
                Err(e) => json!({"unparsable": e.to_string(), "tokens": text}),
            }
        });
        let mut o = match r {
            Ok(o) => o,
            Err(p) => json!({"panic": p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|s| s.to_string()))}),
        };
        o["id"] = v["id"].clone();
        writeln!(out, "{}", o).unwrap();
    }
}
