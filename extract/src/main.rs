//! Extracts the functions of source files of /repo for Verus, mechanically.
//!
//! `extract <file>...` prints, per file, its items with the following changes and no others:
//!  - dropped: documentation, attributes and derives (but Clone and Copy of an enum), the supertrait Debug, visibility, `use`, `mod`, `#[cfg(test)]`, Display and
//!    conversion impls are selected away by the caller;
//!  - the scalar parameter `V` (or `I::Value`, `Self::Value`) becomes the opaque scalar `R`, and the
//!    parameter lists and arguments that only carried it go; other type parameters likewise with
//!    `--param name=type`;
//!  - impls of the traits named with `--inherent` become inherent impls;
//!  - a default method of a trait named with `--free` becomes a function (Verus has no recursive ones);
//!  - `mut self` becomes `self` with a mutable copy;
//!  - `if c { a; continue; } b` in a loop becomes `if c { a; } else { b }`;
//!  - a reference pattern of a `for` becomes a binding that is dereferenced in the body;
//!  - `.copied()` and `.collect::<Result<..>>()` become `.qv_copied()` and `qv_try_collect(..)`, functions of
//!    the prelude with an assumed contract;
//!  - `debug_assert!(c)` becomes `qv_assert(c)`, a function that requires `c`, and chrono's `try_opt!(e)` the match it stands for;
//!  - with `--const`, constants become `exec const` with a marker, and functions lose their `const`;
//!  - with `--rename a=b`, a name that two files share;
//!  - with `--eta T`, the constructor `T` as an argument becomes the closure that applies it;
//!  - a tuple struct pattern of a parameter becomes a name that is taken apart in the body;
//!  - `format!(..)` and string literals under `.into()` become `qv_msg()` (texts are not modelled);
//!  - markers: `qv_fn!`, `qv_loop!`, `qv_tail!` ... where the contracts are put.
//!
//! The output for each function is followed by its shape: loops, closures and callees.

use proc_macro2::{Delimiter, Group, Span, TokenStream, TokenTree};
use quote::{quote, ToTokens};
use std::collections::BTreeMap;
use syn::visit_mut::{self, VisitMut};
use syn::*;

#[derive(Default)]
struct Shape {
    loops: Vec<String>,
    closures: usize,
    calls: BTreeMap<String, usize>,
}

/// whether methods of the trait's impl are named one by one
fn in_part(only: &[String], label: &str) -> bool {
    label.contains(" for ") && only.iter().any(|o| o.starts_with(&format!("{label}::")))
}

fn id(s: &str) -> Ident {
    Ident::new(s, Span::call_site())
}

/// Replaces the scalar and drops the type arguments that carry nothing else.
struct Scalar {
    keep: Vec<String>,
    /// type parameter -> the opaque type it is read as
    params: Vec<(String, String)>,
}

impl Scalar {
    fn read_as(&self, t: &Type) -> Option<&str> {
        let s = t.to_token_stream().to_string().replace(' ', "");
        if s == "I::Value" || s == "Self::Value" || s == "R" || s == "<IasInterpolator>::Value" {
            return Some("R");
        }
        self.params.iter().find(|(a, b)| *a == s || *b == s).map(|(_, b)| b.as_str())
    }
}

impl VisitMut for Scalar {
    fn visit_type_mut(&mut self, t: &mut Type) {
        if let Some(r) = self.read_as(t) {
            let r = id(r);
            *t = parse_quote!(#r);
            return;
        }
        visit_mut::visit_type_mut(self, t);
    }
    fn visit_path_mut(&mut self, p: &mut Path) {
        // V::zero() and I::Value::zero()
        let first = p.segments.first().map(|s| s.ident.to_string()).unwrap_or_default();
        let read_as = self.params.iter().find(|(a, _)| *a == first).map(|(_, b)| id(b));
        if p.segments.len() > 2 && first == "I" && p.segments[1].ident == "Value" {
            let rest: Vec<PathSegment> = p.segments.iter().skip(2).cloned().collect();
            let mut q: Path = parse_quote!(R);
            q.segments.extend(rest);
            *p = q;
        } else if let (Some(r), None) = (read_as, p.leading_colon) {
            p.segments[0].ident = r;
        } else if p.segments.len() > 1 && (p.leading_colon.is_some() || ["std", "core", "crate", "super", "self"].contains(&first.as_str())) {
            // a qualified name: the last two segments, or one, are what the contracts know
            let n = p.segments.len();
            let type_like = |s: &PathSegment| s.ident.to_string().chars().next().is_some_and(char::is_uppercase);
            let from = if n >= 2 && type_like(&p.segments[n - 2]) { n - 2 } else { n - 1 };
            let rest: Vec<PathSegment> = p.segments.iter().skip(from).cloned().collect();
            if type_like(&rest[0]) {
                *p = Path { leading_colon: None, segments: rest.into_iter().collect() };
            }
        }
        visit_mut::visit_path_mut(self, p);
        for s in p.segments.iter_mut() {
            if self.keep.contains(&s.ident.to_string()) {
                continue;
            }
            if let PathArguments::AngleBracketed(a) = &s.arguments {
                let args: punctuated::Punctuated<GenericArgument, Token![,]> = a
                    .args
                    .iter()
                    .filter(|g| match g {
                        GenericArgument::Type(t) => self.read_as(t).is_none(),
                        GenericArgument::AssocType(t) => t.ident != "Value",
                        GenericArgument::Constraint(t) => t.ident != "Value",
                        _ => true,
                    })
                    .cloned()
                    .collect();
                let empty = args.is_empty();
                let mut b = a.clone();
                b.args = args;
                s.arguments = if empty { PathArguments::None } else { PathArguments::AngleBracketed(b) };
            }
        }
    }
    fn visit_generics_mut(&mut self, g: &mut Generics) {
        g.params = g
            .params
            .iter()
            .filter(|p| !matches!(p, GenericParam::Type(t) if self.params.iter().any(|(a, _)| t.ident == a.as_str())))
            .cloned()
            .collect();
        if let Some(w) = &mut g.where_clause {
            w.predicates = w
                .predicates
                .iter()
                .filter(|p| !matches!(p, WherePredicate::Type(t) if self.read_as(&t.bounded_ty).is_some()))
                .cloned()
                .collect();
            if w.predicates.is_empty() {
                g.where_clause = None;
            }
        }
        visit_mut::visit_generics_mut(self, g);
        if g.params.is_empty() {
            g.lt_token = None;
            g.gt_token = None;
        }
    }
}

/// Gives names that two files share another one.
fn renamed(t: TokenStream, names: &[(String, String)]) -> TokenStream {
    t.into_iter()
        .map(|x| match x {
            TokenTree::Group(g) => TokenTree::Group(Group::new(g.delimiter(), renamed(g.stream(), names))),
            TokenTree::Ident(i) => TokenTree::Ident(names.iter().find(|(a, _)| i == a.as_str()).map_or(i.clone(), |(_, b)| id(b))),
            x => x,
        })
        .collect()
}

/// Drops attributes.
fn strip(t: TokenStream) -> TokenStream {
    let mut out: Vec<TokenTree> = Vec::new();
    let mut it = t.into_iter().peekable();
    while let Some(x) = it.next() {
        if let TokenTree::Punct(p) = &x {
            if p.as_char() == '#' {
                if let Some(TokenTree::Group(g)) = it.peek() {
                    if g.delimiter() == Delimiter::Bracket {
                        it.next();
                        continue;
                    }
                }
            }
        }
        out.push(match x {
            TokenTree::Group(g) => TokenTree::Group(Group::new(g.delimiter(), strip(g.stream()))),
            x => x,
        });
    }
    out.into_iter().collect()
}

/// Replaces message texts.
struct Clean;

impl VisitMut for Clean {
    fn visit_visibility_mut(&mut self, v: &mut Visibility) {
        *v = Visibility::Inherited;
    }
    fn visit_stmt_mut(&mut self, s: &mut Stmt) {
        if let Stmt::Macro(m) = s {
            if m.mac.path.is_ident("debug_assert") {
                let arg: Expr = parse2(m.mac.tokens.clone()).expect("the argument of debug_assert");
                *s = parse_quote!(qv_assert(#arg););
            }
        }
        visit_mut::visit_stmt_mut(self, s);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Macro(m) = e {
            if m.mac.path.is_ident("try_opt") {
                let mut arg: Expr = parse2(m.mac.tokens.clone()).expect("the argument of try_opt");
                self.visit_expr_mut(&mut arg);
                *e = parse_quote!(match #arg { Some(qv_val) => qv_val, None => return None });
                return;
            }
        }
        let message = match e {
            Expr::Macro(m) => m.mac.path.is_ident("format"),
            Expr::MethodCall(c) => {
                (c.method == "into" || c.method == "to_string" || c.method == "to_owned")
                    && c.args.is_empty()
                    && (matches!(&*c.receiver, Expr::Lit(ExprLit { lit: Lit::Str(_), .. }))
                        || c.receiver.to_token_stream().to_string().replace(' ', "") == "qv_msg()")
            }
            _ => false,
        };
        if message {
            *e = parse_quote!(qv_msg());
            return;
        }
        // two calls vstd has no contract for go through a function of the prelude that makes them
        if let Expr::MethodCall(c) = e {
            let result = |t: &GenericArgument| t.to_token_stream().to_string().trim_start_matches("QLab").starts_with("Result <");
            if c.method == "copied" && c.args.is_empty() {
                c.method = id("qv_copied");
            } else if c.method == "collect" && c.turbofish.as_ref().is_some_and(|t| t.args.len() == 1 && result(&t.args[0])) {
                let r = &c.receiver;
                *e = parse_quote!(qv_try_collect(#r));
            }
        }
    }
}

/// `self.method(..)` becomes `method(self, ..)`.
struct FreeCalls(String);
impl VisitMut for FreeCalls {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::MethodCall(c) = e {
            if c.method == self.0.as_str() && c.receiver.to_token_stream().to_string() == "self" {
                let (m, r, args) = (&c.method, &c.receiver, &c.args);
                *e = parse_quote!(#m(#r, #args));
            }
        }
    }
}

struct SelfRename;
impl VisitMut for SelfRename {
    fn visit_expr_path_mut(&mut self, p: &mut ExprPath) {
        if p.path.is_ident("self") {
            p.path = parse_quote!(qv_self);
        }
    }
    fn visit_item_mut(&mut self, _: &mut Item) {}
}

/// `.map(T)` becomes `.map(|x| T(x))`.
struct Eta(Vec<String>);
impl VisitMut for Eta {
    fn visit_expr_method_call_mut(&mut self, m: &mut ExprMethodCall) {
        visit_mut::visit_expr_method_call_mut(self, m);
        for a in m.args.iter_mut() {
            if let Expr::Path(p) = a {
                if self.0.iter().any(|n| p.path.is_ident(n)) {
                    *a = parse_quote!(|qv_x| #p(qv_x));
                }
            }
        }
    }
}

/// Puts the markers of one function and records its shape.
struct Mark {
    name: String,
    shape: Shape,
}

impl Mark {
    fn head(&mut self, kind: &str, body: &mut Block) -> LitInt {
        let k = self.shape.loops.len();
        self.shape.loops.push(kind.into());
        let lit = LitInt::new(&k.to_string(), Span::call_site());
        let name = &self.name;
        without_continue(&mut body.stmts);
        if let Some(Stmt::Expr(e, semi @ None)) = body.stmts.last_mut() {
            if !matches!(e, Expr::If(_) | Expr::Match(_) | Expr::Block(_) | Expr::While(_) | Expr::ForLoop(_) | Expr::Loop(_)) {
                *semi = Some(Default::default());
            }
        }
        body.stmts.insert(0, parse_quote!(qv_loop!(#name, #lit);));
        body.stmts.push(parse_quote!(qv_loop_end!(#name, #lit);));
        lit
    }
}

impl VisitMut for Mark {
    fn visit_item_mut(&mut self, _: &mut Item) {}
    fn visit_block_mut(&mut self, b: &mut Block) {
        // a loop is preceded and followed by a marker
        let mut out = Vec::new();
        let stmts = std::mem::take(&mut b.stmts);
        let n = stmts.len();
        for (at, mut s) in stmts.into_iter().enumerate() {
            let value = at + 1 == n && matches!(&s, Stmt::Expr(Expr::Loop(_), None));
            let is_loop = matches!(&s, Stmt::Expr(Expr::While(_) | Expr::ForLoop(_) | Expr::Loop(_), _));
            let k = LitInt::new(&self.shape.loops.len().to_string(), Span::call_site());
            let name = self.name.clone();
            if is_loop {
                out.push(parse_quote!(qv_before!(#name, #k);));
            }
            visit_mut::visit_stmt_mut(self, &mut s);
            if is_loop {
                if let Stmt::Expr(_, semi) = &mut s {
                    *semi = None;
                }
            }
            out.push(s);
            if is_loop && !value {
                out.push(parse_quote!(qv_after!(#name, #k);));
            }
        }
        b.stmts = out;
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::ForLoop(f) => {
                let lit = self.head("for", &mut f.body);
                let mut binds = Vec::new();
                deref_pattern(&mut f.pat, &mut binds);
                let at = 1;
                for (i, s) in binds.into_iter().enumerate() {
                    f.body.stmts.insert(at + i, s);
                }
                visit_mut::visit_expr_mut(self, e);
                if let Expr::ForLoop(f) = e {
                    let inner = &f.expr;
                    let name = &self.name;
                    *f.expr = parse_quote!(qv_it(#name, #lit, #inner));
                }
            }
            Expr::While(w) => {
                self.head("while", &mut w.body);
                visit_mut::visit_expr_mut(self, e);
            }
            Expr::Loop(l) => {
                self.head("loop", &mut l.body);
                visit_mut::visit_expr_mut(self, e);
            }
            Expr::Closure(c) => {
                let k = LitInt::new(&self.shape.closures.to_string(), Span::call_site());
                self.shape.closures += 1;
                visit_mut::visit_expr_mut(self, &mut c.body);
                let name = &self.name;
                let pats: Vec<TokenStream> = c
                    .inputs
                    .iter()
                    .map(|p| match p {
                        Pat::Type(t) => t.pat.to_token_stream(),
                        p => p.to_token_stream(),
                    })
                    .collect();
                let body = &c.body;
                *e = parse_quote!(qv_clo(#name, #k, [#(#pats),*], #body));
            }
            Expr::Call(c) => {
                if let Expr::Path(p) = &*c.func {
                    if let Some(s) = p.path.segments.last() {
                        *self.shape.calls.entry(s.ident.to_string()).or_default() += 1;
                    }
                }
                visit_mut::visit_expr_mut(self, e);
            }
            Expr::MethodCall(m) => {
                *self.shape.calls.entry(m.method.to_string()).or_default() += 1;
                visit_mut::visit_expr_mut(self, e);
            }
            Expr::Binary(b) => {
                *self.shape.calls.entry(format!("op{}", b.op.to_token_stream())).or_default() += 1;
                visit_mut::visit_expr_mut(self, e);
            }
            _ => visit_mut::visit_expr_mut(self, e),
        }
    }
}

/// `if c { a; continue; } b` at the top of a loop's body becomes `if c { a; } else { b }`.
fn without_continue(stmts: &mut Vec<Stmt>) {
    for i in 0..stmts.len() {
        let Stmt::Expr(Expr::If(f), _) = &mut stmts[i] else { continue };
        if f.else_branch.is_some() || !matches!(f.then_branch.stmts.last(), Some(Stmt::Expr(Expr::Continue(c), _)) if c.label.is_none()) {
            continue;
        }
        f.then_branch.stmts.pop();
        let mut rest: Vec<Stmt> = stmts.drain(i + 1..).collect();
        without_continue(&mut rest);
        if let Some(Stmt::Expr(e, semi @ None)) = rest.last_mut() {
            if !matches!(e, Expr::If(_) | Expr::Match(_) | Expr::Block(_) | Expr::While(_) | Expr::ForLoop(_) | Expr::Loop(_)) {
                *semi = Some(Default::default());
            }
        }
        if let Stmt::Expr(Expr::If(f), _) = &mut stmts[i] {
            f.else_branch = Some((Default::default(), parse_quote!({ #(#rest)* })));
        }
        return;
    }
}

/// `&p` in a pattern becomes a fresh name, and `let p = *name;` opens the body.
fn deref_pattern(p: &mut Pat, binds: &mut Vec<Stmt>) {
    match p {
        Pat::Reference(r) => {
            let n = id(&format!("qv_ref_{}", binds.len()));
            let inner = &r.pat;
            binds.push(parse_quote!(let #inner = *#n;));
            *p = parse_quote!(#n);
        }
        Pat::Tuple(t) => {
            for q in t.elems.iter_mut() {
                deref_pattern(q, binds);
            }
        }
        Pat::Paren(q) => deref_pattern(&mut q.pat, binds),
        _ => {}
    }
}

fn mark(prefix: &str, sig: &mut Signature, body: Option<&mut Block>, shapes: &mut Vec<(String, Shape)>) {
    let name = format!("{prefix}{}", sig.ident);
    if let ReturnType::Type(_, t) = &mut sig.output {
        let inner = t.clone();
        **t = parse_quote!(QvRet<#inner>);
    }
    if let Some(body) = body {
        if let Some(FnArg::Receiver(r)) = sig.inputs.first_mut() {
            if r.mutability.is_some() && r.reference.is_none() {
                r.mutability = None;
                SelfRename.visit_block_mut(body);
                body.stmts.insert(0, parse_quote!(let mut qv_self = self;));
            }
        }
        for a in sig.inputs.iter_mut() {
            if let FnArg::Typed(t) = a {
                if let Pat::TupleStruct(_) = &*t.pat {
                    let pat = t.pat.clone();
                    *t.pat = parse_quote!(qv_arg);
                    body.stmts.insert(0, parse_quote!(let #pat = qv_arg;));
                }
            }
        }
        let mut m = Mark { name: name.clone(), shape: Shape::default() };
        m.visit_block_mut(body);
        // before the value of the function
        let n = body.stmts.len();
        if matches!(body.stmts.last(), Some(Stmt::Expr(Expr::Loop(_), None))) {
            // the value of the function is given inside
        } else if matches!(body.stmts.last(), Some(Stmt::Expr(_, None))) {
            body.stmts.insert(n - 1, parse_quote!(qv_tail!(#name);));
        } else {
            body.stmts.push(parse_quote!(qv_tail!(#name);));
        }
        body.stmts.insert(0, parse_quote!(qv_fn!(#name);));
        shapes.push((name, m.shape));
    }
}

/// `const X: T = e;` with a place for what is known of it.
fn constant(name: &str, x: &Ident, ty: &Type, e: &Expr) -> TokenStream {
    let mut ty = ty.clone();
    if let Type::Reference(r) = &mut ty {
        r.lifetime = Some(Lifetime::new("'static", Span::call_site()));
    }
    quote!(#[qv_const(#name)] const #x: #ty = #e;)
}

fn is_test(attrs: &[Attribute]) -> bool {
    attrs.iter().any(|a| {
        let s = a.to_token_stream().to_string().replace(' ', "");
        s.contains("cfg(test)") || s.contains("#[test]") || s.contains("cfg(kani)")
    })
}

fn main() {
    let mut inherent: Vec<String> = Vec::new();
    let mut drop_items: Vec<String> = Vec::new();
    let mut only: Vec<String> = Vec::new();
    let mut free: Vec<String> = Vec::new();
    let mut keep_scalar = vec!["Vec", "Option", "Result", "Box", "QvRet", "QLabResult", "IntoIter", "PhantomData"].into_iter().map(String::from).collect::<Vec<_>>();
    let mut files = Vec::new();
    let mut consts = false;
    let mut eta = Eta(Vec::new());
    let mut rename: Vec<(String, String)> = Vec::new();
    let mut params = vec![(String::from("V"), String::from("R"))];
    let mut args = std::env::args().skip(1);
    while let Some(a) = args.next() {
        match a.as_str() {
            "--inherent" => inherent.push(args.next().unwrap()),
            "--drop" => drop_items.push(args.next().unwrap()),
            "--free" => free.push(args.next().unwrap()),
            "--only" => only.push(args.next().unwrap()),
            "--scalar" => params[0].0 = args.next().unwrap(),
            "--param" => {
                let a = args.next().unwrap();
                let (a, b) = a.split_once('=').expect("--param name=type");
                params.push((a.into(), b.into()));
            }
            "--rename" => {
                let a = args.next().unwrap();
                let (a, b) = a.split_once('=').expect("--rename name=name");
                rename.push((a.into(), b.into()));
            }
            "--const" => consts = true,
            "--eta" => eta.0.push(args.next().unwrap()),
            "--keep" => keep_scalar.push(args.next().unwrap()),
            _ => files.push(a),
        }
    }
    let mut shapes = Vec::new();
    for path in &files {
        let text = match std::fs::read_to_string(path) {
            Ok(t) => t,
            Err(e) => {
                eprintln!("{path}: {e}");
                std::process::exit(3);
            }
        };
        let file = match text.parse::<TokenStream>().map_err(Error::from).and_then(|t| parse2::<File>(renamed(t, &rename))) {
            Ok(mut f) => {
                eta.visit_file_mut(&mut f);
                f
            }
            Err(e) => {
                eprintln!("{path}: {e}");
                std::process::exit(3);
            }
        };
        for mut item in file.items {
            let (label, attrs): (String, Vec<Attribute>) = match &item {
                Item::Use(_) | Item::Mod(_) | Item::Macro(_) => continue,
                Item::Struct(i) => (i.ident.to_string(), i.attrs.clone()),
                Item::Enum(i) => (i.ident.to_string(), i.attrs.clone()),
                Item::Trait(i) => (i.ident.to_string(), i.attrs.clone()),
                Item::Type(i) => (i.ident.to_string(), i.attrs.clone()),
                Item::Const(i) => (i.ident.to_string(), i.attrs.clone()),
                Item::Fn(i) => (i.sig.ident.to_string(), i.attrs.clone()),
                Item::Impl(i) => {
                    let ty = match &*i.self_ty {
                        Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(),
                        t => t.to_token_stream().to_string(),
                    };
                    let l = match &i.trait_ {
                        Some((_, t, _)) => format!("{} for {}", t.segments.last().unwrap().ident, ty),
                        None => format!("impl {ty}"),
                    };
                    (l, i.attrs.clone())
                }
                _ => (String::new(), Vec::new()),
            };
            // a trait with arguments may be named with them
            let mut label = label;
            if let Item::Impl(ItemImpl { trait_: Some((_, t, _)), .. }) = &item {
                let l = format!("{}for {}", t.segments.last().unwrap().to_token_stream().to_string().replace(' ', ""), label.rsplit(' ').next().unwrap()).replace("for ", " for ");
                if only.contains(&l) {
                    label = l;
                }
            }
            if is_test(&attrs) || drop_items.iter().any(|d| *d == label) {
                continue;
            }
            if let Item::Impl(i) = &mut item {
                let ty = label.rsplit(' ').next().unwrap().to_string();
                let head = label.split(' ').next().unwrap().to_string();
                let whole = i.trait_.is_some() && !inherent.contains(&head);
                if i.trait_.is_some() && inherent.contains(&head) {
                    i.trait_ = None;
                    i.items.retain(|x| !matches!(x, ImplItem::Type(_)));
                }
                // some methods of a trait's impl may be named with it
                let part = i.trait_.is_some() && in_part(&only, &label);
                let name_of = |f: &ImplItemFn| format!("{ty}::{}", f.sig.ident);
                i.items.retain(|x| match x {
                    ImplItem::Fn(f) if part => only.contains(&format!("{label}::{}", f.sig.ident)),
                    ImplItem::Fn(f) => !is_test(&f.attrs) && !drop_items.contains(&name_of(f)) && (only.is_empty() || whole || only.contains(&name_of(f))),
                    ImplItem::Const(c) => !consts || only.is_empty() || only.contains(&format!("{ty}::{}", c.ident)),
                    _ => true,
                });
                if i.items.is_empty() && !only.is_empty() {
                    continue;
                }
                if whole && !part && !only.is_empty() && !only.contains(&label) {
                    continue;
                }
            } else if let Item::Trait(t) = &mut item {
                let name_of = |f: &TraitItemFn| format!("{}::{}", label, f.sig.ident);
                t.items.retain(|x| match x {
                    TraitItem::Fn(f) => !is_test(&f.attrs) && !drop_items.contains(&name_of(f)) && (only.is_empty() || only.contains(&label) || only.contains(&name_of(f))),
                    _ => true,
                });
                if t.items.is_empty() && !only.is_empty() && !only.contains(&label) {
                    continue;
                }
            } else if !only.is_empty() && !only.contains(&label) {
                continue;
            }
            let mut item: Item = parse2(strip(item.to_token_stream())).expect("the item without its attributes");
            Clean.visit_item_mut(&mut item);
            let mut sc = Scalar { keep: keep_scalar.clone(), params: params.clone() };
            sc.visit_item_mut(&mut item);
            match &mut item {
                Item::Enum(e) => {
                    e.vis = parse_quote!(pub);
                    if attrs.iter().any(|a| a.path().is_ident("derive") && a.to_token_stream().to_string().contains("Copy")) {
                        e.attrs.push(parse_quote!(#[derive(Clone, Copy)]));
                    }
                }
                Item::Struct(e) if consts && attrs.iter().any(|a| a.path().is_ident("derive") && a.to_token_stream().to_string().contains("Copy")) => {
                    e.attrs.push(parse_quote!(#[derive(Clone, Copy)]));
                }
                Item::Const(c) if consts => {
                    item = Item::Verbatim(constant(&label, &c.ident, &c.ty, &c.expr));
                }
                Item::Fn(f) => {
                    if consts {
                        f.sig.constness = None;
                    }
                    f.vis = Visibility::Inherited;
                    mark("", &mut f.sig, Some(&mut f.block), &mut shapes)
                }
                Item::Impl(i) => {
                    let ty = label.rsplit(' ').next().unwrap().to_string();
                    let prefix = if label.contains("> for ") || in_part(&only, &label) { format!("{}::", label.replace(' ', "")) } else { format!("{ty}::") };
                    for x in i.items.iter_mut() {
                        if let ImplItem::Const(c) = x {
                            if consts {
                                *x = ImplItem::Verbatim(constant(&format!("{prefix}{}", c.ident), &c.ident, &c.ty, &c.expr));
                            }
                        } else if let ImplItem::Fn(f) = x {
                            if consts {
                                f.sig.constness = None;
                            }
                            f.vis = Visibility::Inherited;
                            mark(&prefix, &mut f.sig, Some(&mut f.block), &mut shapes);
                        }
                    }
                }
                Item::Trait(t) => {
                    t.supertraits = t.supertraits.iter().filter(|b| b.to_token_stream().to_string() != "Debug").cloned().collect();
                    if t.supertraits.is_empty() {
                        t.colon_token = None;
                    }
                    let prefix = format!("{}::", t.ident);
                    let name = t.ident.clone();
                    let mut kept = Vec::new();
                    for x in std::mem::take(&mut t.items) {
                        match x {
                            TraitItem::Fn(f) if f.default.is_some() && free.contains(&format!("{prefix}{}", f.sig.ident)) => {
                                let TraitItemFn { mut sig, default, .. } = f;
                                let mut body = default.unwrap();
                                FreeCalls(sig.ident.to_string()).visit_block_mut(&mut body);
                                SelfRename.visit_block_mut(&mut body);
                                if let Some(FnArg::Receiver(r)) = sig.inputs.first() {
                                    sig.inputs[0] = if r.reference.is_some() { parse_quote!(qv_self: &QvS) } else { parse_quote!(qv_self: QvS) };
                                }
                                sig.generics.params.push(parse_quote!(QvS: #name + ?Sized));
                                mark(&prefix, &mut sig, Some(&mut body), &mut shapes);
                                println!("{}\n", quote!(#sig #body));
                            }
                            x => kept.push(x),
                        }
                    }
                    t.items = kept;
                    for x in t.items.iter_mut() {
                        if let TraitItem::Fn(f) = x {
                            mark(&prefix, &mut f.sig, f.default.as_mut(), &mut shapes);
                            if f.default.is_none() {
                                let name = format!("{prefix}{}", f.sig.ident);
                                f.attrs.push(parse_quote!(#[qv_decl(#name)]));
                            }
                        }
                    }
                }
                _ => {}
            }
            println!("{}\n", quote!(#item));
        }
    }
    for (name, s) in shapes {
        let calls: Vec<String> = s.calls.iter().map(|(k, v)| format!("{k}:{v}")).collect();
        println!("//SHAPE {name} | {} | {} | {}", s.loops.join(","), s.closures, calls.join(" "));
    }
}
