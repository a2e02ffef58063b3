//! gxtract: reads /repo's Rust sources, splices the contracts of /verif/contracts into them and
//! writes one Verus file. See /verif/DESIGN.md ("What the extraction drops").
mod contracts;
mod capi;
mod fields;
mod normalise;
mod printer;

use contracts::{norm_key, Contracts};
use normalise::{lit, Helper, Norm};
use proc_macro2::{Ident, TokenStream, TokenTree};
use quote::{format_ident, quote, ToTokens};
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};
use syn::visit_mut::{self, VisitMut};
use syn::*;

#[derive(Default)]
struct Report {
    functions: BTreeMap<String, FnInfo>,
    dropped: Vec<String>,
    missing: Vec<String>,
    log: BTreeMap<String, usize>,

}
#[derive(Default, Clone)]
struct FnInfo {
    file: String,
    line: usize,
    kind: String, // contracted | bare | trusted | demoted
    props: String,
    loops: usize,
    problems: Vec<String>,
    soft: Vec<String>,
    shape: String,
    private: bool,
    inlined: Vec<String>,
    gen_start: usize,
    gen_end: usize,
}

struct Cx {
    c: Contracts,
    demote: BTreeMap<String, String>,
    used: BTreeSet<String>,
    rep: Report,
    file: String,
    shapes: BTreeMap<String, String>,
    helpers: BTreeMap<String, BTreeMap<String, Helper>>, // module -> name -> helper
    capi: bool,
    imports: BTreeMap<String, BTreeSet<String>>, // module -> names used from this crate
    bare: BTreeSet<String>,          // functions without a contract (from the first pass)
    moved: BTreeMap<String, String>, // new key -> key the contract was written for
    vacuity: bool, // put an assertion that must fail at the start of every contracted function
}

/// calls of functions of this crate that have no contract and were not inlined
struct CallsBare<'a> {
    bare: &'a BTreeSet<String>,
    found: BTreeSet<String>,
}
impl<'a> CallsBare<'a> {
    fn look(&mut self, name: &str, owner: Option<String>, method: bool) {
        for k in self.bare {
            let segs: Vec<&str> = k.split("::").collect();
            if segs.last() != Some(&name) {
                continue;
            }
            let prev = segs.get(segs.len().wrapping_sub(2)).copied().unwrap_or("");
            let (ty, of_trait) = match prev.split_once(" as ") {
                Some((t, _)) => (t, true),
                None => (prev, prev.chars().next().map_or(false, |c| c.is_uppercase())),
            };
            let hit = if method {
                // the limits of Numeric are not methods
                !k.starts_with("util::")
            } else {
                match &owner {
                    None => !of_trait,
                    Some(o) => o == "Self" || o == ty || o.len() == 1 || (!of_trait && (o.chars().next().map_or(false, |c| c.is_lowercase()))),
                }
            };
            if hit {
                self.found.insert(k.clone());
            }
        }
    }
}
impl<'a, 'ast> syn::visit::Visit<'ast> for CallsBare<'a> {
    fn visit_expr_call(&mut self, c: &'ast ExprCall) {
        if let Expr::Path(p) = &*c.func {
            let n = p.path.segments.len();
            let owner = if n > 1 { Some(p.path.segments[n - 2].ident.to_string()) } else { None };
            let owner = match &p.qself {
                Some(q) => Some(type_name(&q.ty)),
                None => owner,
            };
            self.look(&p.path.segments[n - 1].ident.to_string(), owner, false);
        }
        syn::visit::visit_expr_call(self, c);
    }
    fn visit_expr_method_call(&mut self, m: &'ast ExprMethodCall) {
        self.look(&m.method.to_string(), None, true);
        syn::visit::visit_expr_method_call(self, m);
    }
}

fn attrs_drop(attrs: &[Attribute]) -> Option<Vec<Attribute>> {
    let mut out = vec![];
    for a in attrs {
        let n = a.path().to_token_stream().to_string();
        if n == "cfg" {
            let s = a.meta.to_token_stream().to_string();
            if s.contains("test") && !s.contains("not") {
                return None;
            }
            out.push(a.clone());
        } else if n == "cfg_attr" {
            continue;
        }
        // doc, inline, allow, must_use, no_mangle, repr, deny... : no effect on behaviour
    }
    Some(out)
}

fn derives(attrs: &[Attribute]) -> Vec<String> {
    let mut v = vec![];
    for a in attrs {
        if a.path().is_ident("derive") {
            let _ = a.parse_nested_meta(|m| {
                v.push(m.path.segments.last().unwrap().ident.to_string());
                Ok(())
            });
        }
    }
    v
}

fn type_name(t: &Type) -> String {
    match t {
        Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(),
        Type::Reference(r) => format!("&{}", type_name(&r.elem)),
        Type::Paren(p) => type_name(&p.elem),
        _ => t.to_token_stream().to_string(),
    }
}
fn type_full(t: &Type) -> String {
    t.to_token_stream().to_string().replace(' ', "")
}

/// replace identifiers in raw contract text (whole-word)
fn subst_words(text: &str, map: &BTreeMap<String, String>) -> String {
    let mut out = String::new();
    let cs: Vec<char> = text.chars().collect();
    let mut i = 0;
    while i < cs.len() {
        let c = cs[i];
        if c.is_alphabetic() || c == '_' || c == '$' {
            let s = i;
            i += 1;
            while i < cs.len() && (cs[i].is_alphanumeric() || cs[i] == '_') {
                i += 1;
            }
            let w: String = cs[s..i].iter().collect();
            match map.get(&w) {
                Some(r) => out.push_str(r),
                None => out.push_str(&w),
            }
        } else {
            out.push(c);
            i += 1;
        }
    }
    out
}

fn mentions(text: &str, names: &BTreeSet<String>) -> bool {
    let m = names.iter().map(|n| (n.clone(), format!("\u{1}{}", n))).collect();
    !names.is_empty() && subst_words(text, &m) != text
}

/// the parts of a hint that do not mention the names: clauses of an invariant, statements of a proof
fn without(text: &str, names: &BTreeSet<String>) -> Option<String> {
    fn pieces(t: &str, sep: char) -> Vec<String> {
        let (mut d, mut cur, mut out) = (0i32, String::new(), vec![]);
        for c in t.chars() {
            match c {
                '(' | '[' | '{' => d += 1,
                ')' | ']' | '}' => d -= 1,
                _ => {}
            }
            cur.push(c);
            if c == sep && d == 0 {
                out.push(std::mem::take(&mut cur));
            }
        }
        out.push(cur);
        out
    }
    let t = text.trim();
    if let Some(rest) = t.strip_prefix("invariant") {
        let (inv, dec) = match rest.rfind("decreases") {
            Some(i) => (&rest[..i], &rest[i..]),
            None => (rest, ""),
        };
        if mentions(dec, names) {
            return None;
        }
        // a clause of quantifiers holds commas of its own only inside brackets and between bars
        let mut kept: Vec<String> = vec![];
        let mut bars = 0;
        let mut cur = String::new();
        for p in pieces(inv, ',') {
            bars += p.matches('|').count() - 2 * p.matches("||").count();
            cur.push_str(&p);
            if bars % 2 == 0 {
                kept.push(std::mem::take(&mut cur));
            }
        }
        if !cur.is_empty() {
            kept.push(cur);
        }
        let kept: String = kept.into_iter().filter(|c| !mentions(c, names)).collect();
        let kept = kept.trim().trim_end_matches(',').to_string();
        if kept.is_empty() {
            return if dec.is_empty() { None } else { Some(dec.to_string()) };
        }
        return Some(format!("invariant\n        {},\n    {}\n", kept, dec));
    }
    if let Some(inner) = t.strip_prefix("proof {").and_then(|x| x.strip_suffix('}')) {
        if pieces(t, '}').iter().filter(|x| !x.trim().is_empty()).count() == 1 {
            let kept: String = pieces(inner, ';').into_iter().filter(|c| !mentions(c, names)).collect();
            return if kept.trim().is_empty() { None } else { Some(format!("proof {{ {} }}\n", kept)) };
        }
    }
    let kept: String = pieces(t, ';').into_iter().filter(|c| !mentions(c, names)).collect();
    if kept.trim().is_empty() { None } else { Some(kept) }
}

fn rename_tokens(ts: TokenStream, map: &BTreeMap<String, String>) -> TokenStream {
    ts.into_iter()
        .map(|t| match t {
            TokenTree::Ident(i) => match map.get(&i.to_string()) {
                Some(n) => TokenTree::Ident(Ident::new(n, i.span())),
                None => TokenTree::Ident(i),
            },
            TokenTree::Group(g) => {
                let mut n = proc_macro2::Group::new(g.delimiter(), rename_tokens(g.stream(), map));
                n.set_span(g.span());
                TokenTree::Group(n)
            }
            t => t,
        })
        .collect()
}

/// Collects the names bound by `let` (in order) with their initialiser text, for placeholders.
struct Lets {
    v: Vec<(String, String, bool)>,
}
impl VisitMut for Lets {
    fn visit_local_mut(&mut self, l: &mut Local) {
        let p = match &l.pat {
            Pat::Type(t) => (*t.pat).clone(),
            p => p.clone(),
        };
        if let (Pat::Ident(p), Some(i)) = (&p, &l.init) {
            self.v.push((
                p.ident.to_string(),
                i.expr.to_token_stream().to_string().replace(' ', ""),
                p.mutability.is_some(),
            ));
        }
        visit_mut::visit_local_mut(self, l);
    }
}

struct Loops<'a> {
    n: usize,
    map: BTreeMap<String, usize>,
    block: Option<&'a contracts::Block>,
    subst: &'a dyn Fn(&str) -> String,
    missing: Vec<usize>,
}
impl<'a> Loops<'a> {
    fn handle(&mut self, body: &mut syn::Block) -> (usize, Option<String>, Option<String>) {
        let k = self.n;
        self.n += 1;
        // is there a loop id?
        let mut had = false;
        if let Some(Stmt::Macro(m)) = body.stmts.first() {
            if m.mac.path.is_ident("__gx_loopid") {
                let l: LitStr = parse2(m.mac.tokens.clone()).unwrap();
                self.map.insert(l.value(), k);
                had = true;
            }
        }
        if had {
            body.stmts.remove(0);
        }
        let g = |s: &str| -> Option<String> {
            self.block.and_then(|b| b.get(&format!("loop {}{}", k, s))).map(|t| (self.subst)(t))
        };
        let inv = g("");
        if inv.is_none() {
            self.missing.push(k);
        }
        if let Some(t) = g(" end") {
            let l = lit(&t);
            // the body is a unit block: put the text last
            let tail = body.stmts.last().map(|s| matches!(s, Stmt::Expr(_, None))).unwrap_or(false);
            if tail {
                if let Some(Stmt::Expr(e, None)) = body.stmts.pop() {
                    body.stmts.push(Stmt::Expr(e, Some(Default::default())));
                }
            }
            body.stmts.push(parse_quote!(__gx_raw!{#l}));
        }
        if let Some(t) = g(" item") {
            // where the loop's element has just been bound
            let l = lit(&t);
            let mut put = false;
            for st in body.stmts.iter_mut() {
                if let Stmt::Expr(Expr::Match(m), _) = st {
                    for arm in m.arms.iter_mut() {
                        if !matches!(*arm.body, Expr::Break(_)) && !put {
                            let b = (*arm.body).clone();
                            *arm.body = parse2(quote!({ __gx_raw!{#l} #b })).unwrap();
                            put = true;
                        }
                    }
                }
            }
            if !put && body.stmts.len() >= 2 {
                body.stmts.insert(2, parse_quote!(__gx_raw!{#l}));
            }
        }
        if let Some(t) = g(" top") {
            let l = lit(&t);
            body.stmts.insert(0, parse_quote!(__gx_raw!{#l}));
        }
        if let Some(t) = inv {
            let l = lit(&t);
            body.stmts.insert(0, parse_quote!(__gx_pre!{#l}));
        }
        (k, g(" before"), g(" after"))
    }
    fn wrap(e: &mut Expr, before: Option<String>, after: Option<String>) {
        if before.is_none() && after.is_none() {
            return;
        }
        let b = before.map(|t| {
            let l = lit(&t);
            quote!(__gx_raw!{#l})
        });
        let a = after.map(|t| {
            let l = lit(&t);
            quote!(__gx_raw!{#l})
        });
        let inner = e.clone();
        *e = parse2(quote!({ #b #inner #a })).unwrap();
    }
}
impl<'a> VisitMut for Loops<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        let r = match e {
            Expr::Loop(l) => Some(self.handle(&mut l.body)),
            Expr::While(w) => {
                visit_mut::visit_expr_mut(self, &mut w.cond);
                Some(self.handle(&mut w.body))
            }
            Expr::ForLoop(f) => Some(self.handle(&mut f.body)),
            _ => None,
        };
        match r {
            Some((_, before, after)) => {
                match e {
                    Expr::Loop(l) => self.visit_block_mut(&mut l.body),
                    Expr::While(w) => self.visit_block_mut(&mut w.body),
                    Expr::ForLoop(f) => self.visit_block_mut(&mut f.body),
                    _ => unreachable!(),
                }
                Self::wrap(e, before, after);
            }
            None => visit_mut::visit_expr_mut(self, e),
        }
    }
    fn visit_item_mut(&mut self, _: &mut Item) {}
}

/// The loops of a function, as the loop invariants see them: kind, nesting, breaks.
#[derive(Default)]
struct Shape {
    out: String,
}
impl VisitMut for Shape {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        let id = |b: &syn::Block| matches!(b.stmts.first(), Some(Stmt::Macro(m)) if m.mac.path.is_ident("__gx_loopid"));
        match e {
            Expr::Loop(l) => {
                self.out += if id(&l.body) { "iter(" } else { "loop(" };
                let gen = id(&l.body);
                let n = self.out.len();
                self.visit_block_mut(&mut l.body);
                if gen {
                    // the generated `None => break`
                    let t = self.out[n..].replacen('b', "", 1);
                    self.out.truncate(n);
                    self.out += &t;
                }
                self.out += ")";
            }
            Expr::While(w) => {
                self.out += if id(&w.body) { "range(" } else { "while(" };
                self.visit_block_mut(&mut w.body);
                self.out += ")";
            }
            Expr::Break(_) => self.out += "b",
            _ => visit_mut::visit_expr_mut(self, e),
        }
    }
    fn visit_item_mut(&mut self, _: &mut Item) {}
}

/// Replaces `&x` in patterns, which Verus does not take, by a fresh name and `let x = *name;`.
struct RefPats {
    n: usize,
}
impl RefPats {
    fn split(&mut self, p: &mut Pat, out: &mut Vec<Stmt>) {
        struct In<'a>(&'a mut usize, &'a mut Vec<Stmt>);
        impl VisitMut for In<'_> {
            fn visit_pat_mut(&mut self, p: &mut Pat) {
                if let Pat::Reference(r) = p {
                    if r.mutability.is_none() {
                        let f = format_ident!("gx_r{}", *self.0);
                        *self.0 += 1;
                        let inner = &r.pat;
                        self.1.push(parse_quote!(let #inner = *#f;));
                        *p = parse_quote!(#f);
                        return;
                    }
                }
                visit_mut::visit_pat_mut(self, p);
            }
        }
        In(&mut self.n, out).visit_pat_mut(p);
    }
}
impl VisitMut for RefPats {
    fn visit_arm_mut(&mut self, a: &mut Arm) {
        visit_mut::visit_arm_mut(self, a);
        if a.guard.is_none() {
            let mut v = vec![];
            self.split(&mut a.pat, &mut v);
            if !v.is_empty() {
                let b = &a.body;
                *a.body = parse_quote!({ #(#v)* #b });
            }
        }
    }
    fn visit_block_mut(&mut self, b: &mut syn::Block) {
        visit_mut::visit_block_mut(self, b);
        let mut i = 0;
        while i < b.stmts.len() {
            let mut v = vec![];
            if let Stmt::Local(l) = &mut b.stmts[i] {
                self.split(&mut l.pat, &mut v);
            }
            let n = v.len();
            for (j, s) in v.into_iter().enumerate() {
                b.stmts.insert(i + 1 + j, s);
            }
            i += 1 + n;
        }
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        let mut v = vec![];
        match e {
            Expr::If(f) => {
                if let Expr::Let(l) = &mut *f.cond {
                    self.split(&mut l.pat, &mut v);
                    f.then_branch.stmts.splice(0..0, v);
                }
            }
            Expr::While(f) => {
                if let Expr::Let(l) = &mut *f.cond {
                    self.split(&mut l.pat, &mut v);
                    f.body.stmts.splice(0..0, v);
                }
            }
            _ => {}
        }
    }
    fn visit_item_mut(&mut self, _: &mut Item) {}
}

/// Insert proof text before every `return` and before the tail.
struct Exits {
    text: String,
    ty: TokenStream,
}
impl VisitMut for Exits {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Return(r) = e {
            if let Some(x) = &r.expr {
                let l = lit(&self.text);
                let ty = &self.ty;
                *e = parse2(quote!({ let gx_res #ty = #x; __gx_raw!{#l} return gx_res; })).unwrap();
            }
        }
    }
    fn visit_item_mut(&mut self, _: &mut Item) {}
    fn visit_expr_closure_mut(&mut self, _: &mut ExprClosure) {}
}

/// insert text after the statement containing the n-th call to a method/function of a given name
struct AfterCall {
    name: String,
    n: i64,
    text: String,
    before: bool,
    done: bool,
}
impl AfterCall {
    fn count(&self, s: &Stmt) -> i64 {
        fn walk(ts: TokenStream, name: &str, c: &mut i64) {
            let v: Vec<TokenTree> = ts.into_iter().collect();
            for (i, t) in v.iter().enumerate() {
                match t {
                    TokenTree::Ident(id) if id == name => {
                        let mut j = i + 1;
                        // skip a turbofish
                        while let Some(TokenTree::Punct(p)) = v.get(j) {
                            if p.as_char() == '!' {
                                break;
                            }
                            j += 1;
                            if j > i + 8 {
                                break;
                            }
                        }
                        if let Some(TokenTree::Group(g)) = v.get(i + 1) {
                            if g.delimiter() == proc_macro2::Delimiter::Parenthesis {
                                *c += 1;
                            }
                        }
                    }
                    TokenTree::Group(g) => walk(g.stream(), name, c),
                    _ => {}
                }
            }
        }
        let mut c = 0;
        walk(s.to_token_stream(), &self.name, &mut c);
        c
    }
    fn run(&mut self, b: &mut syn::Block) {
        let mut i = 0;
        while i < b.stmts.len() {
            if self.done {
                return;
            }
            let c = self.count(&b.stmts[i]);
            if c > 0 && self.n < c {
                // the target is inside statement i: go deeper if it contains a nested block with it
                let mut deeper = Deeper { a: self, hit: false };
                deeper.visit_stmt_mut(&mut b.stmts[i]);
                if self.done {
                    return;
                }
                let l = lit(&self.text);
                if let (false, Stmt::Expr(e, None)) = (self.before, &b.stmts[i]) {
                    if i + 1 == b.stmts.len() {
                        // tail expression
                        let e = e.clone();
                        b.stmts[i] = parse_quote!(let gx_tail = #e;);
                        b.stmts.push(parse_quote!(__gx_raw!{#l}));
                        b.stmts.push(Stmt::Expr(parse_quote!(gx_tail), None));
                        self.done = true;
                        return;
                    }
                }
                let at = if self.before { i } else { i + 1 };
                b.stmts.insert(at, parse_quote!(__gx_raw!{#l}));
                self.done = true;
                return;
            }
            self.n -= c;
            i += 1;
        }
    }
}
struct Deeper<'a> {
    a: &'a mut AfterCall,
    hit: bool,
}
impl<'a> VisitMut for Deeper<'a> {
    fn visit_block_mut(&mut self, b: &mut syn::Block) {
        if self.a.done {
            return;
        }
        let total: i64 = b.stmts.iter().map(|s| self.a.count(s)).sum();
        if self.a.n >= 0 && self.a.n < total {
            self.hit = true;
            self.a.run(b);
        }
    }
    fn visit_item_mut(&mut self, _: &mut Item) {}
}

impl Cx {
    fn contract(&mut self, key: &str) -> Option<contracts::Block> {
        let k = norm_key(key);
        let b = self.c.blocks.get(&k).cloned();
        if b.is_some() {
            self.used.insert(k);
        }
        b
    }

    fn emit_fn(&mut self, key: &str, attrs: &[Attribute], vis: TokenStream, sig: &Signature, block: Option<&syn::Block>, module: &str, in_trait_impl: bool) -> TokenStream {
        let Some(cfg) = attrs_drop(attrs) else { return TokenStream::new() };
        let b = self.contract(key);
        let mut info = FnInfo {
            file: self.file.clone(),
            line: sig.ident.span().start().line,
            props: b.as_ref().and_then(|b| b.get("props")).unwrap_or("").to_string(),
            private: vis.to_string() != "pub" && !key.contains(" as ") && !in_trait_impl,
            ..Default::default()
        };
        let mut sig = sig.clone();
        sig.unsafety = None;
        sig.abi = None;
        // argument names: contract text refers to the names in `args:`
        let mut sub: BTreeMap<String, String> = BTreeMap::new();
        let actual: Vec<String> = sig
            .inputs
            .iter()
            .filter_map(|a| match a {
                FnArg::Typed(t) => match &*t.pat {
                    Pat::Ident(p) => Some(p.ident.to_string()),
                    p if p.to_token_stream().to_string().replace(' ', "") == "Tracked(gx_h)" => Some("gx_h".into()),
                    _ => Some("_".into()),
                },
                _ => None,
            })
            .collect();
        if let Some(b) = &b {
            if let Some(args) = b.get("args") {
                let want: Vec<&str> = args.split_whitespace().collect();
                if want.len() != actual.len() {
                    info.problems.push(format!("expected {} parameters, found {}", want.len(), actual.len()));
                }
                for (w, a) in want.iter().zip(actual.iter()) {
                    if w != a {
                        sub.insert(w.to_string(), a.clone());
                    }
                }
            }
        }
        let lean = self.demote.get(key).map(|r| r.starts_with("lean")).unwrap_or(false);
        let bare = self.demote.get(key).map(|r| r.starts_with("bare")).unwrap_or(false);
        let spec0 = if bare { String::new() } else { b.as_ref().and_then(|b| b.get("spec")).unwrap_or("").to_string() };
        let mut attr_txt = b.as_ref().and_then(|b| b.get("attr")).unwrap_or("").to_string();
        let ret_ty = match &sig.output {
            ReturnType::Type(_, ty) if !quote!(#ty).to_string().contains("impl ") => quote!(: #ty),
            _ => quote!(),
        };
        if let Some(b) = &b {
            if let (Some(ret), ReturnType::Type(_, t)) = (b.get("ret"), &sig.output) {
                let r = format_ident!("{}", ret.trim());
                let ty = Type::Verbatim(quote!((#r: #t)));
                sig.output = ReturnType::Type(Default::default(), Box::new(ty));
            }
        }
        // extra ghost parameters
        if let Some(g) = b.as_ref().and_then(|b| b.get("ghost args")) {
            let ts: TokenStream = g.parse().unwrap();
            sig.inputs.push(FnArg::Typed(PatType {
                attrs: vec![],
                pat: Box::new(Pat::Verbatim(quote!(__gx_ghost))),
                colon_token: Default::default(),
                ty: Box::new(Type::Verbatim(ts)),
            }));
        }
        let Some(block) = block else {
            // trait method without body
            info.kind = if b.is_some() { "trait-contract".into() } else { "bare".into() };
            self.rep.functions.insert(key.to_string(), info);
            let t = lit(&subst_words(&spec0, &sub));
            return quote!(__gx_fn!{#key} #(#cfg)* #vis #sig __gx_raw!{#t} ; ; __gx_endfn!{#key});
        };

        let mut kind = if b.is_some() { "contracted" } else { "bare" };
        if b.as_ref().map(|b| b.get("trusted").is_some()).unwrap_or(false) {
            kind = "trusted";
        }
        let mut blk = block.clone();
        let no_helpers = BTreeMap::new();
        let mut hs = self.helpers.get(module).unwrap_or(&no_helpers).clone();
        // free functions of other modules, where the name is unambiguous
        let mut others: BTreeMap<String, Option<Helper>> = BTreeMap::new();
        for (m, map) in &self.helpers {
            for (n, h) in map {
                if m != module && !h.is_method && h.free {
                    others.entry(n.clone()).and_modify(|x| *x = None).or_insert_with(|| Some(h.clone()));
                }
            }
        }
        let imp = self.imports.get(module).cloned().unwrap_or_default();
        for (n, h) in others {
            if !(imp.contains(&n) || imp.contains("*")) {
                if let Some(h) = h {
                    hs.insert(format!("crate::{}", n), h);
                }
                continue;
            }
            if let (Some(h), false) = (h, hs.contains_key(&n) || self.c.blocks.contains_key(&format!("{}::{}", module, n))) {
                hs.insert(n, h);
            }
        }
        if b.is_some() && kind != "trusted" && (lean || !self.demote.contains_key(key)) {
            let mut lets0 = Lets { v: vec![] };
            let mut n = Norm::new(&hs);
            n.visit_block_mut(&mut blk);
            RefPats { n: 0 }.visit_block_mut(&mut blk);
            let mut sh = Shape::default();
            sh.visit_block_mut(&mut blk.clone());
            info.shape = sh.out;
            blk = number_accumulators(blk);
            lets0.visit_block_mut(&mut blk.clone());
            for (k, v) in &n.log {
                *self.rep.log.entry(k.clone()).or_insert(0) += v;
            }
            info.inlined = n.inlined.iter().cloned().collect();
            if let Some(from) = self.moved.get(key) {
                info.soft.push(format!("the contract was written for {}", from));
            }
            let mut cb = CallsBare { bare: &self.bare, found: BTreeSet::new() };
            syn::visit::Visit::visit_block(&mut cb, &blk);
            for f in cb.found {
                info.soft.push(format!("calls {}, which has no contract", f));
            }
            let bb = b.as_ref().unwrap();
            let mut lost: BTreeSet<String> = BTreeSet::new();
            // placeholders: `bind: $x = text` binds $x to the first let whose initialiser contains text
            if let Some(binds) = bb.get("bind") {
                for l in binds.lines() {
                    let l = l.trim();
                    if l.is_empty() {
                        continue;
                    }
                    let (name, pat) = l.split_once('=').expect("bind: $x = text");
                    let pat = pat.trim().replace(' ', "");
                    // alternatives in order of preference: @name, ~exact initialiser, ^prefix, contained text
                    let mut found = None;
                    for alt in pat.split("||") {
                        let (alt, nth) = match alt.rsplit_once('#') {
                            Some((p, k)) if k.parse::<usize>().is_ok() => (p, k.parse::<usize>().unwrap()),
                            _ => (alt, 0),
                        };
                        found = lets0
                            .v
                            .iter()
                            .filter(|(v, i, _)| {
                                if ["gx_i_", "gx_it_", "gx_end_", "gx_e_", "gx_k_", "gx_ks_"].iter().any(|p| v.starts_with(p)) {
                                    false
                                } else if let Some(x) = alt.strip_prefix('@') {
                                    v == x
                                } else if let Some(x) = alt.strip_prefix('~') {
                                    i == x
                                } else if let Some(x) = alt.strip_prefix('^') {
                                    i.starts_with(x)
                                } else {
                                    i.contains(alt)
                                }
                            })
                            .nth(nth);
                        if found.is_some() {
                            break;
                        }
                    }
                    match found {
                        Some((v, _, _)) => {
                            sub.insert(name.trim().to_string(), v.clone());
                        }
                        None => {
                            // the sections of the contract that mention this local are left out; a failed
                            // proof is then inconclusive, a successful one still counts
                            lost.insert(name.trim().to_string());
                            info.soft.push(format!("no local matches {}", l));
                        }
                    }
                }
            }
            if mentions(&spec0, &lost) {
                info.problems.push(format!("the contract mentions a local that is gone ({:?})", lost));
            }
            let mut pruned = bb.clone();
            if !lost.is_empty() {
                let secs = std::mem::take(&mut pruned.sections);
                for (k, t) in secs {
                    if k == "bind" || k == "spec" || !mentions(&t, &lost) {
                        pruned.sections.insert(k, t);
                    } else if let Some(t) = without(&t, &lost) {
                        pruned.sections.insert(k, t);
                    }
                }
            }
            if lean {
                pruned.sections.retain(|k, _| k == "bind" || k == "spec");
                info.soft.push(format!("proof hints left out: {}", self.demote[key]));
            }
            let bb = &pruned;
            let sub2 = sub.clone();
            let f = move |t: &str| subst_words(t, &sub2);
            let mut lp = Loops { n: 0, map: BTreeMap::new(), block: Some(bb), subst: &f, missing: vec![] };
            lp.visit_block_mut(&mut blk);
            info.loops = lp.n;
            if let Some(old) = self.shapes.get(key) {
                if *old != info.shape {
                    info.soft.push(format!("the loops the invariants were written for are {}, these are {}", old, info.shape));
                }
            }
            for k in &lp.missing {
                info.soft.push(format!("loop {} has no invariant in the contract", k));
            }
            for s in bb.sections.keys() {
                if let Some(k) = s.strip_prefix("loop ") {
                    let k: usize = k.split_whitespace().next().unwrap().parse().unwrap();
                    if k >= lp.n {
                        info.soft.push(format!("contract has an invariant for loop {} but the function has {} loops", k, lp.n));
                    }
                }
            }
            let lmap = lp.map.clone();
            if let Some(t) = bb.get("exit") {
                let t = f(t);
                Exits { text: t.clone(), ty: ret_ty.clone() }.visit_block_mut(&mut blk);
                let l = lit(&t);
                let unit = matches!(sig.output, ReturnType::Default);
                match blk.stmts.pop() {
                    Some(Stmt::Expr(e, None)) if !unit => {
                        blk.stmts.push(parse_quote!(let gx_res #ret_ty = #e;));
                        blk.stmts.push(parse_quote!(__gx_raw!{#l}));
                        blk.stmts.push(Stmt::Expr(parse_quote!(gx_res), None));
                    }
                    Some(Stmt::Expr(e, None)) => {
                        blk.stmts.push(Stmt::Expr(e, Some(Default::default())));
                        blk.stmts.push(parse_quote!(__gx_raw!{#l}));
                    }
                    Some(s) => {
                        blk.stmts.push(s);
                        if unit {
                            blk.stmts.push(parse_quote!(__gx_raw!{#l}));
                        }
                    }
                    None => blk.stmts.push(parse_quote!(__gx_raw!{#l})),
                }
            }
            for (s, t) in &bb.sections {
                for (pre, before) in [("after ", false), ("before ", true)] {
                    if let Some(rest) = s.strip_prefix(pre) {
                        let mut it = rest.split_whitespace();
                        let name = it.next().unwrap().to_string();
                        let n: i64 = it.next().map(|x| x.parse().unwrap()).unwrap_or(0);
                        let mut a = AfterCall { name, n, text: f(t), before, done: false };
                        a.run(&mut blk);
                        if !a.done {
                            info.soft.push(format!("no anchor for '{}'", s));
                        }
                    }
                }
            }
            if self.vacuity {
                let l = lit("proof { assert(false); }");
                blk.stmts.insert(0, parse_quote!(__gx_raw!{#l}));
            }
            if let Some(t) = bb.get("entry") {
                let l = lit(&f(t));
                blk.stmts.insert(0, parse_quote!(__gx_raw!{#l}));
            }
            // final renaming of loop temporaries
            let mut ren = BTreeMap::new();
            for (id, k) in &lmap {
                for p in ["gx_it_", "gx_i_", "gx_end_", "gx_e_", "gx_k_", "gx_done_", "gx_ks_"] {
                    ren.insert(format!("{}{}", p, id), format!("{}{}", p.trim_end_matches('_'), k));
                }
            }
            let ts = rename_tokens(blk.to_token_stream(), &ren);
            blk = parse2(ts).unwrap();
        }
        let structural = !info.problems.is_empty();
        if let (Some(r), false) = (self.demote.get(key), lean) {
            info.problems.push(r.clone());
            kind = "demoted";
        } else if structural && kind == "contracted" {
            kind = "demoted";
        }
        if b.is_none() && block_nontrivial() {
            // uncontracted: kept opaque so that it cannot disturb the rest of the run
            kind = "bare";
        }
        info.kind = kind.to_string();
        self.rep.functions.insert(key.to_string(), info);
        let pub_vis = vis;
        let spec = subst_words(&spec0, &sub);
        let body: TokenStream = if kind == "contracted" {
            blk.to_token_stream()
        } else {
            attr_txt.push_str("\n#[verifier::external_body]");
            quote!({ unimplemented!() })
        };
        let _ = in_trait_impl;
        let sp = lit(&spec);
        let at = lit(&attr_txt);
        let mut body: Vec<TokenTree> = body.into_iter().collect();
        // splice the contract in front of the body
        if let Some(TokenTree::Group(g)) = body.pop() {
            let inner = g.stream();
            let ng = proc_macro2::Group::new(proc_macro2::Delimiter::Brace, quote!(__gx_pre!{#sp} ; #inner));
            return quote!(__gx_fn!{#key} __gx_raw!{#at} #(#cfg)* #pub_vis #sig #ng __gx_endfn!{#key});
        }
        unreachable!()
    }

    fn raw_section(&mut self, key: &str, sec: &str) -> TokenStream {
        if let Some(b) = self.contract(key) {
            if let Some(t) = b.get(sec) {
                let l = lit(t);
                return quote!(__gx_raw!{#l});
            }
        }
        TokenStream::new()
    }

    fn items(&mut self, items: &[Item], module: &str, dir: &Path, out: &mut TokenStream) {
        // helpers: uncontracted private functions of this module are candidates for inlining
        let mut hs: BTreeMap<String, Helper> = BTreeMap::new();
        for it in items {
            match it {
                Item::Use(u) => {
                    let first = match &u.tree {
                        UseTree::Path(p) => p.ident.to_string(),
                        _ => String::new(),
                    };
                    if !["std", "core", "alloc"].contains(&first.as_str()) {
                        let set = self.imports.entry(module.to_string()).or_default();
                        leaves(&u.tree, set);
                    }
                }
                Item::Fn(f) => {
                    let key = norm_key(&format!("{}::{}", module, f.sig.ident));
                    if attrs_drop(&f.attrs).is_some() && !self.c.blocks.contains_key(&key) {
                        hs.insert(f.sig.ident.to_string(), Helper { sig: f.sig.clone(), block: (*f.block).clone(), is_method: false, free: true });
                    }
                }
                Item::Impl(im) if im.trait_.is_none() && attrs_drop(&im.attrs).is_some() => {
                    let tn = type_name(&im.self_ty);
                    for x in &im.items {
                        if let ImplItem::Fn(f) = x {
                            let key = norm_key(&format!("{}::{}::{}", module, tn, f.sig.ident));
                            if !self.c.blocks.contains_key(&key) && attrs_drop(&f.attrs).is_some() {
                                let m = f.sig.receiver().is_some();
                                let h = Helper { sig: f.sig.clone(), block: f.block.clone(), is_method: m, free: false };
                                hs.insert(f.sig.ident.to_string(), h.clone());
                                hs.insert(format!("{}::{}", tn, f.sig.ident), h);
                            }
                        }
                    }
                }
                _ => {}
            }
        }
        self.helpers.insert(module.to_string(), hs);

        out.extend(self.raw_section(&format!("mod {}", module), "top"));
        for it in items {
            self.item(it, module, dir, out);
        }
        out.extend(self.raw_section(&format!("mod {}", module), "items"));
    }

    fn item(&mut self, it: &Item, module: &str, dir: &Path, out: &mut TokenStream) {
        match it {
            Item::Mod(m) => {
                let Some(_) = attrs_drop(&m.attrs) else {
                    return;
                };
                let name = m.ident.to_string();
                let sub = if module.is_empty() { name.clone() } else { format!("{}::{}", module, name) };
                let vis = &m.vis;
                let id = &m.ident;
                let mut inner = TokenStream::new();
                match &m.content {
                    Some((_, its)) => self.items(its, &sub, dir, &mut inner),
                    None => {
                        let c1 = dir.join(format!("{}.rs", name));
                        let c2 = dir.join(&name).join("mod.rs");
                        let (p, d): (PathBuf, PathBuf) = if c1.exists() {
                            (c1, dir.join(&name))
                        } else {
                            (c2, dir.join(&name))
                        };
                        let txt = std::fs::read_to_string(&p).unwrap_or_else(|e| fail(&format!("cannot read {}: {}", p.display(), e)));
                        let mut f: File = parse_file(&txt).unwrap_or_else(|e| fail(&format!("cannot parse {}: {}", p.display(), e)));
                        fields::prepass(&mut f, &sub, &self.c, &mut self.rep.log);
                        let save = std::mem::replace(&mut self.file, p.display().to_string());
                        self.items(&f.items, &sub, &d, &mut inner);
                        self.file = save;
                    }
                }
                let pre = self.raw_section("mod *", "top");
                let _ = vis;
                out.extend(quote!(pub mod #id { #pre #inner }));
            }
            Item::Fn(f) => {
                let key = if module.is_empty() { f.sig.ident.to_string() } else { format!("{}::{}", module, f.sig.ident) };
                let t = self.emit_fn(&key, &f.attrs, f.vis.to_token_stream(), &f.sig, Some(&f.block), module, false);
                out.extend(t);
            }
            Item::Impl(im) => {
                if attrs_drop(&im.attrs).is_none() {
                    return;
                }
                let tn = type_name(&im.self_ty);
                let base = match &im.trait_ {
                    None => format!("{}::{}", module, tn),
                    Some((_, p, _)) => {
                        let t = p.segments.last().unwrap().ident.to_string();
                        if t == "Display" && self.contract(&format!("{}::{} as Display::fmt", module, tn)).is_some() {
                            // as an inherent method: Verus has no trait Display
                            let mut gen = im.generics.clone();
                            strip_bounds(&mut gen);
                            let (ig, _, wc) = gen.split_for_impl();
                            let st = &im.self_ty;
                            let mut inner = TokenStream::new();
                            for x in &im.items {
                                if let ImplItem::Fn(f) = x {
                                    let k = format!("{}::{} as Display::{}", module, tn, f.sig.ident);
                                    inner.extend(self.emit_fn(&k, &f.attrs, quote!(pub), &f.sig, Some(&f.block), module, false));
                                }
                            }
                            out.extend(quote!(impl #ig #st #wc { #inner }));
                            return;
                        }
                        if t == "Display" || t == "Debug" {
                            self.rep.dropped.push(format!("impl {} for {} ({})", t, tn, self.file));
                            return;
                        }
                        format!("{}::{} as {}", module, tn, t)
                    }
                };
                let mut key = base.clone();
                let special = format!("{}::{}", module, type_full(&im.self_ty));
                if im.trait_.is_none() && special != base && self.c.blocks.keys().any(|k| k.starts_with(&format!("impl {}", special))) {
                    key = special;
                }
                let ib = self.contract(&format!("impl {}", key));
                let attr = ib.as_ref().and_then(|b| b.get("attr")).unwrap_or("").to_string();
                let mut gen = im.generics.clone();
                strip_bounds(&mut gen);
                let (ig, _, wc) = gen.split_for_impl();
                let st = &im.self_ty;
                let tr = im.trait_.as_ref().map(|(b, p, f)| quote!(#b #p #f));
                let mut inner = TokenStream::new();
                if let Some(t) = ib.as_ref().and_then(|b| b.get("items")) {
                    let l = lit(t);
                    inner.extend(quote!(__gx_raw!{#l}));
                }
                for x in &im.items {
                    match x {
                        // Iterator::next becomes an inherent method of the same name, which method calls
                        // prefer; see DESIGN.md, "Extraction"
                        ImplItem::Fn(f) if f.sig.ident == "next" && key.ends_with(" as Iterator") && self.contract(&format!("{}::next", key)).is_some() => {
                            let k = format!("{}::next", key);
                            let it = im.items.iter().find_map(|x| match x {
                                ImplItem::Type(t) if t.ident == "Item" => Some(t.ty.clone()),
                                _ => None,
                            });
                            let mut f = f.clone();
                            if let Some(ty) = it {
                                AssocItem { ty }.visit_impl_item_fn_mut(&mut f);
                            }
                            let m = self.emit_fn(&k, &f.attrs, quote!(pub), &f.sig, Some(&f.block), module, false);
                            out.extend(quote!(impl #ig #st #wc { #m }));
                            inner.extend(quote!(#[verifier::external_body] fn next(&mut self) -> Option<Self::Item> { unimplemented!() }));
                        }
                        ImplItem::Fn(f) => {
                            let k = format!("{}::{}", key, f.sig.ident);
                            inner.extend(self.emit_fn(&k, &f.attrs, f.vis.to_token_stream(), &f.sig, Some(&f.block), module, im.trait_.is_some()));
                        }
                        ImplItem::Type(t) => inner.extend(quote!(#t)),
                        ImplItem::Const(c) => inner.extend(quote!(#c)),
                        o => self.rep.dropped.push(format!("impl item {}", o.to_token_stream())),
                    }
                }
                let al = lit(&attr);
                let al = if attr.is_empty() { quote!() } else { quote!(__gx_raw!{#al}) };
                out.extend(quote!(#al impl #ig #tr #st #wc { #inner }));
            }
            Item::Trait(t) => {
                if attrs_drop(&t.attrs).is_none() {
                    return;
                }
                let key = format!("{}::{}", module, t.ident);
                let mut inner = TokenStream::new();
                inner.extend(self.raw_section(&format!("trait {}", key), "items"));
                for x in &t.items {
                    match x {
                        TraitItem::Fn(f) => {
                            let k = format!("{}::{}", key, f.sig.ident);
                            inner.extend(self.emit_fn(&k, &f.attrs, quote!(), &f.sig, f.default.as_ref(), module, false));
                        }
                        o => inner.extend(o.to_token_stream()),
                    }
                }
                let (vis, id) = (&t.vis, &t.ident);
                let mut g = t.generics.clone();
                strip_bounds(&mut g);
                let st: Vec<&TypeParamBound> = t.supertraits.iter().filter(|b| !is_fmt_bound(b)).collect();
                let sup = if st.is_empty() { quote!() } else { quote!(: #(#st)+*) };
                let (_, _, wc) = g.split_for_impl();
                out.extend(quote!(#vis trait #id #g #sup #wc { #inner }));
            }
            Item::Struct(s) => {
                if attrs_drop(&s.attrs).is_none() {
                    return;
                }
                let key = format!("struct {}::{}", module, s.ident);
                let d = derives(&s.attrs);
                let mut s2 = s.clone();
                s2.attrs.clear();
                strip_bounds(&mut s2.generics);
                for f in s2.fields.iter_mut() {
                    f.attrs.clear();
                }
                let b = self.contract(&key);
                let at = lit(b.as_ref().and_then(|b| b.get("attr")).unwrap_or(""));
                let mut dv = TokenStream::new();
                if d.contains(&"Copy".to_string()) {
                    dv = quote!(#[derive(Clone, Copy)]);
                }
                out.extend(quote!(__gx_raw!{#at} #dv #s2));
                if d.contains(&"Clone".to_string()) && !d.contains(&"Copy".to_string()) {
                    if let Some(t) = b.as_ref().and_then(|b| b.get("derived clone")) {
                        // what derive(Clone) means: each field is cloned
                        let all: Vec<String> = s2
                            .fields
                            .iter()
                            .filter_map(|f| f.ident.as_ref().map(|i| format!("{}: self.{}.clone()", i, i)))
                            .collect();
                        let l = lit(&t.replace("GX_FIELDS", &all.join(", ")));
                        out.extend(quote!(__gx_raw!{#l}));
                    }
                }
            }
            Item::Enum(e) => {
                if attrs_drop(&e.attrs).is_none() {
                    return;
                }
                let mut e2 = e.clone();
                e2.attrs.clear();
                for v in e2.variants.iter_mut() {
                    v.attrs.clear();
                }
                out.extend(quote!(#e2));
            }
            Item::Const(c) => {
                if attrs_drop(&c.attrs).is_none() {
                    return;
                }
                let key = format!("const {}::{}", module, c.ident);
                if let Some(b) = self.contract(&key) {
                    let (id, ty, ex) = (&c.ident, &c.ty, &c.expr);
                    let sp = lit(b.get("spec").unwrap_or(""));
                    let entry = b.get("entry").map(|t| {
                        let l = lit(t);
                        quote!(__gx_raw!{#l})
                    });
                    let at = lit(b.get("attr").unwrap_or(""));
                    let fkey = key.clone();
                    let vis = &c.vis;
                    let info = FnInfo {
                        file: self.file.clone(),
                        line: c.ident.span().start().line,
                        kind: if self.demote.contains_key(&fkey) { "demoted".into() } else { "contracted".into() },
                        props: b.get("props").unwrap_or("").to_string(),
                        ..Default::default()
                    };
                    let kind = info.kind.clone();
                    self.rep.functions.insert(fkey.clone(), info);
                    if kind == "demoted" || b.get("trusted").is_some() {
                        self.rep.functions.get_mut(&fkey).unwrap().kind = if kind == "demoted" { kind } else { "trusted".into() };
                        out.extend(quote!(__gx_fn!{#fkey} #[verifier::external_body] #vis exec const #id: #ty __gx_raw!{#sp} { unimplemented!() } __gx_endfn!{#fkey}));
                    } else {
                        out.extend(quote!(__gx_fn!{#fkey} __gx_raw!{#at} #vis exec const #id: #ty { __gx_pre!{#sp} ; #entry #ex } __gx_endfn!{#fkey}));
                    }
                } else {
                    let mut c2 = c.clone();
                    c2.attrs.clear();
                    out.extend(quote!(#c2));
                }
            }
            Item::Use(u) => {
                if attrs_drop(&u.attrs).is_none() {
                    return;
                }
                let s = u.to_token_stream().to_string();
                if self.capi {
                    let mut u2 = u.clone();
                    u2.attrs.clear();
                    struct R;
                    impl VisitMut for R {
                        fn visit_use_path_mut(&mut self, p: &mut UsePath) {
                            if p.ident == "graphrox" {
                                p.ident = format_ident!("crate");
                            }
                            visit_mut::visit_use_path_mut(self, p);
                        }
                    }
                    R.visit_item_use_mut(&mut u2);
                    out.extend(quote!(#u2));
                    return;
                }
                let _ = s;
                let mut u2 = u.clone();
                u2.attrs.clear();
                out.extend(quote!(#u2));
            }
            Item::Type(t) => {
                let mut t = t.clone();
                t.attrs.clear();
                t.vis = parse_quote!(pub);
                out.extend(quote!(#t));
            }
            o => {
                let s = o.to_token_stream().to_string();
                self.rep.dropped.push(format!("item {}", &s[..s.len().min(60)]));
                out.extend(o.to_token_stream());
            }
        }
    }
}

/// writes `Self::Item` out
struct AssocItem {
    ty: Type,
}
impl VisitMut for AssocItem {
    fn visit_type_mut(&mut self, t: &mut Type) {
        if t.to_token_stream().to_string().replace(' ', "") == "Self::Item" {
            *t = self.ty.clone();
            return;
        }
        visit_mut::visit_type_mut(self, t);
    }
}

fn block_nontrivial() -> bool {
    true
}

fn is_fmt_bound(b: &TypeParamBound) -> bool {
    if let TypeParamBound::Trait(t) = b {
        let n = t.path.segments.last().unwrap().ident.to_string();
        return n == "Debug" || n == "Display";
    }
    false
}
fn strip_bounds(g: &mut Generics) {
    for p in g.params.iter_mut() {
        if let GenericParam::Type(t) = p {
            let keep: Vec<TypeParamBound> = t.bounds.iter().filter(|b| !is_fmt_bound(b)).cloned().collect();
            t.bounds = keep.into_iter().collect();
        }
    }
    if let Some(w) = g.where_clause.as_mut() {
        for p in w.predicates.iter_mut() {
            if let WherePredicate::Type(t) = p {
                let keep: Vec<TypeParamBound> = t.bounds.iter().filter(|b| !is_fmt_bound(b)).cloned().collect();
                t.bounds = keep.into_iter().collect();
            }
        }
    }
}

fn fail(s: &str) -> ! {
    eprintln!("gxtract: {}", s);
    std::process::exit(3)
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn leaves(t: &UseTree, out: &mut BTreeSet<String>) {
    match t {
        UseTree::Path(p) => leaves(&p.tree, out),
        UseTree::Name(n) => {
            out.insert(n.ident.to_string());
        }
        UseTree::Rename(_) => {}
        UseTree::Glob(_) => {
            out.insert("*".into());
        }
        UseTree::Group(g) => g.items.iter().for_each(|i| leaves(i, out)),
    }
}

fn run(cx: &mut Cx, repo: &Path, py: Option<&Path>) -> TokenStream {
    let src = repo.join("graphrox-rs/src");
    let lib = src.join("lib.rs");
    let txt = std::fs::read_to_string(&lib).unwrap_or_else(|e| fail(&format!("{}", e)));
    let f: File = parse_file(&txt).unwrap_or_else(|e| fail(&format!("cannot parse lib.rs: {}", e)));
    cx.file = lib.display().to_string();
    let mut out = TokenStream::new();
    cx.items(&f.items, "", &src, &mut out);
    let cl = repo.join("graphrox-c/src/lib.rs");
    if cx.c.blocks.contains_key("mod capi") && cl.exists() {
        let txt = std::fs::read_to_string(&cl).unwrap();
        let f: File = parse_file(&txt).unwrap_or_else(|e| fail(&format!("cannot parse C lib.rs: {}", e)));
        cx.file = cl.display().to_string();
        cx.capi = true;
        let mut f = f;
        capi::prepass(&mut f, &mut cx.rep.log);
        let mut inner = TokenStream::new();
        cx.items(&f.items, "capi", &src, &mut inner);
        let pre = cx.raw_section("mod *", "top");
        out.extend(quote!(pub mod capi { #pre #inner }));
    }
    // the Python wrapper, as tool/pyx.py translates it
    if let (Some(py), true) = (py, cx.c.blocks.contains_key("mod py")) {
        let txt = std::fs::read_to_string(py).unwrap_or_else(|e| fail(&format!("{}", e)));
        let f: File = parse_file(&txt).unwrap_or_else(|e| fail(&format!("cannot parse the translated wrapper: {}", e)));
        cx.file = "graphrox-py/graphrox/__init__.py".into();
        cx.capi = true;
        let mut inner = TokenStream::new();
        cx.items(&f.items, "py", &src, &mut inner);
        let pre = cx.raw_section("mod *", "top");
        out.extend(quote!(pub mod py { #pre #inner }));
    }
    out
}

fn main() {
    let mut repo = PathBuf::from("/repo");
    let mut cdir = PathBuf::from("/verif/contracts");
    let mut outp = PathBuf::from("/tmp/gen.rs");
    let mut repp = PathBuf::from("/tmp/gen.json");
    let mut demote = BTreeMap::new();
    let mut vacuity = false;
    let mut py: Option<PathBuf> = None;
    let mut a = std::env::args().skip(1);
    while let Some(x) = a.next() {
        let mut v = || a.next().expect("value");
        match x.as_str() {
            "--repo" => repo = v().into(),
            "--contracts" => cdir = v().into(),
            "--py" => py = Some(v().into()),
            "--out" => outp = v().into(),
            "--report" => repp = v().into(),
            "--demote" => {
                let s = v();
                let (k, r) = s.split_once('=').unwrap_or((&s, "demoted"));
                demote.insert(norm_key(k), r.to_string());
            }
            "--vacuity" => vacuity = true,
            o => fail(&format!("unknown argument {}", o)),
        }
    }
    let mut c = Contracts::default();
    let mut files: Vec<PathBuf> = std::fs::read_dir(&cdir).unwrap().map(|e| e.unwrap().path()).collect();
    files.sort();
    let mut prelude = String::new();
    let mut postlude = String::new();
    for f in &files {
        let t = std::fs::read_to_string(f).unwrap();
        match f.extension().and_then(|x| x.to_str()) {
            Some("ctr") => c.parse(&t, &f.display().to_string()),
            Some("rs") => {
                if f.file_name().unwrap().to_str().unwrap().starts_with("post") {
                    postlude.push_str(&t)
                } else {
                    prelude.push_str(&t)
                }
            }
            _ => {}
        }
    }
    let shapes: BTreeMap<String, String> = std::fs::read_to_string(cdir.join("shapes.txt"))
        .unwrap_or_default()
        .lines()
        .filter_map(|l| l.split_once('\t'))
        .map(|(a, b)| (a.to_string(), b.to_string()))
        .collect();
    let new_cx = |c: Contracts| Cx {
        c,
        demote: demote.clone(),
        used: BTreeSet::new(),
        rep: Report::default(),
        file: String::new(),
        shapes: shapes.clone(),
        helpers: BTreeMap::new(),
        capi: false,
        imports: BTreeMap::new(),
        bare: BTreeSet::new(),
        moved: BTreeMap::new(),
        vacuity,
    };
    // first pass: what there is
    let mut cx = new_cx(c.clone());
    let _ = run(&mut cx, &repo, py.as_deref());
    let bare: BTreeSet<String> = cx.rep.functions.iter().filter(|(_, f)| f.kind == "bare").map(|(k, _)| k.clone()).collect();
    let mut moved: BTreeMap<String, String> = BTreeMap::new();
    let tail = |k: &str| -> Vec<String> { k.split("::").map(|x| x.to_string()).collect() };
    for k in c.blocks.keys() {
        if cx.used.contains(k) || k.contains(' ') {
            continue;
        }
        // a function that is gone, while one of the same name has come up elsewhere: same contract
        let name = tail(k).pop().unwrap();
        let to: Vec<&String> = bare.iter().filter(|b| tail(b).last() == Some(&name) && !b.contains(' ')).collect();
        if to.len() == 1 {
            moved.entry(to[0].clone()).or_insert_with(|| k.clone());
        }
    }
    let mut c2 = c.clone();
    let mut shapes2 = shapes.clone();
    let mut followed: BTreeSet<String> = BTreeSet::new();
    for (to, from) in &moved {
        let b = c.blocks[from].clone();
        if let Some(x) = shapes.get(from) {
            shapes2.insert(to.clone(), x.clone());
        }
        c2.blocks.insert(to.clone(), b);
        let name = tail(from).pop().unwrap();
        for k in c.blocks.keys() {
            if !cx.used.contains(k) && !k.contains(' ') && tail(k).last() == Some(&name) {
                followed.insert(k.clone());
            }
        }
    }
    for k in &followed {
        c2.blocks.remove(k);
    }
    let helpers = cx.helpers;
    let mut cx = new_cx(c2);
    cx.shapes = shapes2;
    cx.bare = bare.into_iter().filter(|k| !moved.contains_key(k)).collect();
    cx.moved = moved;
    cx.helpers = helpers; // of all the modules
    let out = run(&mut cx, &repo, py.as_deref());
    let mut p = printer::Printer::new();
    p.raw("// generated by gxtract from /repo; do not edit");
    p.raw(&prelude);
    p.raw("verus! {");
    p.ts(out);
    p.raw(&postlude);
    p.raw("} // verus!\nfn main() {}");
    std::fs::write(&outp, &p.out).unwrap();
    for (k, start, line) in &p.marks {
        if let Some(f) = cx.rep.functions.get_mut(k) {
            if *start {
                f.gen_start = *line;
            } else {
                f.gen_end = *line;
            }
        }
    }
    for k in cx.c.blocks.keys() {
        if !cx.used.contains(k) && k != "mod *" && k != "mod " {
            cx.rep.missing.push(k.clone());
        }
    }
    // report
    let mut s = String::from("{\n\"functions\": {\n");
    let mut first = true;
    for (k, f) in &cx.rep.functions {
        if !first {
            s.push_str(",\n");
        }
        first = false;
        let arr = |v: &Vec<String>| format!("[{}]", v.iter().map(|x| js(x)).collect::<Vec<_>>().join(","));
        s.push_str(&format!(
            "{}: {{\"file\":{},\"line\":{},\"kind\":{},\"props\":{},\"loops\":{},\"shape\":{},\"problems\":{},\"soft\":{},\"private\":{},\"inlined\":{},\"gen\":[{},{}]}}",
            js(k), js(&f.file), f.line, js(&f.kind), js(&f.props), f.loops, js(&f.shape), arr(&f.problems), arr(&f.soft), f.private, arr(&f.inlined), f.gen_start, f.gen_end
        ));
    }
    s.push_str("\n},\n\"dropped\": [");
    s.push_str(&cx.rep.dropped.iter().map(|x| js(x)).collect::<Vec<_>>().join(","));
    s.push_str("],\n\"missing\": [");
    s.push_str(&cx.rep.missing.iter().map(|x| js(x)).collect::<Vec<_>>().join(","));
    s.push_str("],\n\"rewrites\": {");
    s.push_str(&cx.rep.log.iter().map(|(k, v)| format!("{}: {}", js(k), v)).collect::<Vec<_>>().join(","));
    s.push_str("}\n}\n");
    std::fs::write(&repp, s).unwrap();
}

/// accumulators are numbered in order of appearance
fn number_accumulators(blk: Block) -> Block {
    fn collect(ts: TokenStream, seen: &mut Vec<String>) {
        for t in ts {
            match t {
                TokenTree::Ident(i) => {
                    let s = i.to_string();
                    if (s.starts_with("gx_out_t") || s.starts_with("gx_n_t") || s.starts_with("gx_b_t")) && !seen.contains(&s) {
                        seen.push(s);
                    }
                }
                TokenTree::Group(g) => collect(g.stream(), seen),
                _ => {}
            }
        }
    }
    let mut seen: Vec<String> = vec![];
    let mut ren = BTreeMap::new();
    collect(blk.to_token_stream(), &mut seen);
    for (i, s) in seen.iter().enumerate() {
        let p = &s[..s.rfind("_t").unwrap()];
        ren.insert(s.clone(), format!("{}{}", p, i));
    }
    if ren.is_empty() {
        return blk;
    }
    parse2(rename_tokens(blk.to_token_stream(), &ren)).unwrap()
}
