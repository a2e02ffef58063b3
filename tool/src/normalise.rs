//! Mechanical, meaning-preserving rewrites of function bodies into the subset Verus accepts.
//! Every rewrite applied is recorded in `log` and reported in the evidence.
use proc_macro2::{Literal, Span};
use quote::{format_ident, quote, ToTokens};
use std::collections::{BTreeMap, BTreeSet};
use syn::visit_mut::{self, VisitMut};
use syn::*;

pub struct Norm<'a> {
    pub next: usize,
    pub log: BTreeMap<String, usize>,
    /// locals known to be `Wrapping`
    pub wrapping: BTreeSet<String>,
    pub helpers: &'a BTreeMap<String, Helper>,
    pub inline_depth: usize,
    pub inlined: BTreeSet<String>,
    pub ptrs: BTreeSet<String>,
}

#[derive(Clone)]
pub struct Helper {
    pub sig: Signature,
    pub block: Block,
    pub is_method: bool,
    pub free: bool,
}

fn raw_expr(ts: proc_macro2::TokenStream) -> Expr {
    parse2(ts.clone()).unwrap_or_else(|e| panic!("internal: cannot build {}: {}", ts, e))
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    Opt,
    Res,
    Iter,
    Unknown,
}

fn path_last(e: &Expr) -> Option<String> {
    if let Expr::Path(p) = e {
        return p.path.segments.last().map(|s| s.ident.to_string());
    }
    None
}

fn kind_of(e: &Expr) -> Kind {
    match e {
        Expr::Paren(p) => kind_of(&p.expr),
        Expr::MethodCall(m) => match m.method.to_string().as_str() {
            "ok" | "get" | "get_mut" | "first" | "last" | "ok_or_none" | "pop" | "as_ref" | "as_mut" | "next" | "then"
            | "then_some" | "insert" | "checked_add" | "checked_mul" | "checked_sub" | "checked_div" | "checked_rem"
            | "checked_pow" | "checked_shl" | "checked_shr" | "find" | "max" | "min" => Kind::Opt,
            "ok_or" | "ok_or_else" | "map_err" | "try_into" | "try_reserve_exact" | "try_reserve" | "matrix_string"
            | "to_bytes" | "try_to_string" | "to_string_with_precision" => Kind::Res,
            "and_then" | "map" | "copied" | "cloned" | "filter" | "or_else" | "or" => kind_of(&m.receiver),
            "iter" | "into_iter" | "values" | "keys" | "values_mut" | "iter_mut" | "chunks_exact" => Kind::Iter,
            _ => Kind::Unknown,
        },
        Expr::Call(c) => match path_last(&c.func).as_deref() {
            Some("try_from") | Some("Ok") | Some("Err") | Some("from_utf8") => Kind::Res,
            Some("Some") => Kind::Opt,
            Some(x) if x.starts_with("read_") || x.starts_with("validate_") => Kind::Res,
            _ => Kind::Unknown,
        },
        Expr::Match(m) => {
            let mut k = Kind::Unknown;
            for a in &m.arms {
                let ka = match &*a.body {
                    Expr::Path(p) if p.path.is_ident("None") => Kind::Opt,
                    b => kind_of(b),
                };
                if ka != Kind::Unknown {
                    k = ka;
                }
            }
            k
        }
        Expr::Path(p) if p.path.is_ident("None") => Kind::Opt,
        Expr::Range(_) => Kind::Iter,
        Expr::Block(b) => match b.block.stmts.last() {
            Some(Stmt::Expr(e, None)) => kind_of(e),
            _ => Kind::Unknown,
        },
        Expr::If(i) => match i.then_branch.stmts.last() {
            Some(Stmt::Expr(e, None)) => kind_of(e),
            _ => Kind::Unknown,
        },
        _ => Kind::Unknown,
    }
}

struct HasCtl {
    ret: bool,
    q: bool,
}
impl<'ast> syn::visit::Visit<'ast> for HasCtl {
    fn visit_expr_return(&mut self, _: &'ast ExprReturn) {
        self.ret = true;
    }
    fn visit_expr_try(&mut self, t: &'ast ExprTry) {
        self.q = true;
        syn::visit::visit_expr_try(self, t);
    }
    fn visit_expr_closure(&mut self, _: &'ast ExprClosure) {}
}
fn ctl(e: &Expr) -> HasCtl {
    let mut h = HasCtl { ret: false, q: false };
    syn::visit::Visit::visit_expr(&mut h, e);
    h
}
fn ctl_block(b: &Block) -> HasCtl {
    let mut h = HasCtl { ret: false, q: false };
    syn::visit::Visit::visit_block(&mut h, b);
    h
}

/// `A?.m(x)` as the body of a closure returning Option: `match A { Some(q) => q.m(x), None => None }`
fn unquestion(body: &Expr, n: &mut usize, res: bool) -> Option<Expr> {
    // find the leftmost-evaluated `?` along the receiver spine
    fn take(e: &mut Expr, id: &Ident) -> Option<Expr> {
        match e {
            Expr::Try(t) => {
                let inner = (*t.expr).clone();
                if ctl(&inner).q {
                    return take(&mut t.expr, id);
                }
                *e = raw_expr(quote!(#id));
                Some(inner)
            }
            Expr::MethodCall(m) => {
                if ctl(&m.receiver).q {
                    take(&mut m.receiver, id)
                } else {
                    None
                }
            }
            Expr::Call(c) if c.args.len() == 1 => take(&mut c.args[0], id),
            Expr::Paren(p) => take(&mut p.expr, id),
            Expr::Binary(b) => {
                if ctl(&b.left).q {
                    take(&mut b.left, id)
                } else {
                    None
                }
            }
            _ => None,
        }
    }
    let h = ctl(body);
    if h.ret {
        return None;
    }
    if !h.q {
        return Some(body.clone());
    }
    let mut b = body.clone();
    if let Expr::Block(bl) = &b {
        if bl.block.stmts.len() == 1 {
            if let Some(Stmt::Expr(e, None)) = bl.block.stmts.first() {
                b = e.clone();
            }
        }
    }
    *n += 1;
    let id = format_ident!("gx_q_t{}", *n);
    let inner = take(&mut b, &id)?;
    let rest = unquestion(&b, n, res)?;
    Some(if res {
        raw_expr(quote!(match #inner { Ok(#id) => #rest, Err(gx_e) => Err(gx_e) }))
    } else {
        raw_expr(quote!(match #inner { Some(#id) => #rest, None => None }))
    })
}

fn strip_ref_pat(p: &Pat) -> Option<Pat> {
    match p {
        Pat::Reference(r) => Some((*r.pat).clone()),
        Pat::Paren(r) => strip_ref_pat(&r.pat),
        _ => None,
    }
}
fn untype(p: &Pat) -> Pat {
    match p {
        Pat::Type(t) => (*t.pat).clone(),
        Pat::Paren(t) => untype(&t.pat),
        p => p.clone(),
    }
}

#[derive(Clone)]
enum Fun {
    Closure(Vec<Pat>, Expr),
    Path(Expr),
}
fn as_fun(e: &Expr) -> Option<Fun> {
    match e {
        Expr::Closure(c) => Some(Fun::Closure(c.inputs.iter().map(untype).collect(), (*c.body).clone())),
        Expr::Path(_) => Some(Fun::Path(e.clone())),
        Expr::Paren(p) => as_fun(&p.expr),
        _ => None,
    }
}

impl<'a> Norm<'a> {
    pub fn new(helpers: &'a BTreeMap<String, Helper>) -> Self {
        Norm {
            next: 0,
            log: BTreeMap::new(),
            wrapping: BTreeSet::new(),
            helpers,
            inline_depth: 0,
            inlined: BTreeSet::new(),
            ptrs: BTreeSet::new(),
        }
    }
    fn note(&mut self, s: &str) {
        *self.log.entry(s.to_string()).or_insert(0) += 1;
    }
    fn fresh(&mut self) -> usize {
        self.next += 1;
        self.next
    }

    /// call of a (closure|path) on one argument expression (by value)
    fn apply1(&mut self, f: &Fun, arg: &Expr) -> Option<Expr> {
        match f {
            Fun::Path(p) => Some(raw_expr(quote!(#p(#arg)))),
            Fun::Closure(ps, body) => {
                if ps.len() != 1 || ctl(body).ret || ctl(body).q {
                    return None;
                }
                let p = &ps[0];
                if let Pat::Wild(_) = p {
                    return Some(raw_expr(quote!({ #body })));
                }
                Some(raw_expr(quote!({ let #p = #arg; #body })))
            }
        }
    }
    /// apply to `&arg` where arg is a local ident
    fn apply_ref(&mut self, f: &Fun, arg: &Ident) -> Option<Expr> {
        match f {
            Fun::Path(p) => Some(raw_expr(quote!(#p(&#arg)))),
            Fun::Closure(ps, body) => {
                if ps.len() != 1 || ctl(body).ret || ctl(body).q {
                    return None;
                }
                if let Some(q) = strip_ref_pat(&ps[0]) {
                    return Some(raw_expr(quote!({ let #q = #arg; #body })));
                }
                let p = &ps[0];
                if let Pat::Wild(_) = p {
                    return Some(raw_expr(quote!({ #body })));
                }
                // tuple pattern against &tuple: bind through references explicitly
                Some(raw_expr(quote!({ let #p = &#arg; #body })))
            }
        }
    }

    /// Decompose an iterator chain into (source expression, adapters) if it is one we know.
    fn chain(&self, e: &Expr) -> Option<(Expr, Vec<(String, Option<Fun>)>)> {
        match e {
            Expr::Paren(p) => self.chain(&p.expr),
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                match n.as_str() {
                    "iter" | "values" | "keys" | "values_mut" | "iter_mut" | "into_iter" if m.args.is_empty() => {
                        Some((e.clone(), vec![]))
                    }
                    "map" | "filter" | "filter_map" | "flat_map" if m.args.len() == 1 => {
                        let (s, mut a) = self.chain(&m.receiver)?;
                        a.push((n, Some(as_fun(&m.args[0])?)));
                        Some((s, a))
                    }
                    "copied" | "cloned" if m.args.is_empty() => {
                        let (s, mut a) = self.chain(&m.receiver)?;
                        a.push((n, None));
                        Some((s, a))
                    }
                    _ => None,
                }
            }
            Expr::Range(_) => Some((e.clone(), vec![])),
            _ => None,
        }
    }

    /// the same with `flat_map`s of them
    fn mut_each(&mut self, src: &Expr, pat: &Pat, body: &Block) -> Option<Expr> {
        let Expr::MethodCall(r) = src else { return None };
        if r.method == "flat_map" && r.args.len() == 1 {
            let Expr::Closure(c) = &r.args[0] else { return None };
            if c.inputs.len() != 1 || ctl(&c.body).ret {
                return None;
            }
            let inner = self.mut_each(&c.body, pat, body)?;
            return self.mut_each(&r.receiver, &c.inputs[0], &parse_quote!({ #inner }));
        }
        let f: ExprForLoop = parse_quote!(for #pat in #src #body);
        self.mut_loop(&f)
    }

    /// `for v in m.values_mut() { B }` -> loop over the keys of m, with B on `m.get_mut(&key)`
    fn mut_loop(&mut self, f: &ExprForLoop) -> Option<Expr> {
        let Expr::MethodCall(m) = &*f.expr else { return None };
        let kind = m.method.to_string();
        if !m.args.is_empty() || (kind != "values_mut" && kind != "iter_mut") {
            return None;
        }
        let id = format!("t{}", self.fresh());
        let (ks, i, k) = (format_ident!("gx_ks_{}", id), format_ident!("gx_i_{}", id), format_ident!("gx_e_{}", id));
        let (r, pat, stmts, lab) = (&m.receiver, &f.pat, &f.body.stmts, &f.label);
        let item = if kind == "values_mut" { quote!(gx_v) } else { quote!((&#k, gx_v)) };
        let bind = match pat.as_ref() {
            Pat::Tuple(t) if t.elems.len() == 2 && kind == "iter_mut" => {
                let (a, b) = (&t.elems[0], &t.elems[1]);
                let a = if let Pat::Wild(_) = a { quote!() } else { quote!(let #a = &#k;) };
                let b = if let Pat::Wild(_) = b { quote!() } else { quote!(let #b = gx_v;) };
                quote!(#a #b)
            }
            _ => quote!(let #pat = #item;),
        };
        self.note("for over values_mut/iter_mut -> loop over the keys with get_mut");
        Some(raw_expr(quote!({
            let #ks = #r.gx_keys();
            let mut #i: usize = 0;
            #lab while #i < #ks.len() {
                __gx_loopid!{#id};
                let #k = #ks[#i];
                #i += 1;
                match #r.get_mut(&#k) {
                    Some(gx_v) => { #bind #(#stmts)* }
                    None => {}
                };
            }
        })))
    }

    /// Build a loop over `src` applying adapters, with `inner(item)` producing the loop body.
    fn build_loop(
        &mut self,
        src: &Expr,
        adapters: &[(String, Option<Fun>)],
        inner: &mut dyn FnMut(&mut Self, &Expr) -> Option<Expr>,
        label: &Option<Label>,
    ) -> Option<Expr> {
        let id = self.fresh();
        let elem = format_ident!("gx_e_t{}", id);
        // fold the adapters from the inside out
        fn go<'x>(
            me: &mut Norm<'x>,
            adapters: &[(String, Option<Fun>)],
            item: &Expr,
            inner: &mut dyn FnMut(&mut Norm<'x>, &Expr) -> Option<Expr>,
        ) -> Option<Expr> {
            if adapters.is_empty() {
                return inner(me, item);
            }
            let (n, f) = &adapters[0];
            match n.as_str() {
                "copied" | "cloned" => {
                    let it = raw_expr(quote!((*#item)));
                    go(me, &adapters[1..], &it, inner)
                }
                "map" => {
                    let v = me.apply1(f.as_ref().unwrap(), item)?;
                    let k = me.fresh();
                    let x = format_ident!("gx_m_t{}", k);
                    let xe = raw_expr(quote!(#x));
                    let rest = go(me, &adapters[1..], &xe, inner)?;
                    Some(raw_expr(quote!({ let #x = #v; #rest })))
                }
                "filter" => {
                    let k = me.fresh();
                    let x = format_ident!("gx_f_t{}", k);
                    let c = me.apply_ref(f.as_ref().unwrap(), &x)?;
                    let xe = raw_expr(quote!(#x));
                    let rest = go(me, &adapters[1..], &xe, inner)?;
                    Some(raw_expr(quote!({ let #x = #item; let gx_c = #c; if gx_c { #rest } })))
                }
                "flat_map" => {
                    let Fun::Closure(ps, b) = f.as_ref().unwrap() else { return None };
                    if ps.len() != 1 || ctl(b).ret || ctl(b).q {
                        return None;
                    }
                    let (s2, mut a2) = me.chain(b)?;
                    a2.extend(adapters[1..].iter().cloned());
                    let l = me.build_loop(&s2, &a2, inner, &None)?;
                    let p = &ps[0];
                    Some(raw_expr(quote!({ let #p = #item; #l; })))
                }
                "filter_map" => {
                    let v = me.apply1(f.as_ref().unwrap(), item)?;
                    let k = me.fresh();
                    let x = format_ident!("gx_m_t{}", k);
                    let xe = raw_expr(quote!(#x));
                    let rest = go(me, &adapters[1..], &xe, inner)?;
                    Some(raw_expr(quote!(if let Some(#x) = #v { #rest })))
                }
                _ => None,
            }
        }
        let lid = format!("t{}", id);
        if let Expr::Range(r) = src {
            if let (Some(a), Some(b)) = (&r.start, &r.end) {
                let i = format_ident!("gx_i_t{}", id);
                let end = format_ident!("gx_end_t{}", id);
                let ie = raw_expr(quote!(#elem));
                let body = go(self, adapters, &ie, inner)?;
                let plain = |a: &Expr| -> proc_macro2::TokenStream {
                    if let Expr::Lit(_) = a {
                        quote!(#a)
                    } else {
                        quote!((#a))
                    }
                };
                let (a, b) = (plain(a), plain(b));
                self.note("for over an integer range -> while");
                return Some(match r.limits {
                    RangeLimits::HalfOpen(_) => raw_expr(quote!({
                        let mut #i = #a;
                        let #end = #b;
                        #label while #i < #end {
                            __gx_loopid!{#lid};
                            let #elem = #i;
                            #i += 1;
                            #body
                        }
                    })),
                    RangeLimits::Closed(_) => {
                        let done = format_ident!("gx_done_t{}", id);
                        raw_expr(quote!({
                            let mut #i = #a;
                            let #end = #b;
                            let mut #done = #i > #end;
                            #label while !#done {
                                __gx_loopid!{#lid};
                                let #elem = #i;
                                if #i < #end { #i += 1; } else { #done = true; }
                                #body
                            }
                        }))
                    }
                });
            }
            return None;
        }
        let it = format_ident!("gx_it_t{}", id);
        let ie = raw_expr(quote!(#elem));
        // values() and keys() of a map yield the parts of what iter() yields
        let (src, bound) = match src {
            Expr::MethodCall(m) if m.args.is_empty() && (m.method == "values" || m.method == "keys") => {
                let r = &m.receiver;
                let key = format_ident!("gx_k_t{}", id);
                let b = if m.method == "values" { quote!((#key, #elem)) } else { quote!((#elem, _)) };
                (raw_expr(quote!(#r.iter())), b)
            }
            _ => (src.clone(), quote!(#elem)),
        };
        let src = &src;
        let body = go(self, adapters, &ie, inner)?;
        let init = match src {
            Expr::MethodCall(m) if m.method != "into_iter" && self.chain(src).is_some() => quote!(#src),
            Expr::MethodCall(m) if m.method == "into_iter" => {
                let r = &m.receiver;
                quote!(IntoIterator::into_iter(#r))
            }
            _ => quote!(IntoIterator::into_iter(#src)),
        };
        self.note("for/iterator chain -> loop over Iterator::next");
        Some(raw_expr(quote!({
            let mut #it = #init;
            #label loop {
                __gx_loopid!{#lid};
                match #it.next() {
                    None => break,
                    Some(#bound) => #body
                }
            }
        })))
    }

    fn lower_method(&mut self, m: &ExprMethodCall) -> Option<Expr> {
        let name = m.method.to_string();
        let recv = &m.receiver;
        let k = kind_of(recv);
        match name.as_str() {
            "collect" => {
                let turbofish_ok = match &m.turbofish {
                    None => true,
                    Some(t) => quote!(#t).to_string().contains("Vec"),
                };
                if !turbofish_ok {
                    return None;
                }
                let (s, a) = self.chain(recv)?;
                let id = self.fresh();
                let out = format_ident!("gx_out_t{}", id);
                let o2 = out.clone();
                let l = self.build_loop(
                    &s,
                    &a,
                    &mut |_me, item| Some(raw_expr(quote!({ #o2.push(#item); }))),
                    &None,
                )?;
                Some(raw_expr(quote!({ let mut #out = Vec::new(); #l; #out })))
            }
            "count" if m.args.is_empty() => {
                let (s, a) = self.chain(recv)?;
                let id = self.fresh();
                let out = format_ident!("gx_n_t{}", id);
                let o2 = out.clone();
                let l = self.build_loop(&s, &a, &mut |_me, item| Some(raw_expr(quote!({ let _ = #item; #o2 += 1; }))), &None)?;
                Some(raw_expr(quote!({ let mut #out: usize = 0; #l; #out })))
            }
            "any" | "all" if m.args.len() == 1 => {
                let (s, a) = self.chain(recv)?;
                if a.iter().any(|x| x.0 == "flat_map") {
                    return None;
                }
                let f = as_fun(&m.args[0])?;
                let id = self.fresh();
                let out = format_ident!("gx_b_t{}", id);
                let o2 = out.clone();
                let is_any = name == "any";
                let l = self.build_loop(
                    &s,
                    &a,
                    &mut |me, item| {
                        let c = me.apply1(&f, item)?;
                        Some(if is_any {
                            raw_expr(quote!({ let gx_c = #c; if gx_c { #o2 = true; break; } }))
                        } else {
                            raw_expr(quote!({ let gx_c = #c; if !gx_c { #o2 = false; break; } }))
                        })
                    },
                    &None,
                )?;
                let init = !is_any;
                Some(raw_expr(quote!({ let mut #out = #init; #l; #out })))
            }
            "for_each" if m.args.len() == 1 => {
                if let Expr::Closure(c) = &m.args[0] {
                    if c.inputs.len() == 1 && !ctl(&c.body).ret {
                        let body = &c.body;
                        if let Some(n) = self.mut_each(recv, &c.inputs[0], &parse_quote!({ #body; })) {
                            return Some(n);
                        }
                    }
                }
                let (s, a) = self.chain(recv)?;
                let f = as_fun(&m.args[0])?;
                self.build_loop(
                    &s,
                    &a,
                    &mut |me, item| {
                        let c = me.apply1(&f, item)?;
                        Some(raw_expr(quote!({ #c; })))
                    },
                    &None,
                )
            }
            "extend" if m.args.len() == 1 => {
                let (s, a) = self.chain(&m.args[0])?;
                let r = recv.clone();
                self.build_loop(&s, &a, &mut |_me, item| Some(raw_expr(quote!({ #r.push(#item); }))), &None)
            }
            "map_err" if m.args.len() == 1 => {
                let f = as_fun(&m.args[0])?;
                let v = self.fresh();
                let (o, e) = (format_ident!("gx_o_t{}", v), format_ident!("gx_x_t{}", v));
                let ee = raw_expr(quote!(#e));
                let b = self.apply1(&f, &ee)?;
                self.note("Result::map_err -> match");
                Some(raw_expr(quote!(match #recv { Ok(#o) => Ok(#o), Err(#e) => Err(#b) })))
            }
            "ok_or_else" if m.args.len() == 1 => {
                let b = match as_fun(&m.args[0])? {
                    Fun::Closure(p, b) if p.is_empty() && !ctl(&b).ret && !ctl(&b).q => b,
                    Fun::Path(p) => raw_expr(quote!(#p())),
                    _ => return None,
                };
                let v = self.fresh();
                let o = format_ident!("gx_o_t{}", v);
                self.note("Option::ok_or_else -> match");
                Some(raw_expr(quote!(match #recv { Some(#o) => Ok(#o), None => Err(#b) })))
            }
            "and_then" | "map" if m.args.len() == 1 && k != Kind::Iter => {
                if self.chain(recv).is_some() {
                    return None;
                }
                let f = as_fun(&m.args[0])?;
                let is_res = k == Kind::Res;
                let v = self.fresh();
                let o = format_ident!("gx_o_t{}", v);
                let (pat, mut body): (Pat, Expr) = match f {
                    Fun::Path(p) => (parse_quote!(#o), raw_expr(quote!(#p(#o)))),
                    Fun::Closure(ps, b) if ps.len() == 1 => (ps[0].clone(), b),
                    _ => return None,
                };
                if ctl(&body).ret {
                    return None;
                }
                if ctl(&body).q {
                    if name == "map" {
                        return None;
                    }
                    body = unquestion(&body, &mut self.next, is_res)?;
                }
                self.note("Option/Result and_then/map -> match");
                Some(if is_res {
                    let ok = if name == "map" { quote!(Ok(#body)) } else { quote!(#body) };
                    raw_expr(quote!(match #recv { Ok(#pat) => #ok, Err(gx_e) => Err(gx_e) }))
                } else {
                    let ok = if name == "map" { quote!(Some(#body)) } else { quote!(#body) };
                    raw_expr(quote!(match #recv { Some(#pat) => #ok, None => None }))
                })
            }
            // Option::unwrap_or and Option::ok_or are specified in vstd
            "unwrap_or_else" | "unwrap_or" if m.args.len() == 1 && (name != "unwrap_or" || k == Kind::Res) => {
                let v = self.fresh();
                let o = format_ident!("gx_o_t{}", v);
                let (b, takes) = if name == "unwrap_or" {
                    (m.args[0].clone(), false)
                } else {
                    match as_fun(&m.args[0])? {
                        Fun::Closure(p, b) if p.is_empty() && !ctl(&b).ret && !ctl(&b).q => (b, false),
                        Fun::Closure(p, b) if p.len() == 1 && !ctl(&b).ret && !ctl(&b).q => {
                            let p = &p[0];
                            (raw_expr(quote!({ let #p = gx_e; #b })), true)
                        }
                        Fun::Path(p) if k != Kind::Res => (raw_expr(quote!(#p())), false),
                        _ => return None,
                    }
                };
                self.note("unwrap_or(_else) -> match");
                if name == "unwrap_or" {
                    return Some(raw_expr(quote!({ let gx_dv = #b; match #recv { Ok(#o) => #o, Err(_) => gx_dv } })));
                }
                Some(if k == Kind::Res || takes {
                    raw_expr(quote!(match #recv { Ok(#o) => #o, Err(gx_e) => #b }))
                } else {
                    raw_expr(quote!(match #recv { Some(#o) => #o, None => #b }))
                })
            }
            "map_or" | "map_or_else" | "is_some_and" | "is_none_or" => {
                let v = self.fresh();
                let o = format_ident!("gx_o_t{}", v);
                let oe = raw_expr(quote!(#o));
                let (dflt, f) = match name.as_str() {
                    "is_some_and" => (raw_expr(quote!(false)), as_fun(m.args.first()?)?),
                    "is_none_or" => (raw_expr(quote!(true)), as_fun(m.args.first()?)?),
                    "map_or" => (m.args[0].clone(), as_fun(&m.args[1])?),
                    _ => (
                        match as_fun(&m.args[0])? {
                            Fun::Closure(p, b) if p.is_empty() && !ctl(&b).ret && !ctl(&b).q => b,
                            Fun::Path(p) => raw_expr(quote!(#p())),
                            _ => return None,
                        },
                        as_fun(&m.args[1])?,
                    ),
                };
                let b = self.apply1(&f, &oe)?;
                self.note("map_or/is_some_and -> match");
                if name == "map_or" && !simple(&dflt) {
                    let (y, n) = if k == Kind::Res { (quote!(Ok(#o)), quote!(Err(_))) } else { (quote!(Some(#o)), quote!(None)) };
                    return Some(raw_expr(quote!({ let gx_dv = #dflt; match #recv { #y => #b, #n => gx_dv } })));
                }
                Some(if k == Kind::Res {
                    raw_expr(quote!(match #recv { Ok(#o) => #b, Err(_) => #dflt }))
                } else {
                    raw_expr(quote!(match #recv { Some(#o) => #b, None => #dflt }))
                })
            }
            "then" if m.args.len() == 1 => match as_fun(&m.args[0])? {
                Fun::Closure(p, b) if p.is_empty() && !ctl(&b).ret && !ctl(&b).q => {
                    self.note("bool::then -> if");
                    Some(raw_expr(quote!(if #recv { Some(#b) } else { None })))
                }
                _ => None,
            },
            "then_some" if m.args.len() == 1 => {
                let b = &m.args[0];
                self.note("bool::then_some -> if");
                Some(raw_expr(quote!({ let gx_v = #b; if #recv { Some(gx_v) } else { None } })))
            }
            "try_into" if m.args.is_empty() => {
                self.note("x.try_into() -> TryFrom::try_from(x)");
                Some(raw_expr(quote!(core::convert::TryFrom::try_from(#recv))))
            }
            "to_be_bytes" if m.args.is_empty() => {
                self.note("x.to_be_bytes() -> trusted wrapper");
                Some(raw_expr(quote!(#recv.gx_to_be_bytes())))
            }
            "or_insert_with" | "or_insert" if m.args.len() == 1 => {
                let r = match &**recv {
                    Expr::Paren(p) => (*p.expr).clone(),
                    e => e.clone(),
                };
                let modify = match &r {
                    Expr::MethodCall(mm) if mm.method == "and_modify" && mm.args.len() == 1 => Some(mm.clone()),
                    _ => None,
                };
                if name == "or_insert" && modify.is_none() {
                    return None;
                }
                let (pre, dflt) = if name == "or_insert" {
                    let a = &m.args[0];
                    (quote!(let gx_dv = #a;), raw_expr(quote!(gx_dv)))
                } else {
                    (quote!(), match as_fun(&m.args[0])? {
                        Fun::Closure(p, b) if p.is_empty() && !ctl(&b).ret && !ctl(&b).q => b,
                        Fun::Path(p) => raw_expr(quote!(#p())),
                        _ => return None,
                    })
                };
                let (src, body) = match &modify {
                    None => (r.clone(), quote!()),
                    Some(mm) => match as_fun(&mm.args[0])? {
                        Fun::Closure(p, b) if p.len() == 1 && !ctl(&b).ret && !ctl(&b).q => {
                            let p = untype(&p[0]);
                            ((*mm.receiver).clone(), quote!({ let #p = gx_oc.get_mut(); #b; }))
                        }
                        _ => return None,
                    },
                };
                self.note("Entry::and_modify/or_insert_with -> match");
                Some(raw_expr(quote!({ #pre match #src {
                    std::collections::hash_map::Entry::Occupied(mut gx_oc) => { #body gx_oc.into_mut() }
                    std::collections::hash_map::Entry::Vacant(gx_va) => gx_va.insert(#dflt)
                } })))
            }
            "contains" if m.args.len() == 1 => {
                let r = match &**recv {
                    Expr::Paren(p) => &*p.expr,
                    e => e,
                };
                if let Expr::Range(r) = r {
                    let x = match &m.args[0] {
                        Expr::Reference(r) => (*r.expr).clone(),
                        e => raw_expr(quote!(*(#e))),
                    };
                    let lo = r.start.as_ref().map(|s| quote!((#s) <= gx_v)).unwrap_or(quote!(true));
                    let hi = match (&r.end, &r.limits) {
                        (None, _) => quote!(true),
                        (Some(e), RangeLimits::Closed(_)) => quote!(gx_v <= (#e)),
                        (Some(e), RangeLimits::HalfOpen(_)) => quote!(gx_v < (#e)),
                    };
                    self.note("range.contains -> comparisons");
                    return Some(raw_expr(quote!({ let gx_v = #x; #lo && #hi })));
                }
                None
            }
            _ => None,
        }
    }

    fn helper_of(&self, e: &Expr) -> Option<Helper> {
        match e {
            Expr::Call(c) => match &*c.func {
                Expr::Path(p) => {
                    let n = p.path.segments.last()?.ident.to_string();
                    self.helpers.get(&n).or_else(|| self.helpers.get(&format!("crate::{}", n))).cloned()
                }
                _ => None,
            },
            Expr::MethodCall(m) => self.helpers.get(&m.method.to_string()).cloned(),
            _ => None,
        }
    }

    fn inline_call(&mut self, e: &Expr, questioned: bool) -> Option<Expr> {
        let (name, recv, args): (String, Option<Expr>, Vec<Expr>) = match e {
            Expr::Call(c) => {
                let Expr::Path(p) = &*c.func else { return None };
                let first = p.path.segments[0].ident.to_string();
                let last = p.path.segments.last()?.ident.to_string();
                let n = p.path.segments.len();
                let module = n >= 2 && p.path.segments[n - 2].ident.to_string().chars().next().map_or(false, |c| c.is_lowercase());
                if module && !["std", "core", "alloc"].contains(&first.as_str()) {
                    // a function of a module
                    let k = if self.helpers.get(&last).map_or(false, |h| h.free) { last.clone() } else { format!("crate::{}", last) };
                    if !self.helpers.contains_key(&k) || !["crate", "self", "super", "util", "error", "graph", "matrix", "standard", "compressed"].contains(&first.as_str()) {
                        return None;
                    }
                    (k, None, c.args.iter().cloned().collect())
                } else if n > 2 {
                    return None;
                } else if n == 2 && first != "Self" {
                    let n = format!("{}::{}", p.path.segments[0].ident, p.path.segments[1].ident);
                    if !self.helpers.contains_key(&n) {
                        return None;
                    }
                    (n, None, c.args.iter().cloned().collect())
                } else {
                    (p.path.segments.last()?.ident.to_string(), None, c.args.iter().cloned().collect())
                }
            }
            Expr::MethodCall(m) => (
                m.method.to_string(),
                Some((*m.receiver).clone()),
                m.args.iter().cloned().collect(),
            ),
            _ => return None,
        };
        let h = self.helpers.get(&name)?.clone();
        if h.is_method != recv.is_some() || self.inline_depth > 4 {
            return None;
        }
        let mut blk = h.block.clone();
        let c = ctl_block(&blk);
        let opt = returns(&h.sig, "Option");
        if c.q && (!questioned || opt) && (opt || returns(&h.sig, "Result")) {
            // `?` becomes an early return, which becomes nesting
            let mut n = self.next;
            let stmts = hoist_q(&blk.stmts, &mut n, !opt)?;
            self.next = n;
            blk = Block { brace_token: blk.brace_token, stmts };
        }
        let c = ctl_block(&blk);
        if c.ret && (!questioned || opt) {
            blk = Block { brace_token: blk.brace_token, stmts: elim_returns(&blk.stmts)? };
            if ctl_block(&blk).ret {
                return None;
            }
        }
        let c = ctl_block(&blk);
        if c.q && (!questioned || opt) {
            return None;
        }
        if c.ret && questioned {
            // only `return Err(..)` may remain
            let mut ok = OnlyErrReturns(true);
            syn::visit::Visit::visit_block(&mut ok, &blk);
            if !ok.0 {
                return None;
            }
        }
        let mut lets: Vec<Stmt> = vec![];
        let mut ai = args.into_iter();
        // arguments are evaluated in the caller's scope before any parameter is bound
        let mut temps: Vec<(Ident, Expr, Pat, Type)> = vec![];
        let mut self_sub: Option<Expr> = None;
        for inp in &h.sig.inputs {
            match inp {
                FnArg::Receiver(_) => {
                    let r = recv.clone()?;
                    if !matches!(r, Expr::Path(_) | Expr::Field(_)) {
                        return None;
                    }
                    self_sub = Some(r);
                }
                FnArg::Typed(t) => {
                    let a = ai.next()?;
                    // the ghost parameter has the same name everywhere
                    if quote!(#t).to_string().starts_with("Tracked (gx_h)") {
                        continue;
                    }
                    let id = self.fresh();
                    temps.push((format_ident!("gx_a_t{}", id), a, (*t.pat).clone(), (*t.ty).clone()));
                }
            }
        }
        for (id, a, _, ty) in &temps {
            // a type that names the helper's own parameters means nothing here
            let gen: Vec<String> = h.sig.generics.params.iter().map(|p| match p {
                GenericParam::Type(t) => t.ident.to_string(),
                GenericParam::Lifetime(l) => l.lifetime.to_string(),
                GenericParam::Const(c) => c.ident.to_string(),
            }).collect();
            let txt = quote!(#ty).to_string();
            let has_impl = txt.contains("impl ") || txt.split(|c: char| !c.is_alphanumeric() && c != '_' && c != '\'').any(|w| gen.iter().any(|g| g == w));
            if has_impl {
                lets.push(parse_quote!(let #id = #a;));
            } else {
                lets.push(parse_quote!(let #id: #ty = #a;));
            }
        }
        for (id, _, p, _) in &temps {
            lets.push(parse_quote!(let #p = #id;));
        }
        if let Some(s) = self_sub {
            struct Sub(Expr);
            impl VisitMut for Sub {
                fn visit_expr_mut(&mut self, e: &mut Expr) {
                    if let Expr::Path(p) = e {
                        if p.path.is_ident("self") {
                            *e = self.0.clone();
                            return;
                        }
                    }
                    visit_mut::visit_expr_mut(self, e);
                }
            }
            Sub(s).visit_block_mut(&mut blk);
        }
        lets.extend(blk.stmts);
        self.inlined.insert(name.clone());
        self.note(&format!("inlined uncontracted helper {}", name));
        Some(raw_expr(quote!({ #(#lets)* })))
    }
}

/// does the signature return `Option<..>` / `Result<..>`?
fn returns(sig: &Signature, name: &str) -> bool {
    match &sig.output {
        ReturnType::Type(_, t) => match &**t {
            Type::Path(p) => p.path.segments.last().map_or(false, |s| s.ident == name),
            _ => false,
        },
        _ => false,
    }
}

/// `?` -> `let v = match .. { Some(v) => v, None => return None }` in front of the statement, in
/// evaluation order; None where something with an effect might come before it.
fn hoist_q(stmts: &[Stmt], n: &mut usize, res: bool) -> Option<Vec<Stmt>> {
    fn simple(e: &Expr) -> bool {
        match e {
            Expr::Path(_) | Expr::Lit(_) => true,
            Expr::Field(f) => simple(&f.base),
            Expr::Reference(r) => r.mutability.is_none() && simple(&r.expr),
            Expr::Paren(p) => simple(&p.expr),
            Expr::Cast(c) => simple(&c.expr),
            _ => false,
        }
    }
    fn seq(mut es: Vec<&mut Expr>, out: &mut Vec<Stmt>, n: &mut usize, res: bool) -> Option<()> {
        for i in 0..es.len() {
            if ctl(es[i]).q || ctl(es[i]).ret {
                if es[..i].iter().any(|e| !simple(e)) {
                    return None;
                }
                hoist(es[i], out, n, res)?;
            }
        }
        Some(())
    }
    fn block(b: &mut Block, n: &mut usize, res: bool) -> Option<()> {
        b.stmts = hoist_q(&b.stmts, n, res)?;
        Some(())
    }
    fn hoist(e: &mut Expr, out: &mut Vec<Stmt>, n: &mut usize, res: bool) -> Option<()> {
        if !ctl(e).q {
            return Some(());
        }
        match e {
            Expr::Try(t) => {
                hoist(&mut t.expr, out, n, res)?;
                *n += 1;
                let id = format_ident!("gx_q_t{}", *n);
                let x = &t.expr;
                let m = if res {
                    raw_expr(quote!(match #x { Ok(gx_v) => gx_v, Err(gx_e) => return Err(gx_e) }))
                } else {
                    raw_expr(quote!(match #x { Some(gx_v) => gx_v, None => return None }))
                };
                out.push(parse_quote!(let #id = #m;));
                *e = raw_expr(quote!(#id));
                Some(())
            }
            Expr::MethodCall(m) => {
                let mut v = vec![&mut *m.receiver];
                v.extend(m.args.iter_mut());
                seq(v, out, n, res)
            }
            Expr::Call(c) => seq(c.args.iter_mut().collect(), out, n, res),
            Expr::Tuple(t) => seq(t.elems.iter_mut().collect(), out, n, res),
            Expr::Struct(t) => seq(t.fields.iter_mut().map(|f| &mut f.expr).collect(), out, n, res),
            Expr::Index(x) => seq(vec![&mut *x.expr, &mut *x.index], out, n, res),
            Expr::Binary(b) => {
                if matches!(b.op, BinOp::And(_) | BinOp::Or(_)) && ctl(&b.right).q {
                    return None;
                }
                seq(vec![&mut *b.left, &mut *b.right], out, n, res)
            }
            Expr::Unary(x) => hoist(&mut x.expr, out, n, res),
            Expr::Cast(x) => hoist(&mut x.expr, out, n, res),
            Expr::Paren(x) => hoist(&mut x.expr, out, n, res),
            Expr::Reference(x) => hoist(&mut x.expr, out, n, res),
            Expr::Field(x) => hoist(&mut x.base, out, n, res),
            Expr::Let(x) => hoist(&mut x.expr, out, n, res),
            Expr::Return(r) => hoist(r.expr.as_mut()?, out, n, res),
            Expr::If(f) => {
                hoist(&mut f.cond, out, n, res)?;
                block(&mut f.then_branch, n, res)?;
                if let Some((_, el)) = &mut f.else_branch {
                    if ctl(el).q {
                        let mut inner = vec![];
                        hoist(el, &mut inner, n, res)?;
                        if !inner.is_empty() {
                            let x = el.clone();
                            **el = raw_expr(quote!({ #(#inner)* #x }));
                        }
                    }
                }
                Some(())
            }
            Expr::Match(m) => {
                hoist(&mut m.expr, out, n, res)?;
                for a in &mut m.arms {
                    if a.guard.as_ref().map_or(false, |g| ctl(&g.1).q) {
                        return None;
                    }
                    if ctl(&a.body).q {
                        let st = hoist_q(&[Stmt::Expr((*a.body).clone(), None)], n, res)?;
                        a.body = Box::new(raw_expr(quote!({ #(#st)* })));
                    }
                }
                Some(())
            }
            Expr::Block(b) if b.label.is_none() => block(&mut b.block, n, res),
            _ => None,
        }
    }
    let mut out = vec![];
    for s in stmts {
        let mut s = s.clone();
        match &mut s {
            Stmt::Expr(e, _) => hoist(e, &mut out, n, res)?,
            Stmt::Local(l) => {
                if let Some(i) = &mut l.init {
                    hoist(&mut i.expr, &mut out, n, res)?;
                    if let Some((_, d)) = &mut i.diverge {
                        if ctl(d).q {
                            return None;
                        }
                    }
                }
            }
            _ => {}
        }
        out.push(s);
    }
    Some(out)
}

struct OnlyErrReturns(bool);
impl<'ast> syn::visit::Visit<'ast> for OnlyErrReturns {
    fn visit_expr_return(&mut self, r: &'ast ExprReturn) {
        let ok = match &r.expr {
            Some(e) => matches!(&**e, Expr::Call(c) if path_last(&c.func).as_deref() == Some("Err")),
            None => false,
        };
        if !ok {
            self.0 = false;
        }
    }
}

/// Rewrite a statement list with early `return`s into one without (structured cases only).
fn elim_returns(stmts: &[Stmt]) -> Option<Vec<Stmt>> {
    for (i, s) in stmts.iter().enumerate() {
        let has = match s {
            Stmt::Expr(e, _) => ctl(e).ret,
            Stmt::Local(l) => l
                .init
                .as_ref()
                .map(|x| ctl(&x.expr).ret || x.diverge.as_ref().map(|d| ctl(&d.1).ret).unwrap_or(false))
                .unwrap_or(false),
            _ => false,
        };
        if !has {
            continue;
        }
        let mut out: Vec<Stmt> = stmts[..i].to_vec();
        let rest = &stmts[i + 1..];
        match s {
            Stmt::Expr(Expr::Return(r), _) => {
                if let Some(e) = &r.expr {
                    out.push(Stmt::Expr((**e).clone(), None));
                }
                return Some(out);
            }
            Stmt::Expr(Expr::If(f), _) => {
                let then = elim_returns(&f.then_branch.stmts)?;
                let then_diverges = diverges(&f.then_branch.stmts);
                let cond = &f.cond;
                if f.else_branch.is_none() && then_diverges {
                    let rest = elim_returns(rest)?;
                    out.push(Stmt::Expr(raw_expr(quote!(if #cond { #(#then)* } else { #(#rest)* })), None));
                    return Some(out);
                }
                if rest.is_empty() {
                    if let Some((_, eb)) = &f.else_branch {
                        let eb = match &**eb {
                            Expr::Block(b) => elim_returns(&b.block.stmts)?,
                            e => elim_returns(&[Stmt::Expr(e.clone(), None)])?,
                        };
                        out.push(Stmt::Expr(raw_expr(quote!(if #cond { #(#then)* } else { #(#eb)* })), None));
                        return Some(out);
                    }
                }
                return None;
            }
            Stmt::Local(l) => {
                let init = l.init.as_ref()?;
                let pat = &l.pat;
                let rest = elim_returns(rest)?;
                if let Some((_, d)) = &init.diverge {
                    let e = &init.expr;
                    let d = match &**d {
                        Expr::Block(b) => elim_returns(&b.block.stmts)?,
                        _ => return None,
                    };
                    out.push(Stmt::Expr(raw_expr(quote!(match #e { #pat => { #(#rest)* } _ => { #(#d)* } })), None));
                    return Some(out);
                }
                if let Expr::Match(m) = &*init.expr {
                    let mut arms = vec![];
                    for a in &m.arms {
                        let p = &a.pat;
                        let g = a.guard.as_ref().map(|(_, g)| quote!(if #g));
                        match &*a.body {
                            Expr::Return(r) => {
                                let e = r.expr.as_ref().map(|e| quote!(#e)).unwrap_or(quote!(()));
                                arms.push(quote!(#p #g => { #e }));
                            }
                            b if !ctl(b).ret => arms.push(quote!(#p #g => { let #pat = #b; #(#rest)* })),
                            _ => return None,
                        }
                    }
                    let e = &m.expr;
                    out.push(Stmt::Expr(raw_expr(quote!(match #e { #(#arms),* })), None));
                    return Some(out);
                }
                return None;
            }
            Stmt::Expr(Expr::Match(m), _) if rest.is_empty() => {
                let mut m = m.clone();
                for a in &mut m.arms {
                    let st = match &*a.body {
                        Expr::Block(b) => elim_returns(&b.block.stmts)?,
                        e => elim_returns(&[Stmt::Expr(e.clone(), None)])?,
                    };
                    a.body = Box::new(raw_expr(quote!({ #(#st)* })));
                    a.comma = Some(Default::default());
                }
                out.push(Stmt::Expr(Expr::Match(m), None));
                return Some(out);
            }
            _ => return None,
        }
    }
    Some(stmts.to_vec())
}
fn diverges(s: &[Stmt]) -> bool {
    matches!(s.last(), Some(Stmt::Expr(Expr::Return(_), _)))
}

fn pat_idents(p: &Pat, out: &mut Vec<Ident>) {
    struct V<'a>(&'a mut Vec<Ident>);
    impl<'a, 'ast> syn::visit::Visit<'ast> for V<'a> {
        fn visit_pat_ident(&mut self, p: &'ast PatIdent) {
            let s = p.ident.to_string();
            if s.chars().next().unwrap().is_lowercase() || s.starts_with('_') {
                self.0.push(p.ident.clone());
            }
        }
    }
    syn::visit::Visit::visit_pat(&mut V(out), p);
}

impl<'a> VisitMut for Norm<'a> {
    fn visit_block_mut(&mut self, b: &mut Block) {
        // a constant inside a function is visible in its whole block: a local at the top of it
        if b.stmts.iter().any(|s| matches!(s, Stmt::Item(Item::Const(_)))) {
            let mut first = vec![];
            let mut rest = vec![];
            for s in b.stmts.drain(..) {
                match s {
                    Stmt::Item(Item::Const(c)) => {
                        let (n, t, e) = (&c.ident, &c.ty, &c.expr);
                        self.note("const inside a function -> local");
                        first.push(parse_quote!(let #n: #t = #e;));
                    }
                    s => rest.push(s),
                }
            }
            first.append(&mut rest);
            b.stmts = first;
        }
        visit_mut::visit_block_mut(self, b);
    }

    fn visit_local_mut(&mut self, l: &mut Local) {
        if let (Pat::Ident(p), Some(i)) = (&l.pat, &l.init) {
            if let Expr::Call(c) = &*i.expr {
                if path_last(&c.func).as_deref() == Some("Wrapping") {
                    self.wrapping.insert(p.ident.to_string());
                }
            }
        }
        visit_mut::visit_local_mut(self, l);
        if let Some(init) = &l.init {
            if let Some((_, d)) = &init.diverge {
                let mut ids = vec![];
                pat_idents(&l.pat, &mut ids);
                let e = &init.expr;
                let pat = &l.pat;
                // drop `mut` inside the pattern; rebind mutably outside
                let ids2 = ids.clone();
                let mutable = quote!(#pat).to_string().contains("mut ");
                if !mutable {
                    let ex = if ids.len() == 1 {
                        let i = &ids[0];
                        raw_expr(quote!(match #e { #pat => #i, _ => #d }))
                    } else {
                        raw_expr(quote!(match #e { #pat => (#(#ids),*), _ => #d }))
                    };
                    let np: Pat = if ids2.len() == 1 {
                        let i = &ids2[0];
                        parse_quote!(#i)
                    } else {
                        parse_quote!((#(#ids2),*))
                    };
                    self.note("let-else -> match");
                    l.pat = np;
                    l.init = Some(LocalInit { eq_token: Default::default(), expr: Box::new(ex), diverge: None });
                }
            }
        }
    }

    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // helper inlining happens before descending so the inlined body is normalised too
        if self.inline_depth < 4 {
            let done = match e {
                Expr::Try(t) => {
                    let opt = self.helper_of(&t.expr).map_or(false, |h| returns(&h.sig, "Option"));
                    self.inline_call(&t.expr, true).map(|b| if opt {
                        raw_expr(quote!(match #b { Some(gx_v) => gx_v, None => return None }))
                    } else {
                        raw_expr(quote!(match #b { Ok(gx_v) => gx_v, Err(gx_e) => return Err(gx_e) }))
                    })
                }
                Expr::Call(_) | Expr::MethodCall(_) => self.inline_call(e, false),
                _ => None,
            };
            if let Some(n) = done {
                *e = n;
                self.inline_depth += 1;
                self.visit_expr_mut(e);
                self.inline_depth -= 1;
                return;
            }
        }
        if let Expr::Macro(m) = e {
            if m.mac.path.segments.last().map_or(false, |p| p.ident == "format") {
                if let Some(n) = format_macro(m.mac.tokens.clone()) {
                    self.note("format! -> trusted wrappers, one per piece of the format string");
                    *e = n;
                }
            }
        }
        if let Expr::Path(p) = e {
            let s: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
            if s.ends_with(&["fmt".to_string(), "Error".to_string()]) {
                self.note("the unit value fmt::Error -> gx_fmt_error()");
                *e = raw_expr(quote!(gx_fmt_error()));
                return;
            }
        }
        if let Expr::Macro(m) = e {
            if m.mac.path.segments.last().map_or(false, |p| p.ident == "write") {
                if let Ok(w) = syn::parse2::<WriteArgs>(m.mac.tokens.clone()) {
                    if let Some(n) = format_macro(w.rest) {
                        self.note("write! -> write_str of the formatted text");
                        let f = w.to;
                        *e = raw_expr(quote!(#f.write_str(&#n)));
                    }
                }
            }
        }
        // `for` with an iterator chain: take the chain apart before its pieces are rewritten
        visit_mut::visit_expr_mut(self, e);
        match e {
            Expr::ForLoop(f) => {
                if let Some(n) = self.mut_loop(f) {
                    *e = n;
                    return;
                }
                if f.label.is_none() && !f.body.to_token_stream().to_string().contains("break") {
                    if let Some(n) = self.mut_each(&f.expr, &f.pat, &f.body) {
                        *e = n;
                        return;
                    }
                }
                let body = f.body.clone();
                let pat = (*f.pat).clone();
                let (src, ad) = self.chain(&f.expr).unwrap_or(((*f.expr).clone(), vec![]));
                let label = f.label.clone();
                if ad.iter().any(|x| x.0 == "flat_map") && (label.is_some() || body.to_token_stream().to_string().contains("break")) {
                    return;
                }
                if let Some(n) = self.build_loop(
                    &src,
                    &ad,
                    &mut |_me, item| {
                        let stmts = &body.stmts;
                        Some(if let Pat::Wild(_) = pat {
                            raw_expr(quote!({ #(#stmts)* }))
                        } else {
                            raw_expr(quote!({ let #pat = #item; #(#stmts)* }))
                        })
                    },
                    &label,
                ) {
                    *e = n;
                }
            }
            Expr::While(w) => {
                if let Expr::Let(l) = &*w.cond {
                    let (p, x, b, lab) = (&l.pat, &l.expr, &w.body, &w.label);
                    let id = format!("t{}", self.fresh());
                    self.note("while let -> loop/match");
                    *e = raw_expr(quote!(#lab loop { __gx_loopid!{#id}; match #x { #p => #b, _ => break } }));
                }
            }
            Expr::MethodCall(m) => {
                let m = m.clone();
                if let Some(n) = self.lower_method(&m) {
                    *e = n;
                }
            }
            Expr::Call(c) => {
                if let Expr::Path(p) = &*c.func {
                    let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                    if segs.len() == 2 && segs[1] == "from_be_bytes" {
                        let f = format_ident!("gx_{}_from_be_bytes", segs[0]);
                        let a = &c.args;
                        self.note("uN::from_be_bytes -> trusted wrapper");
                        *e = raw_expr(quote!(#f(#a)));
                    }
                }
            }
            Expr::Binary(b) => {
                let num = |e: &Expr| -> bool {
                    let Expr::Call(c) = e else { return false };
                    let Expr::Path(p) = &*c.func else { return false };
                    p.path.segments.len() == 2
                        && p.path.segments[0].ident == "T"
                        && ["zero", "one"].iter().any(|n| p.path.segments[1].ident == n)
                };
                if matches!(b.op, BinOp::Eq(_) | BinOp::Ne(_)) && (num(&b.left) || num(&b.right)) {
                    let (l, r) = (&b.left, &b.right);
                    self.note("== on a numeric type parameter -> trusted wrapper");
                    *e = if matches!(b.op, BinOp::Eq(_)) {
                        raw_expr(quote!(gx_num_eq(#l, #r)))
                    } else {
                        raw_expr(quote!(!gx_num_eq(#l, #r)))
                    };
                    return;
                }
                let plain = match b.op {
                    BinOp::AddAssign(_) => Some(quote!(+)),
                    BinOp::SubAssign(_) => Some(quote!(-)),
                    BinOp::MulAssign(_) => Some(quote!(*)),
                    BinOp::DivAssign(_) => Some(quote!(/)),
                    _ => None,
                };
                if let (Some(op), Expr::Unary(u)) = (plain, &*b.left) {
                    if let (UnOp::Deref(_), Expr::Path(p)) = (u.op, &*u.expr) {
                        let r = &b.right;
                        self.note("compound assignment through a reference -> assignment");
                        *e = raw_expr(quote!(*#p = *#p #op (#r)));
                        return;
                    }
                }
                if let BinOp::ShlAssign(_) = b.op {
                    if let Expr::Path(p) = &*b.left {
                        if let Some(id) = p.path.get_ident() {
                            if self.wrapping.contains(&id.to_string()) {
                                let r = &b.right;
                                self.note("Wrapping <<= -> trusted wrapper");
                                *e = raw_expr(quote!(#id = gx_wrapping_shl(#id, #r)));
                            }
                        }
                    }
                }
            }
            Expr::Unsafe(u) => {
                let b = &u.block;
                self.note("unsafe block -> block");
                *e = raw_expr(quote!(#b));
            }
            Expr::Closure(c) => {
                for p in c.inputs.iter_mut() {
                    if let Pat::Wild(_) = p {
                        *p = parse_quote!(_gx_w);
                    }
                }
            }
            _ => {}
        }
    }
    fn visit_item_mut(&mut self, _: &mut Item) {}
}

pub fn lit(s: &str) -> LitStr {
    LitStr::new(s, Span::call_site())
}

/// evaluating it has no effect and cannot go wrong
fn simple(e: &Expr) -> bool {
    match e {
        Expr::Lit(_) | Expr::Path(_) | Expr::Field(_) => true,
        Expr::Paren(p) => simple(&p.expr),
        Expr::Reference(r) => simple(&r.expr),
        _ => false,
    }
}

struct WriteArgs {
    to: Expr,
    rest: proc_macro2::TokenStream,
}
impl syn::parse::Parse for WriteArgs {
    fn parse(p: syn::parse::ParseStream) -> syn::Result<Self> {
        let to = p.parse()?;
        p.parse::<Token![,]>()?;
        Ok(WriteArgs { to, rest: p.parse()? })
    }
}
struct FormatArgs {
    string: LitStr,
    pos: Vec<Expr>,
    named: Vec<(String, Expr)>,
}
impl syn::parse::Parse for FormatArgs {
    fn parse(p: syn::parse::ParseStream) -> syn::Result<Self> {
        let mut a = FormatArgs { string: p.parse()?, pos: vec![], named: vec![] };
        while !p.is_empty() {
            p.parse::<Token![,]>()?;
            if p.is_empty() {
                break;
            }
            if p.peek(Ident) && p.peek2(Token![=]) && !p.peek2(Token![==]) {
                let n: Ident = p.parse()?;
                p.parse::<Token![=]>()?;
                a.named.push((n.to_string(), p.parse()?));
            } else {
                a.pos.push(p.parse()?);
            }
        }
        Ok(a)
    }
}
/// `format!("..{:>w$.p$}..", ..)` as a chain of `gx_fmt_*` calls; only `{}` with right alignment and blanks
fn format_macro(ts: proc_macro2::TokenStream) -> Option<Expr> {
    let a: FormatArgs = syn::parse2(ts).ok()?;
    let arg = |name: &str| -> Option<Expr> {
        if let Ok(i) = name.parse::<usize>() {
            return a.pos.get(i).cloned();
        }
        if let Some((_, e)) = a.named.iter().find(|n| n.0 == name) {
            return Some(e.clone());
        }
        let id = syn::parse_str::<Ident>(name).ok()?;
        Some(raw_expr(quote!(#id)))
    };
    // a width or precision: a number, or `name$`
    let count = |s: &str| -> Option<Expr> {
        match s.strip_suffix('$') {
            Some(n) => arg(n),
            None => s.parse::<usize>().ok().map(|n| {
                let l = Literal::usize_unsuffixed(n);
                raw_expr(quote!(#l))
            }),
        }
    };
    let mut out = raw_expr(quote!(gx_fmt_new()));
    let s: Vec<char> = a.string.value().chars().collect();
    let (mut i, mut lit, mut next) = (0, String::new(), 0usize);
    while i < s.len() {
        if (s[i] == '{' || s[i] == '}') && s.get(i + 1) == Some(&s[i]) {
            lit.push(s[i]);
            i += 2;
            continue;
        }
        if s[i] != '{' {
            lit.push(s[i]);
            i += 1;
            continue;
        }
        let end = i + s[i..].iter().position(|c| *c == '}')?;
        let inner: String = s[i + 1..end].iter().collect();
        i = end + 1;
        if !lit.is_empty() {
            out = raw_expr(quote!(gx_fmt_lit(#out, #lit)));
            lit.clear();
        }
        let (name, spec) = inner.split_once(':').unwrap_or((&inner, ""));
        let spec = spec.trim_end();
        let (mut spec, mut right) = (spec.to_string(), false);
        if let Some(r) = spec.strip_prefix(" >").or(spec.strip_prefix('>')) {
            spec = r.to_string();
            right = true;
        }
        let (width, prec) = match spec.split_once('.') {
            Some((w, p)) => (w.to_string(), Some(p.to_string())),
            None => (spec.clone(), None),
        };
        let prec = match prec.as_deref() {
            None => quote!(None),
            Some("*") => {
                let e = a.pos.get(next)?.clone();
                next += 1;
                quote!(Some(#e))
            }
            Some(p) => {
                let e = count(p)?;
                quote!(Some(#e))
            }
        };
        let width = if width.is_empty() {
            quote!(None)
        } else {
            if !right || width.starts_with('0') && width != "0" {
                return None;
            }
            let e = count(&width)?;
            quote!(Some(#e))
        };
        let v = if name.trim().is_empty() {
            let e = a.pos.get(next)?.clone();
            next += 1;
            e
        } else {
            arg(name.trim())?
        };
        out = raw_expr(quote!(gx_fmt_arg(#out, &(#v), #width, #prec)));
    }
    if !lit.is_empty() {
        out = raw_expr(quote!(gx_fmt_lit(#out, #lit)));
    }
    Some(out)
}
