//! Raw-pointer code of the C interface in terms of trusted wrappers over a ghost heap. Every function of
//! the file gets one ghost parameter, `gx_h`, and every pointer operation names it; nothing else changes.
use quote::{format_ident, ToTokens};
use std::collections::{BTreeMap, BTreeSet};
use syn::visit_mut::{self, VisitMut};
use syn::*;

pub fn prepass(f: &mut File, log: &mut BTreeMap<String, usize>) {
    let mut fns = BTreeSet::new();
    let mut methods = BTreeSet::new();
    for it in &f.items {
        match it {
            Item::Fn(x) => {
                fns.insert(x.sig.ident.to_string());
            }
            Item::Impl(im) if im.trait_.is_none() => {
                for x in &im.items {
                    if let ImplItem::Fn(x) = x {
                        if x.sig.receiver().is_some() {
                            methods.insert(x.sig.ident.to_string());
                        } else {
                            fns.insert(format!("{}::{}", im.self_ty.to_token_stream(), x.sig.ident));
                            fns.insert(format!("Self::{}", x.sig.ident));
                        }
                    }
                }
            }
            _ => {}
        }
    }
    for it in f.items.iter_mut() {
        match it {
            Item::Fn(x) => do_fn(&mut x.sig, &mut x.block, &fns, &methods, log),
            Item::Impl(im) if im.trait_.is_none() => {
                for x in im.items.iter_mut() {
                    if let ImplItem::Fn(x) = x {
                        do_fn(&mut x.sig, &mut x.block, &fns, &methods, log);
                    }
                }
            }
            _ => {}
        }
    }
}

fn do_fn(sig: &mut Signature, blk: &mut Block, fns: &BTreeSet<String>, methods: &BTreeSet<String>, log: &mut BTreeMap<String, usize>) {
    let ptrs = sig
        .inputs
        .iter()
        .filter_map(|a| match a {
            FnArg::Typed(t) => match (&*t.pat, &*t.ty) {
                (Pat::Ident(p), Type::Ptr(_)) => Some(p.ident.to_string()),
                _ => None,
            },
            _ => None,
        })
        .collect();
    inline_ptrs(&mut blk.stmts);
    Lower { fns, methods, ptrs, log }.visit_block_mut(blk);
    let lt = match &sig.output {
        ReturnType::Type(_, t) => sig.generics.lifetimes().map(|l| l.lifetime.clone()).find(|l| {
            let s = t.to_token_stream().to_string().replace(' ', "");
            s.contains(&format!("&{}mut", l))
        }),
        _ => None,
    };
    let p: FnArg = match lt {
        Some(l) => parse_quote!(Tracked(gx_h): Tracked<& #l mut GxHeap>),
        None => parse_quote!(Tracked(gx_h): Tracked<&mut GxHeap>),
    };
    sig.inputs.push(p);
}

/// `let x = p as *mut T;`, `let x = ptr::slice_from_raw_parts_mut(p, n);`: x is replaced by what it is
fn inline_ptrs(stmts: &mut Vec<Stmt>) {
    let mut i = 0;
    while i < stmts.len() {
        let found = match &stmts[i] {
            Stmt::Local(l) => match (&l.pat, &l.init) {
                (Pat::Ident(p), Some(x)) if p.mutability.is_none() && x.diverge.is_none() => {
                    let pure = !x.expr.to_token_stream().to_string().contains("into_raw");
                    let is = match unparen(&x.expr) {
                        Expr::Call(c) => ["slice_from_raw_parts_mut"].contains(&tail(&c.func, 1).as_str()),
                        _ => cast(&x.expr).is_some(),
                    };
                    if pure && is {
                        Some((p.ident.to_string(), (*x.expr).clone()))
                    } else {
                        None
                    }
                }
                _ => None,
            },
            _ => None,
        };
        if let Some((x, by)) = found {
            stmts.remove(i);
            for s in stmts[i..].iter_mut() {
                Inline { x: &x, by: &by }.visit_stmt_mut(s);
            }
        } else {
            i += 1;
        }
    }
}
struct Inline<'a> {
    x: &'a str,
    by: &'a Expr,
}
impl<'a> VisitMut for Inline<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Path(p) = e {
            if p.path.get_ident().map(|i| i == self.x).unwrap_or(false) {
                let by = self.by;
                *e = parse_quote!((#by));
                return;
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

struct Lower<'a> {
    fns: &'a BTreeSet<String>,
    methods: &'a BTreeSet<String>,
    ptrs: BTreeSet<String>,
    log: &'a mut BTreeMap<String, usize>,
}

fn unparen(e: &Expr) -> &Expr {
    match e {
        Expr::Paren(p) => unparen(&p.expr),
        Expr::Group(p) => unparen(&p.expr),
        _ => e,
    }
}
/// `E as *const T`, `E as *mut T`, `E.cast::<T>()` -> (E, T)
fn cast(e: &Expr) -> Option<(Expr, Type)> {
    match unparen(e) {
        Expr::Cast(c) => match &*c.ty {
            Type::Ptr(p) => Some(((*c.expr).clone(), (*p.elem).clone())),
            _ => None,
        },
        Expr::MethodCall(m) if m.method == "cast" && m.args.is_empty() => {
            let t = m.turbofish.as_ref()?.args.first()?;
            match t {
                GenericArgument::Type(t) => Some(((*m.receiver).clone(), t.clone())),
                _ => None,
            }
        }
        _ => None,
    }
}
fn tail(e: &Expr, n: usize) -> String {
    if let Expr::Path(p) = e {
        let s: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
        return s[s.len().saturating_sub(n)..].join("::");
    }
    String::new()
}
fn is_local(e: &Expr) -> Option<String> {
    match unparen(e) {
        Expr::Path(p) => p.path.get_ident().map(|i| i.to_string()),
        _ => None,
    }
}

impl<'a> Lower<'a> {
    fn note(&mut self, s: &str) {
        *self.log.entry(format!("C interface: {} -> trusted wrapper over the ghost heap", s)).or_insert(0) += 1;
    }
    fn deref_of(&self, e: &Expr) -> Option<Expr> {
        if let Expr::Unary(u) = unparen(e) {
            if let UnOp::Deref(_) = u.op {
                if let Some(n) = is_local(&u.expr) {
                    if self.ptrs.contains(&n) {
                        return Some((*u.expr).clone());
                    }
                }
            }
        }
        None
    }
}
impl<'a> VisitMut for Lower<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // the written value first, the place itself is not an expression to rewrite
        if let Expr::Assign(a) = e {
            if let Some(p) = self.deref_of(&a.left) {
                self.visit_expr_mut(&mut a.right);
                let v = &a.right;
                *e = parse_quote!({ let gx_v = #v; gx_ptr_write(#p, gx_v, Tracked(&mut *gx_h)) });
                self.note("write through a pointer");
                return;
            }
        }
        // `if let Some(x) = P.as_mut() { .. *x .. }` -> `if !P.is_null() { .. *P .. }`
        if let Expr::If(i) = e {
            if let Expr::Let(l) = &*i.cond {
                if let (Pat::TupleStruct(t), Expr::MethodCall(m)) = (&*l.pat, unparen(&l.expr)) {
                    let p = is_local(&m.receiver).filter(|n| self.ptrs.contains(n));
                    let x = match t.elems.first() {
                        Some(Pat::Ident(x)) if t.elems.len() == 1 && t.path.is_ident("Some") => Some(x.ident.to_string()),
                        _ => None,
                    };
                    if let (Some(p), Some(x), true) = (p, x, m.args.is_empty() && (m.method == "as_mut" || m.method == "as_ref")) {
                        let mut b = i.then_branch.clone();
                        let mut d = Derefs { x: &x, p: &p, bad: false };
                        d.visit_block_mut(&mut b);
                        if !d.bad {
                            let pi = format_ident!("{}", p);
                            i.then_branch = b;
                            *i.cond = parse_quote!(!#pi.is_null());
                            self.note("pointer as_ref/as_mut");
                        }
                    }
                }
            }
        }
        visit_mut::visit_expr_mut(self, e);
        let new: Option<(Expr, &str)> = match &*e {
            Expr::MethodCall(m) => {
                let r = &m.receiver;
                let name = m.method.to_string();
                match (name.as_str(), m.args.len()) {
                    ("is_null", 0) => Some((parse_quote!(GxPtr::gx_is_null(#r)), "is_null")),
                    ("as_ref", 0) | ("as_mut", 0) => {
                        let f = if name == "as_ref" { format_ident!("gx_handle_ref") } else { format_ident!("gx_handle_mut") };
                        if let Some((x, t)) = cast(r) {
                            Some((parse_quote!(#f::<#t>(#x, Tracked(&mut *gx_h))), "pointer as_ref/as_mut"))
                        } else if is_local(r).map(|n| self.ptrs.contains(&n)).unwrap_or(false) && name == "as_mut" {
                            Some((parse_quote!(gx_out_mut(#r, Tracked(&mut *gx_h))), "pointer as_ref/as_mut"))
                        } else {
                            None
                        }
                    }
                    ("write", 1) if is_local(r).map(|n| self.ptrs.contains(&n)).unwrap_or(false) => {
                        let v = &m.args[0];
                        Some((parse_quote!({ let gx_v = #v; gx_ptr_write(#r, gx_v, Tracked(&mut *gx_h)) }), "write through a pointer"))
                    }
                    ("into_boxed_slice", 0) => Some(((**r).clone(), "into_boxed_slice")),
                    ("into_raw", 0) => Some((parse_quote!({ let gx_v = #r; gx_into_raw(gx_v, Tracked(&mut *gx_h)) }), "into_raw")),
                    ("cast", 0) if made(r) => Some(((**r).clone(), "pointer cast")),
                    _ if self.methods.contains(&name) => {
                        let mut m2 = m.clone();
                        m2.args.push(parse_quote!(Tracked(&mut *gx_h)));
                        Some((Expr::MethodCall(m2), ""))
                    }
                    _ => None,
                }
            }
            Expr::Call(c) => {
                let (t1, t2) = (tail(&c.func, 1), tail(&c.func, 2));
                let a: Vec<&Expr> = c.args.iter().collect();
                match t2.as_str() {
                    "Box::into_raw" | "CString::into_raw" if a.len() == 1 => {
                        let x = a[0];
                        Some((parse_quote!({ let gx_v = #x; gx_into_raw(gx_v, Tracked(&mut *gx_h)) }), "into_raw"))
                    }
                    "ptr::write" if a.len() == 2 => {
                        let (p, v) = (a[0], a[1]);
                        Some((parse_quote!({ let gx_v = #v; gx_ptr_write(#p, gx_v, Tracked(&mut *gx_h)) }), "write through a pointer"))
                    }
                    "slice::from_raw_parts" if a.len() == 2 => {
                        let (p, n) = (a[0], a[1]);
                        Some((parse_quote!(gx_slice(#p, #n)), "slice::from_raw_parts"))
                    }
                    "Box::from_raw" if a.len() == 1 => match unparen(a[0]) {
                        Expr::Call(d) if ["slice_from_raw_parts_mut", "from_raw_parts_mut"].contains(&tail(&d.func, 1).as_str()) && d.args.len() == 2 => {
                            let (p, n) = (&d.args[0], &d.args[1]);
                            Some((parse_quote!(gx_take_buffer(#p, #n, Tracked(&mut *gx_h))), "Box::from_raw"))
                        }
                        x => cast(x).map(|(x, t)| (parse_quote!(gx_take_handle::<#t>(#x, Tracked(&mut *gx_h))), "Box::from_raw")),
                    },
                    "Vec::from_raw_parts" if a.len() == 3 && a[1].to_token_stream().to_string() == a[2].to_token_stream().to_string() => {
                        let (p, n) = (a[0], a[1]);
                        Some((parse_quote!(gx_take_buffer(#p, #n, Tracked(&mut *gx_h))), "Box::from_raw"))
                    }
                    "CString::from_raw" if a.len() == 1 => {
                        let p = a[0];
                        Some((parse_quote!(gx_take_string(#p, Tracked(&mut *gx_h))), "CString::from_raw"))
                    }
                    "CString::new" if a.len() == 1 => {
                        let p = a[0];
                        Some((parse_quote!(gx_cstring_new(#p)), "CString::new"))
                    }
                    _ if self.fns.contains(&t1) && tail(&c.func, 9) == t1 || self.fns.contains(&t2) => {
                        let mut c2 = c.clone();
                        c2.args.push(parse_quote!(Tracked(&mut *gx_h)));
                        Some((Expr::Call(c2), ""))
                    }
                    _ => None,
                }
            }
            Expr::Cast(c) => match &*c.ty {
                Type::Ptr(_) if made(&c.expr) => Some(((*c.expr).clone(), "pointer cast")),
                _ => None,
            },
            // `&*(E as *const T)`
            Expr::Reference(r) => match unparen(&r.expr) {
                Expr::Unary(u) if matches!(u.op, UnOp::Deref(_)) => cast(&u.expr).map(|(x, t)| {
                    let f = if r.mutability.is_some() { format_ident!("gx_handle_mut") } else { format_ident!("gx_handle_ref") };
                    (parse_quote!(match #f::<#t>(#x, Tracked(&mut *gx_h)) { Some(gx_v) => gx_v, None => gx_never() }), "dereference of a pointer")
                }),
                _ => None,
            },
            _ => None,
        };
        if let Some((n, w)) = new {
            *e = n;
            if !w.is_empty() {
                self.note(w);
            }
        }
    }
    fn visit_item_mut(&mut self, _: &mut Item) {}
}
/// every use of x is `*x`, which becomes `*p`
struct Derefs<'a> {
    x: &'a str,
    p: &'a str,
    bad: bool,
}
impl<'a> VisitMut for Derefs<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Unary(u) = e {
            if matches!(u.op, UnOp::Deref(_)) && is_local(&u.expr).as_deref() == Some(self.x) {
                let p = format_ident!("{}", self.p);
                *u.expr = parse_quote!(#p);
                return;
            }
        }
        if is_local(e).as_deref() == Some(self.x) {
            self.bad = true;
        }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_macro_mut(&mut self, _: &mut Macro) {
        self.bad = true;
    }
}
/// the result of `gx_into_raw`
fn made(e: &Expr) -> bool {
    match unparen(e) {
        Expr::Block(b) => b.to_token_stream().to_string().contains("gx_into_raw"),
        _ => false,
    }
}
