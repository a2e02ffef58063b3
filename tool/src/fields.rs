//! Private fields under another name: the contracts speak of the fields by name and type, and where a
//! struct has exactly one field too many and lacks exactly one of the same type, the extraction gives
//! that field the name the contracts use, in the whole file.
use crate::contracts::Contracts;
use quote::{format_ident, ToTokens};
use std::collections::BTreeMap;
use syn::visit_mut::{self, VisitMut};
use syn::*;

fn squeeze(t: &str) -> String {
    t.chars().filter(|c| !c.is_whitespace()).collect()
}

pub fn prepass(f: &mut File, module: &str, c: &Contracts, log: &mut BTreeMap<String, usize>) {
    let mut ren: BTreeMap<String, String> = BTreeMap::new();
    for it in &f.items {
        let Item::Struct(s) = it else { continue };
        let Some(text) = c.blocks.get(&format!("struct {}::{}", module, s.ident)).and_then(|b| b.get("fields")) else { continue };
        let want: Vec<(String, String)> = text
            .lines()
            .filter_map(|l| l.split_once(':'))
            .map(|(a, b)| (a.trim().to_string(), squeeze(b)))
            .collect();
        let have: Vec<(String, String)> = s
            .fields
            .iter()
            .filter(|x| matches!(x.vis, Visibility::Inherited))
            .filter_map(|x| x.ident.as_ref().map(|i| (i.to_string(), squeeze(&x.ty.to_token_stream().to_string()))))
            .collect();
        let gone: Vec<_> = want.iter().filter(|w| !have.iter().any(|h| h.0 == w.0)).collect();
        let new: Vec<_> = have.iter().filter(|h| !want.iter().any(|w| h.0 == w.0)).collect();
        for g in &gone {
            let a: Vec<_> = gone.iter().filter(|x| x.1 == g.1).collect();
            let b: Vec<_> = new.iter().filter(|x| x.1 == g.1).collect();
            if a.len() == 1 && b.len() == 1 {
                ren.insert(b[0].0.clone(), g.0.clone());
            }
        }
    }
    if !ren.is_empty() {
        for (a, b) in &ren {
            *log.entry(format!("field {} is called {} by the contracts", a, b)).or_insert(0) += 1;
        }
        R { ren }.visit_file_mut(f);
    }
}

struct R {
    ren: BTreeMap<String, String>,
}
impl R {
    fn new(&self, i: &Ident) -> Option<Ident> {
        self.ren.get(&i.to_string()).map(|n| format_ident!("{}", n))
    }
}
impl VisitMut for R {
    fn visit_field_mut(&mut self, f: &mut Field) {
        if let Some(n) = f.ident.as_ref().and_then(|i| self.new(i)) {
            f.ident = Some(n);
        }
        visit_mut::visit_field_mut(self, f);
    }
    fn visit_expr_field_mut(&mut self, f: &mut ExprField) {
        if let Member::Named(i) = &f.member {
            if let Some(n) = self.new(i) {
                f.member = Member::Named(n);
            }
        }
        visit_mut::visit_expr_field_mut(self, f);
    }
    fn visit_field_value_mut(&mut self, f: &mut FieldValue) {
        if let Member::Named(i) = &f.member {
            if let Some(n) = self.new(i) {
                f.member = Member::Named(n);
                f.colon_token = Some(Default::default());
            }
        }
        visit_mut::visit_field_value_mut(self, f);
    }
    fn visit_field_pat_mut(&mut self, f: &mut FieldPat) {
        if let Member::Named(i) = &f.member {
            if let Some(n) = self.new(i) {
                f.member = Member::Named(n);
                f.colon_token = Some(Default::default());
            }
        }
        visit_mut::visit_field_pat_mut(self, f);
    }
}
