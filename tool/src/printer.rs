//! Token printer. Three marker macros are understood:
//!   __gx_pre!{"text"}   first statement of a brace group: text goes before the opening brace
//!   __gx_raw!{"text"}   text is emitted verbatim
//!   __gx_fn!{"key"} / __gx_endfn!{"key"}  record the output line of a function's start / end
use proc_macro2::{Delimiter, Group, Spacing, TokenStream, TokenTree};

pub struct Printer {
    pub out: String,
    pub line: usize,
    indent: usize,
    bol: bool,
    pub marks: Vec<(String, bool, usize)>,
}

impl Printer {
    pub fn new() -> Self {
        Printer { out: String::new(), line: 1, indent: 0, bol: true, marks: vec![] }
    }
    fn nl(&mut self) {
        if !self.bol {
            self.out.push('\n');
            self.line += 1;
            self.bol = true;
        }
    }
    fn put(&mut self, s: &str) {
        if self.bol {
            for _ in 0..self.indent {
                self.out.push_str("    ");
            }
            self.bol = false;
        }
        self.out.push_str(s);
        self.line += s.matches('\n').count();
    }
    pub fn raw(&mut self, s: &str) {
        self.nl();
        for l in s.lines() {
            self.out.push_str(l);
            self.out.push('\n');
            self.line += 1;
        }
        self.bol = true;
    }
    fn marker(tts: &[TokenTree], i: usize) -> Option<(String, String)> {
        if let (Some(TokenTree::Ident(id)), Some(TokenTree::Punct(p)), Some(TokenTree::Group(g))) =
            (tts.get(i), tts.get(i + 1), tts.get(i + 2))
        {
            let n = id.to_string();
            if n.starts_with("__gx_") && p.as_char() == '!' {
                let lit: syn::LitStr = syn::parse2(g.stream()).ok()?;
                return Some((n, lit.value()));
            }
        }
        None
    }
    pub fn ts(&mut self, ts: TokenStream) {
        let tts: Vec<TokenTree> = ts.into_iter().collect();
        self.tts(&tts);
    }
    fn tts(&mut self, tts: &[TokenTree]) {
        let mut i = 0;
        while i < tts.len() {
            if let Some((n, v)) = Self::marker(tts, i) {
                match n.as_str() {
                    "__gx_raw" => self.raw(&v),
                    "__gx_fn" => {
                        self.nl();
                        self.marks.push((v, true, self.line));
                    }
                    "__gx_endfn" => {
                        self.nl();
                        self.marks.push((v, false, self.line));
                    }
                    "__gx_pre" => self.raw(&v),
                    _ => panic!("unknown marker {}", n),
                }
                i += 3;
                if let Some(TokenTree::Punct(p)) = tts.get(i) {
                    if p.as_char() == ';' {
                        i += 1;
                    }
                }
                continue;
            }
            match &tts[i] {
                TokenTree::Ident(id) => {
                    self.put(&id.to_string());
                    self.out.push(' ');
                }
                TokenTree::Literal(l) => {
                    self.put(&l.to_string());
                    self.out.push(' ');
                }
                TokenTree::Punct(p) => {
                    self.put(&p.as_char().to_string());
                    if p.as_char() == ';' {
                        self.nl();
                    } else if p.spacing() == Spacing::Alone {
                        self.out.push(' ');
                    }
                }
                TokenTree::Group(g) => self.group(g),
            }
            i += 1;
        }
    }
    fn group(&mut self, g: &Group) {
        let inner: Vec<TokenTree> = g.stream().into_iter().collect();
        match g.delimiter() {
            Delimiter::Parenthesis => {
                self.put("(");
                self.tts(&inner);
                self.put(") ");
            }
            Delimiter::Bracket => {
                self.put("[");
                self.tts(&inner);
                self.put("] ");
            }
            Delimiter::None => self.tts(&inner),
            Delimiter::Brace => {
                let mut start = 0;
                while let Some((n, v)) = Self::marker(&inner, start) {
                    if n != "__gx_pre" {
                        break;
                    }
                    self.raw(&v);
                    start += 3;
                    if let Some(TokenTree::Punct(p)) = inner.get(start) {
                        if p.as_char() == ';' {
                            start += 1;
                        }
                    }
                }
                self.put("{");
                self.nl();
                self.indent += 1;
                self.tts(&inner[start..]);
                self.nl();
                self.indent -= 1;
                self.put("}");
                self.nl();
            }
        }
    }
}
