//! vx: extract functions and types from Rust sources for Verus, by editing the source text in place.
//! Every edit is one of the rules listed in DESIGN.md; everything else is copied byte for byte.
//! stdin: {"root", "items": [{"id","file","kind","path",...}], ...}; stdout: {"items": {id: {...}}}
use proc_macro2::Span;
use quote::ToTokens;
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::io::Read;
use syn::punctuated::Punctuated;
use syn::spanned::Spanned;
use syn::visit::{self, Visit};
use syn::*;

type R<T> = std::result::Result<T, String>;

struct Edit { start: usize, end: usize, text: String, seq: usize }

struct Cx<'a> {
    src: &'a str,
    item: &'a Value,
    edits: Vec<Edit>,
    loops: Vec<String>,
    closures: usize,
    locals: Vec<String>,
    calls: Vec<String>,
    errors: Vec<String>,
    aborts: usize,
    self_mut: bool,
}

fn rng(s: Span) -> (usize, usize) { let r = s.byte_range(); (r.start, r.end) }

impl<'a> Cx<'a> {
    fn new(src: &'a str, item: &'a Value) -> Self {
        Cx { src, item, edits: vec![], loops: vec![], closures: 0, locals: vec![], calls: vec![], errors: vec![], aborts: 0, self_mut: false }
    }
    fn put(&mut self, start: usize, end: usize, text: impl Into<String>) {
        let seq = self.edits.len();
        self.edits.push(Edit { start, end, text: text.into(), seq });
    }
    fn sec(&self, name: &str) -> Option<String> { self.item["sections"][name].as_str().map(|s| s.to_string()) }
    fn reject(&mut self) -> String {
        let k = self.aborts;
        self.aborts += 1;
        let r = self.item["sections"][format!("reject {k}").as_str()].as_str().or(self.item["reject"].as_str()).unwrap_or("false").trim().to_string();
        format!("Ghost({r})")
    }
    fn map(&self, table: &str, key: &str) -> Option<String> { self.item[table][key].as_str().map(|s| s.to_string()) }
    /// text of [start, end) with all edits applied
    fn render(&self, start: usize, end: usize) -> R<String> {
        let mut es: Vec<&Edit> = self.edits.iter().filter(|e| e.start >= start && e.end <= end).collect();
        es.sort_by_key(|e| (e.start, e.end != e.start, e.seq));
        let mut out = String::new();
        let mut at = start;
        for e in es {
            if e.start < at {
                // an edit inside a replaced range is dropped with it
                if e.end <= at { continue; }
                return Err(format!("overlapping edits near byte {}", e.start));
            }
            out.push_str(&self.src[at..e.start]);
            out.push_str(&e.text);
            at = e.end;
        }
        out.push_str(&self.src[at..end]);
        Ok(out)
    }
    /// Verus for-loops have no `continue`: `if c { a; continue; } b` becomes `if c { a; } else { b }`
    fn no_continue(&mut self, b: &Block) {
        let close = rng(b.brace_token.span.close()).0;
        let bare = |s: &Stmt| matches!(s, Stmt::Expr(Expr::Continue(c), _) if c.label.is_none());
        let only = |e: &Expr| match e { Expr::Block(x) => x.block.stmts.len() == 1 && bare(&x.block.stmts[0]), Expr::Continue(c) => c.label.is_none(), _ => false };
        for (i, st) in b.stmts.iter().enumerate() {
            let last = i + 1 == b.stmts.len();
            let (ss, se) = rng(st.span());
            match st {
                Stmt::Expr(Expr::Continue(c), _) if last && c.label.is_none() => self.put(ss, se, ""),
                Stmt::Expr(Expr::If(f), semi) => {
                    if let (None, Some(t)) = (&f.else_branch, f.then_branch.stmts.last()) {
                        if bare(t) {
                            let (ts, te) = rng(t.span());
                            self.put(ts, te, "");
                            let fe = rng(f.span()).1;
                            self.put(fe, if semi.is_some() { se } else { fe }, " else {");
                            self.put(close, close, "}");
                            continue;
                        }
                    }
                    if last {
                        self.no_continue(&f.then_branch);
                        if let Some((_, e)) = &f.else_branch { if let Expr::Block(x) = &**e { self.no_continue(&x.block); } }
                    }
                }
                Stmt::Local(l) => if let Some(LocalInit { expr, diverge: Some((_, d)), .. }) = &l.init {
                    if only(d) {
                        let (ps, pe) = rng(l.pat.span());
                        let (es, ee) = rng(expr.span());
                        let pat = self.src[ps..pe].to_string();
                        self.put(ss, es, "match ");
                        self.put(ee, se, format!(" {{ {pat} => {{"));
                        self.put(close, close, "} _ => {} }");
                    }
                },
                _ => {}
            }
        }
    }
    fn exprs(&mut self, m: &Macro) -> Option<Vec<Expr>> {
        match m.parse_body_with(Punctuated::<Expr, Token![,]>::parse_terminated) {
            Ok(p) => Some(p.into_iter().collect()),
            Err(e) => { self.errors.push(format!("macro {}: {e}", m.path.to_token_stream())); None }
        }
    }
    /// rewrite a macro call; `span` covers the call without a trailing semicolon
    fn mac(&mut self, m: &Macro, span: Span) {
        let name = m.path.segments.last().unwrap().ident.to_string();
        let (s, e) = rng(span);
        match name.as_str() {
            "debug" | "info" | "trace" | "warn" | "error" | "println" | "eprintln" | "debug_assert" | "debug_assert_eq" | "debug_assert_ne" => self.put(s, e, "()"),
            "assert" | "assert_eq" | "assert_ne" => {
                let Some(a) = self.exprs(m) else { return };
                let n = if name == "assert" { 1 } else { 2 };
                let g = self.reject();
                let (a0, a1) = (rng(a[0].span()), rng(a[n - 1].span()));
                self.put(s, a0.0, "vf_assert(");
                if n == 2 {
                    self.put(a0.0, a0.0, "(");
                    self.visit_expr(&a[0]);
                    self.put(a0.1, a1.0, if name == "assert_eq" { ") == (" } else { ") != (" });
                    self.visit_expr(&a[1]);
                    self.put(a1.1, e, format!("), {g})"));
                } else {
                    self.visit_expr(&a[0]);
                    self.put(a1.1, e, format!(", {g})"));
                }
            }
            "bail" => self.put(s, e, "return Err(vf_anyhow())"),
            "ensure" => {
                let Some(a) = self.exprs(m) else { return };
                if a.len() == 1 || matches!(&a[1], Expr::Lit(_)) {
                    // anyhow::ensure: the error is a message
                    let a0 = rng(a[0].span());
                    self.put(s, a0.0, "if !(");
                    self.visit_expr(&a[0]);
                    self.put(a0.1, e, ") { return Err(vf_anyhow()); }");
                    return;
                }
                let (a0, a1) = (rng(a[0].span()), rng(a[1].span()));
                self.put(s, a0.0, "if !(");
                self.visit_expr(&a[0]);
                self.put(a0.1, a1.0, ") { return Err(");
                self.visit_expr(&a[1]);
                self.put(a1.1, e, "); }");
            }
            "panic" | "unreachable" | "todo" | "unimplemented" => {
                let g = self.reject();
                self.put(s, e, format!("vf_panic({g})"));
            }
            "format" if self.item["format"] == "cat" => { let Some(a) = self.exprs(m) else { return }; self.concat(&a, s, e) }
            "format" => self.put(s, e, "vf_string()"),
            "anyhow" => self.put(s, e, "vf_anyhow()"),
            "matches" => {} // understood by Verus
            "vec" => {
                if let Ok(p) = m.parse_body_with(Punctuated::<Expr, Token![,]>::parse_terminated) {
                    for x in p.iter() { self.visit_expr(x); }
                } else if let Ok((x, n)) = m.parse_body_with(|i: syn::parse::ParseStream| { let a: Expr = i.parse()?; let _: Token![;] = i.parse()?; let b: Expr = i.parse()?; Ok((a, b)) }) {
                    let (x0, n0) = (rng(x.span()), rng(n.span()));
                    self.put(s, x0.0, "vf_vec_from_elem(");
                    self.visit_expr(&x);
                    self.put(x0.1, n0.0, ", ");
                    self.visit_expr(&n);
                    self.put(n0.1, e, ")");
                } else {
                    self.errors.push("vec! form".into());
                }
            }
            other => {
                if let Some(t) = self.map("macros", other) { self.put(s, e, t); } else { self.errors.push(format!("unsupported macro {other}!")); }
            }
        }
    }
    /// format!("a{x}b{}", y)  ->  the concatenation of the pieces
    fn concat(&mut self, a: &[Expr], s: usize, e: usize) {
        let Some(Expr::Lit(ExprLit { lit: Lit::Str(t), .. })) = a.first() else { self.errors.push("format! without a literal".into()); return };
        let t = t.value();
        let (mut out, mut next, mut rest) = ("vf_empty()".to_string(), 1, t.as_str());
        while !rest.is_empty() {
            if let Some(r) = rest.strip_prefix('{') {
                let Some((name, r)) = r.split_once('}') else { self.errors.push("format! form".into()); return };
                let arg = if name.is_empty() {
                    let Some(x) = a.get(next) else { self.errors.push("format! form".into()); return };
                    next += 1;
                    x.to_token_stream().to_string()
                } else { name.to_string() };
                if !arg.chars().all(|c| c.is_alphanumeric() || c == '_' || c == '.' || c == ' ' || c == '(' || c == ')') { self.errors.push(format!("format! argument {arg}")); return }
                out = format!("vf_cat({out}, vf_shown(&{arg}))");
                rest = r;
            } else {
                let n = rest.find('{').unwrap_or(rest.len());
                if rest[..n].contains(['}', '\\', '"']) { self.errors.push("format! form".into()); return }
                out = format!("vf_cat({out}, {{ proof {{ reveal_strlit(\"{0}\"); }} vf_lit(\"{0}\", {1}) }})", &rest[..n], rest[..n].contains('/'));
                rest = &rest[n..];
            }
        }
        self.put(s, e, out);
    }
    fn body_ghost(&mut self, b: &Block, begin: Option<String>, end: Option<String>) {
        let open = rng(b.brace_token.span.open()).1;
        let close = rng(b.brace_token.span.close()).0;
        if let Some(t) = begin { self.put(open, open, format!("\n{t}\n")); }
        if let Some(t) = end {
            let semi = matches!(b.stmts.last(), Some(Stmt::Expr(_, None)) | Some(Stmt::Macro(_)));
            self.put(close, close, format!("{}\n{t}\n", if semi { ";" } else { "" }));
        }
    }
}

impl<'ast, 'a> Visit<'ast> for Cx<'a> {
    fn visit_attribute(&mut self, a: &'ast Attribute) {
        let (s, e) = rng(a.span());
        if a.path().is_ident("cfg") || a.path().is_ident("cfg_attr") {
            let k = a.to_token_stream().to_string().replace(' ', "");
            if !self.item["cfg_on"].as_array().is_some_and(|x| x.iter().any(|t| t == k.as_str())) { self.errors.push(format!("conditional code {k}")); }
        }
        self.put(s, e, "");
    }
    fn visit_stmt(&mut self, st: &'ast Stmt) {
        // a statement of a feature the unit leaves off
        let attrs = match st { Stmt::Local(l) => &l.attrs[..], Stmt::Macro(m) => &m.attrs[..], Stmt::Expr(Expr::Call(c), _) => &c.attrs[..], Stmt::Expr(Expr::MethodCall(c), _) => &c.attrs[..], Stmt::Expr(Expr::Block(c), _) => &c.attrs[..], _ => &[] };
        for a in attrs {
            let k = a.to_token_stream().to_string().replace(' ', "");
            if self.item["cfg_off"].as_array().is_some_and(|x| x.iter().any(|t| t == k.as_str())) { let (s, e) = rng(st.span()); self.put(s, e, ""); return; }
        }
        visit::visit_stmt(self, st);
    }
    fn visit_stmt_macro(&mut self, m: &'ast StmtMacro) {
        self.mac(&m.mac, m.mac.span());
    }
    fn visit_expr_macro(&mut self, m: &'ast ExprMacro) { self.mac(&m.mac, m.span()); }
    fn visit_pat_ident(&mut self, p: &'ast PatIdent) {
        let n = p.ident.to_string();
        if !n.starts_with(|c: char| c.is_uppercase()) { self.locals.push(n); }
        visit::visit_pat_ident(self, p);
    }
    fn visit_type(&mut self, t: &'ast Type) {
        let key: String = t.to_token_stream().to_string().replace(' ', "");
        if let Some(x) = self.map("types", &key) { let (s, e) = rng(t.span()); self.put(s, e, x); return; }
        visit::visit_type(self, t);
    }
    fn visit_type_impl_trait(&mut self, t: &'ast TypeImplTrait) {
        // impl Iterator<Item = X>  ->  VIter<X>
        if let Some(TypeParamBound::Trait(b)) = t.bounds.first() {
            let seg = b.path.segments.last().unwrap();
            if seg.ident == "Iterator" {
                if let PathArguments::AngleBracketed(a) = &seg.arguments {
                    if let Some(GenericArgument::AssocType(x)) = a.args.first() {
                        let (s, e) = rng(t.span());
                        let (xs, xe) = rng(x.ty.span());
                        let n = self.item["iter_type"].as_str().unwrap_or("VIter").to_string();
                        self.put(s, xs, format!("{n}<"));
                        self.visit_type(&x.ty);
                        self.put(xe, e, ">");
                        return;
                    }
                }
            }
        }
        self.errors.push("impl Trait type".into());
    }
    fn visit_path(&mut self, p: &'ast Path) {
        if self.self_mut && p.is_ident("self") { let (s, e) = rng(p.span()); self.put(s, e, "vf_self"); return; }
        let text = p.to_token_stream().to_string().replace(' ', "");
        if text.contains("::<") { if let Some(t) = self.map("paths", &text) { let (s, e) = rng(p.span()); self.put(s, e, t); return; } }
        let full: String = p.segments.iter().map(|s| s.ident.to_string()).collect::<Vec<_>>().join("::");
        if let Some(t) = self.map("paths", &full) {
            let s = rng(p.span()).0;
            let e = rng(p.segments.last().unwrap().ident.span()).1;
            // generic arguments of earlier segments would be lost: only plain prefixes are mapped
            if p.segments.iter().rev().skip(1).all(|s| s.arguments.is_empty()) { self.put(s, e, t); }
            if let Some(seg) = p.segments.last() { visit::visit_path_arguments(self, &seg.arguments); }
            return;
        }
        visit::visit_path(self, p);
    }
    fn visit_expr_path(&mut self, p: &'ast ExprPath) {
        if let Some(q) = &p.qself {
            // <T as Trait>::f  : mapped as a whole
            let key: String = p.to_token_stream().to_string().replace(' ', "");
            if let Some(t) = self.map("paths", &key) { let (s, e) = rng(p.span()); self.put(s, e, t); return; }
            self.visit_type(&q.ty);
            return;
        }
        visit::visit_expr_path(self, p);
    }
    fn visit_expr_reference(&mut self, r: &'ast ExprReference) {
        // a reference to a static under contract
        if let (Expr::Path(p), None) = (&*r.expr, &r.mutability) {
            let n = p.path.segments.last().map(|x| x.ident.to_string()).unwrap_or_default();
            if self.item["statics"].as_array().is_some_and(|a| a.iter().any(|t| t == n.as_str())) {
                let (s, e) = rng(r.span());
                self.put(s, e, format!("vf_static_ref({}())", n.to_lowercase()));
                return;
            }
        }
        visit::visit_expr_reference(self, r);
    }
    fn visit_expr_await(&mut self, a: &'ast ExprAwait) {
        // the sequential reading of an asynchronous function
        self.visit_expr(&a.base);
        let (s, e) = (rng(a.base.span()).1, rng(a.span()).1);
        self.put(s, e, "");
    }
    fn visit_expr_call(&mut self, c: &'ast ExprCall) {
        if let Expr::Path(p) = &*c.func { self.calls.push(p.path.segments.iter().map(|s| s.ident.to_string()).collect::<Vec<_>>().join("::")); }
        visit::visit_expr_call(self, c);
        if let Expr::Path(p) = &*c.func {
            let f = p.path.segments.iter().map(|s| s.ident.to_string()).collect::<Vec<_>>().join("::");
            if let Some(x) = self.map("extra_args", &f) {
                let e = rng(c.paren_token.span.close()).0;
                self.put(e, e, if c.args.is_empty() || c.args.trailing_punct() { x } else { format!(", {x}") });
            }
        }
    }
    fn visit_expr_method_call(&mut self, c: &'ast ExprMethodCall) {
        let name = c.method.to_string();
        self.calls.push(format!(".{name}"));
        if let (Expr::MethodCall(m), true) = (&*c.receiver, name == "or_default" && c.args.is_empty()) {
            // M.entry(k).or_default()  ->  M.vf_entry_or_default(k)
            if m.method == "entry" && m.args.len() == 1 {
                self.visit_expr(&m.receiver);
                self.visit_expr(&m.args[0]);
                let (s, e) = rng(m.method.span());
                self.put(s, e, "vf_entry_or_default");
                self.put(rng(m.span()).1, rng(c.span()).1, "");
                return;
            }
        }
        if let (Expr::MethodCall(m), true) = (&*c.receiver, name == "or_insert" && c.args.len() == 1) {
            // M.entry(k).or_insert(v)  ->  M.vf_entry_or_insert(k, v)
            if m.method == "entry" && m.args.len() == 1 {
                self.visit_expr(&m.receiver);
                self.visit_expr(&m.args[0]);
                self.visit_expr(&c.args[0]);
                let (s, e) = rng(m.method.span());
                self.put(s, e, "vf_entry_or_insert");
                self.put(rng(m.args[0].span()).1, rng(c.args[0].span()).0, ", ");
                return;
            }
        }
        if let (Expr::MethodCall(m), true) = (&*c.receiver, name == "collect" && self.item["flat_map"].as_str() == Some("loop")) {
            // X.flat_map(|p| B).collect()  ->  a loop appending B to a vector
            if let ("flat_map", Some(Expr::Closure(f)), 1) = (m.method.to_string().as_str(), m.args.first(), m.args.len()) {
                if let (Pat::Ident(p), 1) = (f.inputs.first().unwrap(), f.inputs.len()) {
                    let k = self.loops.len();
                    self.loops.push("flat_map".into());
                    let it = self.sec(&format!("loop {k} it")).unwrap_or("it".into());
                    let inv = self.sec(&format!("loop {k}")).unwrap_or_default();
                    let (bg, en) = (self.sec(&format!("loop-begin {k}")).unwrap_or_default(), self.sec(&format!("loop-end {k}")).unwrap_or_default());
                    let (s, e) = rng(c.span());
                    let (rs, re) = rng(m.receiver.span());
                    let (bs, be) = rng(f.body.span());
                    self.locals.push(p.ident.to_string());
                    self.put(s, rs, format!("{{ let mut vf_out = Vec::new(); for {} in {}: ", p.ident, it.trim()));
                    self.visit_expr(&m.receiver);
                    self.put(re, bs, format!("\n{inv}\n{{ {bg}\n let vf_part = "));
                    self.visit_expr(&f.body);
                    self.put(be, e, format!("; vf_out.vf_extend(vf_part);\n{en}\n}} vf_out }}"));
                    return;
                }
            }
        }
        // (a..b).adapter()  ->  vf_range_iter(a, b).adapter()
        let inner = match &*c.receiver { Expr::Paren(p) => &*p.expr, e => e };
        if let (Expr::Range(ExprRange { start: Some(a), end: Some(b), limits: RangeLimits::HalfOpen(_), .. }), false) = (inner, name == "contains") {
            let (s, e) = rng(c.receiver.span());
            let (a0, a1, b0, b1) = (rng(a.span()).0, rng(a.span()).1, rng(b.span()).0, rng(b.span()).1);
            self.put(s, a0, "vf_range_iter(");
            self.visit_expr(a);
            self.put(a1, b0, ", ");
            self.visit_expr(b);
            self.put(b1, e, ")");
        } else if let (Expr::Range(ExprRange { start: Some(a), end: Some(b), limits: RangeLimits::Closed(_), .. }), false) = (inner, name == "contains") {
            let (s, e) = rng(c.receiver.span());
            let (a0, a1, b0, b1) = (rng(a.span()).0, rng(a.span()).1, rng(b.span()).0, rng(b.span()).1);
            self.put(s, a0, "vf_range_incl(");
            self.visit_expr(a);
            self.put(a1, b0, ", ");
            self.visit_expr(b);
            self.put(b1, e, ")");
        } else {
            self.visit_expr(&c.receiver);
        }
        if let Some(t) = &c.turbofish { visit::visit_angle_bracketed_generic_arguments(self, t); }
        let (ms, me) = rng(c.method.span());
        if name == "unwrap" || name == "expect" {
            let g = self.reject();
            let e = rng(c.span()).1;
            self.put(ms, e, format!("vf_unwrap({g})"));
            return;
        }
        if let Some(t) = self.map("methods", &name) { self.put(ms, me, t); }
        if self.item["drop_args"].as_array().is_some_and(|a| a.iter().any(|t| t == name.as_str())) {
            // arguments that only word an error message
            let (s, e) = (rng(c.paren_token.span.open()).1, rng(c.paren_token.span.close()).0);
            self.put(s, e, "");
            return;
        }
        for a in &c.args {
            // a constructor as a function value: eta-expanded
            if let (Expr::Path(p), "map" | "map_err" | "and_then") = (a, name.as_str()) {
                if p.path.segments.len() > 1 && p.path.segments.last().unwrap().ident.to_string().starts_with(|c: char| c.is_uppercase()) {
                    let (s, e) = rng(a.span());
                    self.put(s, s, "|vf_x| ");
                    self.put(e, e, "(vf_x)");
                }
            }
            self.visit_expr(a);
        }
        if let Some(g) = self.map("ghost_methods", &name) {
            let g = if g == "reject" { self.reject() } else { g };
            let e = rng(c.paren_token.span.close()).0;
            self.put(e, e, if c.args.is_empty() || c.args.trailing_punct() { g } else { format!(", {g}") });
        }
    }
    fn visit_expr_index(&mut self, x: &'ast ExprIndex) {
        // e[f()] where f returns a range
        if let Expr::Call(c) = &*x.index {
            let f = c.func.to_token_stream().to_string().replace(' ', "");
            if self.item["range_calls"].as_array().is_some_and(|a| a.iter().any(|t| t == f.as_str())) {
                let g = self.reject();
                let (s, e) = rng(x.span());
                let (bs, be) = rng(x.expr.span());
                let (is, ie) = rng(x.index.span());
                self.put(s, bs, "vf_range_of(&");
                self.visit_expr(&x.expr);
                self.put(be, is, ", ");
                self.visit_expr(&x.index);
                self.put(ie, e, format!(", {g})"));
                return;
            }
        }
        let ghost = match &*x.index { Expr::Range(_) => true, _ => self.item["index"].as_str() == Some("ghost") };
        if !ghost { return visit::visit_expr_index(self, x); }
        let (s, e) = rng(x.span());
        let (bs, be) = rng(x.expr.span());
        match &*x.index {
            Expr::Range(r) => {
                let g = self.reject();
                self.put(s, bs, "vf_range(&");
                self.visit_expr(&x.expr);
                let mut at = be;
                if let Some(a) = &r.start {
                    let (as_, ae) = rng(a.span());
                    self.put(at, as_, ", Some(");
                    self.visit_expr(a);
                    self.put(ae, ae, ")");
                    at = ae;
                } else { self.put(at, at, ", None"); }
                if let Some(b) = &r.end {
                    let (b0, b1) = rng(b.span());
                    let incl = matches!(r.limits, RangeLimits::Closed(_));
                    self.put(at, b0, if incl { ", Some(1 + (" } else { ", Some((" });
                    self.visit_expr(b);
                    self.put(b1, e, format!(")), {g})"));
                } else { self.put(at, e, format!(", None, {g})")); }
            }
            i => {
                let g = self.reject();
                let (is, ie) = rng(i.span());
                self.put(s, bs, "(*vf_index(&");
                self.visit_expr(&x.expr);
                self.put(be, is, ", ");
                self.visit_expr(i);
                self.put(ie, e, format!(", {g}))"));
            }
        }
    }
    fn visit_expr_binary(&mut self, b: &'ast ExprBinary) {
        if let (Some("bytes"), BinOp::Eq(_) | BinOp::Ne(_)) = (self.item["eq"].as_str(), &b.op) {
            // comparison of byte slices and arrays
            let (s, e) = rng(b.span());
            let (_, le) = rng(b.left.span());
            let rs = rng(b.right.span()).0;
            self.put(s, s, if matches!(b.op, BinOp::Ne(_)) { "!vf_bytes_eq(&(" } else { "vf_bytes_eq(&(" });
            self.visit_expr(&b.left);
            self.put(le, rs, "), &(");
            self.visit_expr(&b.right);
            self.put(e, e, "))");
            return;
        }
        let f = match &b.op { BinOp::Add(_) => "vf_add", BinOp::Sub(_) => "vf_sub", BinOp::Mul(_) => "vf_mul", BinOp::AddAssign(_) => "vf_add_assign", BinOp::SubAssign(_) => "vf_sub_assign", BinOp::MulAssign(_) => "vf_mul_assign", _ => "" };
        if self.item["arith"].as_str() != Some("wrapping") || f.is_empty() { return visit::visit_expr_binary(self, b); }
        let assign = f.ends_with("assign");
        let (s, e) = rng(b.span());
        let (_, le) = rng(b.left.span());
        let rs = rng(b.right.span()).0;
        self.put(s, s, format!("{f}({}", if assign { "&mut " } else { "" }));
        self.visit_expr(&b.left);
        self.put(le, rs, ", ");
        self.visit_expr(&b.right);
        self.put(e, e, ")");
    }
    fn visit_expr_for_loop(&mut self, l: &'ast ExprForLoop) {
        let k = self.loops.len();
        self.loops.push("for".into());
        let it = self.sec(&format!("loop {k} it")).unwrap_or("it".into());
        if let Expr::MethodCall(m) = &*l.expr {
            if m.method == "values_mut" && m.args.is_empty() {
                // for P in M.values_mut() { B }: by position
                if !matches!(&*m.receiver, Expr::Path(_) | Expr::Field(_)) { self.errors.push("values_mut of an expression".into()); return; }
                let r = m.receiver.to_token_stream().to_string();
                self.visit_pat(&l.pat);
                let (ps, pe) = rng(l.pat.span());
                let pt = self.src[ps..pe].to_string();
                let (ls, le) = rng(l.span());
                let b = rng(l.body.span()).0;
                let inv = self.sec(&format!("loop {k}")).unwrap_or_default();
                self.put(ls, b, format!("{{ let vf_n{k} = {r}.len(); let mut vf_i{k}: usize = 0; while vf_i{k} < vf_n{k}\n{inv}\n"));
                let open = rng(l.body.brace_token.span.open()).1;
                self.put(open, open, format!("\nlet {pt} = {r}.vf_value_mut(vf_i{k}); vf_i{k} += 1;\n"));
                let (bg, en) = (self.sec(&format!("loop-begin {k}")), self.sec(&format!("loop-end {k}")));
                self.body_ghost(&l.body, bg, None);
                self.visit_block(&l.body);
                self.body_ghost(&l.body, None, en);
                let after = self.sec(&format!("loop-after {k}")).unwrap_or_default();
                self.put(le, le, format!(" {after} }}"));
                return;
            }
        }
        let bare = match &*l.expr { Expr::Paren(p) => &*p.expr, e => e };
        if let (Expr::Range(ExprRange { start: Some(a), end: None, .. }), Pat::Ident(_)) = (bare, &*l.pat) {
            // for x in a.. { B }
            self.visit_pat(&l.pat);
            let (ps, pe) = rng(l.pat.span());
            let pt = self.src[ps..pe].to_string();
            let (ls, le) = rng(l.span());
            let (a0, a1) = rng(a.span());
            let b = rng(l.body.span()).0;
            let inv = self.sec(&format!("loop {k}")).unwrap_or_default();
            self.put(ls, a0, format!("let mut vf_next{k} = "));
            self.visit_expr(a);
            self.put(a1, b, format!("; loop\n{inv}\n"));
            let open = rng(l.body.brace_token.span.open()).1;
            self.put(open, open, format!("\nlet {pt} = vf_next{k}; vf_next{k} = vf_next{k}.wrapping_add(1);\n"));
            let (bg, en) = (self.sec(&format!("loop-begin {k}")), self.sec(&format!("loop-end {k}")));
            self.body_ghost(&l.body, bg, None);
            self.visit_block(&l.body);
            self.body_ghost(&l.body, None, en);
            let _ = le;
            return;
        }
        let (es, ee) = rng(l.expr.span());
        self.visit_pat(&l.pat);
        self.put(es, es, format!("{}: ", it.trim()));
        let mut whole_ref = false;
        if let Expr::Reference(r) = &*l.expr {
            // for x in &collection
            if r.mutability.is_none() {
                let (is, ie) = rng(r.expr.span());
                self.put(es, is, "(");
                self.visit_expr(&r.expr);
                self.put(ie, ie, ").vf_iter()");
                whole_ref = true;
            }
        }
        let bare_range = match &*l.expr { Expr::Paren(p) => &*p.expr, e => e };
        if let Expr::Range(ExprRange { start: Some(a), end: Some(b), limits: RangeLimits::Closed(_), .. }) = bare_range {
            // for x in a..=b
            let (a0, a1, b0, b1) = (rng(a.span()).0, rng(a.span()).1, rng(b.span()).0, rng(b.span()).1);
            self.put(es, a0, "vf_range_incl(");
            self.visit_expr(a);
            self.put(a1, b0, ", ");
            self.visit_expr(b);
            self.put(b1, ee, ")");
            whole_ref = true;
        }
        if !whole_ref { self.visit_expr(&l.expr); if let Some(w) = self.item["for_wrap"].as_str() { self.put(es, es, format!("({}", "")); self.put(ee, ee, format!(").{w}()")); } }
        let inv = self.sec(&format!("loop {k}"));
        let b = rng(l.body.span()).0;
        if let Some(t) = inv { self.put(b, b, format!("\n{t}\n")); }
        let (bg, en) = (self.sec(&format!("loop-begin {k}")), self.sec(&format!("loop-end {k}")));
        // reference patterns are bound by hand: Verus takes only plain patterns here
        let begin = bg;
        let open = rng(l.body.brace_token.span.open()).1;
        if let Pat::Reference(_) | Pat::Tuple(_) | Pat::TupleStruct(_) = &*l.pat {
            let (ps, pe) = rng(l.pat.span());
            let pt = self.src[ps..pe].to_string();
            self.put(ps, pe, format!("vf_x{k}"));
            self.put(open, open, format!("\n{}", bind(&l.pat, &format!("vf_x{k}"), &pt)));
        }
        self.body_ghost(&l.body, begin, None);
        self.visit_block(&l.body);
        self.no_continue(&l.body);
        self.body_ghost(&l.body, None, en);
        if let Some(t) = self.sec(&format!("loop-after {k}")) { let e = rng(l.span()).1; self.put(e, e, format!("\n{t}\n")); }
    }
    fn visit_expr_while(&mut self, l: &'ast ExprWhile) {
        let k = self.loops.len();
        self.loops.push("while".into());
        self.visit_expr(&l.cond);
        let b = rng(l.body.span()).0;
        if let Some(t) = self.sec(&format!("loop {k}")) { self.put(b, b, format!("\n{t}\n")); }
        let (bg, en) = (self.sec(&format!("loop-begin {k}")), self.sec(&format!("loop-end {k}")));
        self.body_ghost(&l.body, bg, None);
        self.visit_block(&l.body);
        self.body_ghost(&l.body, None, en);
        if let Some(t) = self.sec(&format!("loop-after {k}")) { let e = rng(l.span()).1; self.put(e, e, format!("\n{t}\n")); }
    }
    fn visit_expr_loop(&mut self, l: &'ast ExprLoop) {
        let k = self.loops.len();
        self.loops.push("loop".into());
        let b = rng(l.body.span()).0;
        if let Some(t) = self.sec(&format!("loop {k}")) { self.put(b, b, format!("\n{t}\n")); }
        let (bg, en) = (self.sec(&format!("loop-begin {k}")), self.sec(&format!("loop-end {k}")));
        self.body_ghost(&l.body, bg, None);
        self.visit_block(&l.body);
        self.body_ghost(&l.body, None, en);
        if let Some(t) = self.sec(&format!("loop-after {k}")) { let e = rng(l.span()).1; self.put(e, e, format!("\n{t}\n")); }
    }
    fn visit_expr_closure(&mut self, c: &'ast ExprClosure) {
        let k = self.closures;
        self.closures += 1;
        let (s, _) = rng(c.span());
        let (bs, be) = rng(c.body.span());
        match self.sec(&format!("closure {k}")) {
            None => { visit::visit_expr_closure(self, c); }
            Some(mut h) => {
                let mut lets = String::new();
                for (i, p) in c.inputs.iter().enumerate() {
                    let pat = match p { Pat::Type(t) => &*t.pat, p => p };
                    let name = if let Pat::Ident(id) = pat { self.locals.push(id.ident.to_string()); id.ident.to_string() } else {
                        self.visit_pat(pat);
                        let (ps, pe) = rng(pat.span());
                        let pt = self.src[ps..pe].to_string();
                        lets.push_str(&bind(pat, &format!("vf_p{k}_{i}"), &pt));
                        format!("vf_p{k}_{i}")
                    };
                    h = h.replace(&format!("${i}"), &name);
                }
                self.put(s, bs, format!("{} {{ {lets} ", h.trim_end()));
                self.visit_expr(&c.body);
                self.put(be, be, " }");
            }
        }
        // the specification function of a closure given to an adapter
        if let Some(t) = self.sec(&format!("closure-ghost {k}")) { self.put(be, be, format!(", Ghost({})", t.trim())); }
    }
    fn visit_local(&mut self, l: &'ast Local) {
        let mut names = Cx::new(self.src, self.item);
        names.visit_pat(&l.pat);
        if let (Pat::Reference(r), Some(init)) = (&l.pat, &l.init) {
            // let &P = e  ->  let P = *(e)
            let (s, _) = rng(l.pat.span());
            self.put(s, rng(r.pat.span()).0, "");
            let (es, ee) = rng(init.expr.span());
            self.put(es, es, "*(");
            visit::visit_local(self, l);
            self.put(ee, ee, ")");
        } else {
            visit::visit_local(self, l);
        }
        for n in names.locals {
            if let Some(t) = self.sec(&format!("after-let {n}")) { let e = rng(l.span()).1; self.put(e, e, format!("\n{t}\n")); }
        }
    }
    fn visit_arm(&mut self, a: &'ast Arm) {
        // P with &Q inside: Q, matched through the reference, its variables copied out in the guard and the body
        struct Refs { amps: Vec<(usize, usize)>, names: Vec<String>, inside: bool, odd: bool }
        impl<'a> Visit<'a> for Refs {
            fn visit_pat_reference(&mut self, p: &'a PatReference) {
                if p.mutability.is_some() || self.inside { self.odd = true; }
                self.amps.push((rng(p.span()).0, rng(p.pat.span()).0));
                let was = std::mem::replace(&mut self.inside, true);
                visit::visit_pat(self, &p.pat);
                self.inside = was;
            }
            fn visit_pat_ident(&mut self, p: &'a PatIdent) {
                let n = p.ident.to_string();
                if self.inside && !n.starts_with(|c: char| c.is_uppercase()) { if p.by_ref.is_some() || p.mutability.is_some() || p.subpat.is_some() { self.odd = true; } self.names.push(n); }
            }
        }
        let mut r = Refs { amps: vec![], names: vec![], inside: false, odd: false };
        r.visit_pat(&a.pat);
        visit::visit_arm(self, a);
        if r.amps.is_empty() || r.odd || matches!(a.pat, Pat::Or(_)) { return; }
        for (s, e) in r.amps { self.put(s, e, ""); }
        let lets: String = r.names.iter().map(|n| format!("let {n} = *{n}; ")).collect();
        if let Some((_, g)) = &a.guard { let (s, e) = rng(g.span()); self.put(s, s, format!("{{ {lets}")); self.put(e, e, " }"); }
        let (s, e) = rng(a.body.span());
        self.put(s, s, format!("{{ {lets}"));
        self.put(e, e, " }");
    }
    fn visit_item(&mut self, i: &'ast Item) {
        if let Item::Const(c) = i {
            // a constant of a function body becomes a local
            let (s, e) = rng(i.span());
            let (ts, es, ee) = (rng(c.ident.span()).0, rng(c.expr.span()).0, rng(c.expr.span()).1);
            self.put(s, ts, "let ");
            self.visit_type(&c.ty);
            self.visit_expr(&c.expr);
            let _ = (es, ee, e);
            return;
        }
        if let Item::Type(t) = i {
            // an alias without parameters is dropped where the unit's tables take it and its type to the same
            let target: String = t.ty.to_token_stream().to_string().replace(' ', "");
            let (a, b) = (self.map("types", &t.ident.to_string()), self.map("types", &target));
            if a.is_some() && a == b && t.generics.params.is_empty() { let (s, e) = rng(i.span()); self.put(s, e, ""); return; }
        }
        // nested items are copied unchanged
        if !matches!(i, Item::Const(_) | Item::Use(_)) { self.errors.push("nested item".into()); }
    }
}

/// bind a reference/tuple pattern by hand, for patterns of the form &x, (a, b), (&a, b) ...
fn bind(p: &Pat, from: &str, text: &str) -> String {
    match p {
        Pat::Reference(r) => { let t = r.pat.to_token_stream().to_string(); format!("let {t} = *{from};\n") }
        Pat::Tuple(t) => {
            let mut out = String::new();
            let tmp: Vec<String> = (0..t.elems.len()).map(|i| format!("{from}_{i}")).collect();
            out.push_str(&format!("let ({}) = {from};\n", tmp.join(", ")));
            for (x, n) in t.elems.iter().zip(&tmp) {
                if matches!(x, Pat::Wild(_)) { continue; }
                out.push_str(&bind(x, n, &x.to_token_stream().to_string()));
            }
            out
        }
        _ => format!("let {text} = {from};\n"),
    }
}

/// a struct of a sol! block: the Rust struct and its ABI words
fn sol(tokens: &str, name: &str) -> R<String> {
    let at = tokens.find(&format!("struct {name} {{")).ok_or("sol struct")?;
    let body = &tokens[tokens[at..].find('{').unwrap() + at + 1..];
    let body = &body[..body.find('}').ok_or("sol struct")?];
    let mut fields = vec![];
    for f in body.split(';').map(|f| f.trim()).filter(|f| !f.is_empty()) {
        let (t, n) = f.rsplit_once(' ').ok_or("sol field")?;
        let t = match t.trim() { "bytes32" => "B256".to_string(), "uint64" => "u64".to_string(), t if t.starts_with(|c: char| c.is_uppercase()) && t.chars().all(|c| c.is_alphanumeric()) => format!("Abi{t}"), t => return Err(format!("sol type {t}")) };
        fields.push((n.to_string(), t));
    }
    let mut out = format!("#[derive(PartialEq, Eq, Structural, Clone, Copy)]\npub struct Abi{name} {{ {} }}\n", fields.iter().map(|(n, t)| format!("pub {n}: {t}")).collect::<Vec<_>>().join(", "));
    out.push_str(&format!("impl AbiWords for Abi{name} {{ open spec fn words(self) -> Seq<u8> {{ {} }} }}\n", fields.iter().map(|(n, _)| format!("self.{n}.words()")).collect::<Vec<_>>().join(" + ")));
    Ok(out)
}

fn is_test(attrs: &[Attribute]) -> bool { attrs.iter().any(|a| a.path().is_ident("cfg") && a.to_token_stream().to_string().contains("test")) }

fn ty_name(t: &Type) -> String {
    match t { Type::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default(), Type::Reference(r) => ty_name(&r.elem), _ => String::new() }
}

enum Found<'f> { Item(&'f Item), Method(&'f ImplItemFn), TraitFn(&'f TraitItemFn) }

fn find<'f>(items: &'f [Item], kind: &str, path: &str, out: &mut Vec<Found<'f>>) {
    for i in items {
        match i {
            Item::Fn(f) if kind == "fn" && f.sig.ident == path => { if !is_test(&f.attrs) { out.push(Found::Item(i)) } }
            Item::Struct(s) if kind == "struct" && s.ident == path => out.push(Found::Item(i)),
            Item::Enum(s) if kind == "enum" && s.ident == path => out.push(Found::Item(i)),
            Item::Const(s) if kind == "const" && s.ident == path => out.push(Found::Item(i)),
            Item::Static(s) if (kind == "static" && s.ident == path) || (kind == "fn" && path == format!("static {}", s.ident)) => out.push(Found::Item(i)),
            Item::Type(s) if kind == "type" && s.ident == path => out.push(Found::Item(i)),
            Item::Macro(m) if kind == "sol" && m.mac.path.segments.last().is_some_and(|x| x.ident == "sol") && m.mac.tokens.to_string().contains(&format!("struct {path} {{")) => out.push(Found::Item(i)),
            Item::Macro(m) if kind == "macro" && m.ident.as_ref().is_some_and(|x| x == path) => out.push(Found::Item(i)),
            Item::Mod(m) => { if !is_test(&m.attrs) { if let Some((_, c)) = &m.content { find(c, kind, path, out) } } }
            Item::Trait(t) if kind == "fn" => {
                if let Some(name) = path.strip_prefix(&format!("trait {}::", t.ident)) {
                    for x in &t.items { if let TraitItem::Fn(f) = x { if f.sig.ident == name { out.push(Found::TraitFn(f)) } } }
                }
            }
            Item::Impl(m) if kind == "fn" => {
                let ty = ty_name(&m.self_ty);
                let tr = m.trait_.as_ref().map(|(_, p, _)| p.segments.last().unwrap().to_token_stream().to_string().replace(' ', ""));
                for x in &m.items {
                    if let ImplItem::Fn(f) = x {
                        let hit = match &tr {
                            None => path == format!("{ty}::{}", f.sig.ident),
                            Some(t) => path == format!("{t} for {ty}::{}", f.sig.ident) || path == format!("{} for {ty}::{}", t.split('<').next().unwrap(), f.sig.ident),
                        };
                        if hit { out.push(Found::Method(f)); }
                    }
                }
            }
            _ => {}
        }
    }
}

fn emit_fn(cx: &mut Cx, sig: &Signature, body: &Block, vis: &str) -> R<String> {
    if let Some(n) = cx.item["rename"].as_str() { let (s, e) = rng(sig.ident.span()); let n = n.to_string(); cx.put(s, e, n); }
    let (_, send) = rng(sig.span());
    let start = rng(sig.fn_token.span()).0;
    // parameters
    let mut shadows = String::new();
    for a in &sig.inputs {
        match a {
            FnArg::Typed(t) => {
                match &*t.pat {
                    Pat::Ident(p) => {
                        cx.locals.push(p.ident.to_string());
                        if let Some(m) = &p.mutability { let (s, e) = rng(m.span()); cx.put(s, e, ""); shadows.push_str(&format!("let mut {0} = {0};\n", p.ident)); }
                    }
                    p => {
                        let (s, e) = rng(p.span());
                        let n = format!("vf_arg{}", cx.locals.len());
                        shadows.push_str(&format!("let {} = {n};\n", p.to_token_stream()));
                        cx.visit_pat(p);
                        cx.put(s, e, n);
                    }
                }
                cx.visit_type(&t.ty);
            }
            FnArg::Receiver(r) => {
                for a in &r.attrs { cx.visit_attribute(a); }
                // interior mutability made explicit: &self  ->  &mut self
                if let (Some((and, None)), None, Some(true)) = (&r.reference, &r.mutability, cx.item["self_as_mut"].as_bool()) {
                    let e = rng(and.span()).1;
                    cx.put(e, e, "mut ");
                }
                // mut self  ->  self, copied into a local
                if let (Some(m), None) = (&r.mutability, &r.reference) {
                    let (s, e) = rng(m.span());
                    cx.put(s, e, "");
                    shadows.push_str("let mut vf_self = self;\n");
                    cx.self_mut = true;
                }
            }
        }
    }
    // effects on the environment are threaded as one more parameter
    if let Some(x) = cx.item["extra_param"].as_str() {
        let c = rng(sig.paren_token.span.close()).0;
        let x = format!("{}{x}", if sig.inputs.is_empty() || sig.inputs.trailing_punct() { "" } else { ", " });
        cx.put(c, c, x);
    }
    let ret = cx.item["ret"].as_str().unwrap_or("vr").to_string();
    if let ReturnType::Type(_, t) = &sig.output {
        let (s, e) = rng(t.span());
        cx.put(s, s, format!("({ret}: "));
        cx.visit_type(t);
        cx.put(e, e, ")");
    }
    cx.visit_generics(&sig.generics);
    let spec = cx.sec("spec").unwrap_or_default();
    let open = rng(body.brace_token.span.open());
    cx.put(send, open.0, format!("\n{spec}\n"));
    if cx.item["assume"].as_bool() == Some(true) {
        // the contract only: the body is proved against it elsewhere
        let text = cx.render(start, open.0)?;
        return Ok(format!("{vis}{text}{{ unimplemented!() }}"));
    }
    cx.put(open.1, open.1, format!("\n{shadows}"));
    let begin = cx.sec("begin");
    cx.body_ghost(body, begin, None);
    // ghost text before the final expression, or at the end
    let tail = cx.sec("tail");
    if let Some(t) = &tail {
        match body.stmts.last() {
            Some(Stmt::Expr(x, None)) => { let s = rng(x.span()).0; cx.put(s, s, format!("\n{t}\n")); }
            _ => {}
        }
    }
    // ghost text after the final expression: its value is named first
    if let (Some(t), Some(Stmt::Expr(x, None))) = (cx.sec("result"), body.stmts.last()) {
        let (s, e) = rng(x.span());
        let ty = match &sig.output {
            ReturnType::Type(_, t) => { let mut c = Cx::new(cx.src, cx.item); c.visit_type(t); let (a, b) = rng(t.span()); format!(": {}", c.render(a, b)?) }
            _ => String::new(),
        };
        cx.put(s, s, format!("let vf_r{ty} = "));
        cx.put(e, e, format!(";\n{t}\nvf_r"));
    }
    cx.visit_block(body);
    if let (Some(t), false) = (&tail, matches!(body.stmts.last(), Some(Stmt::Expr(_, None)))) { cx.body_ghost(body, None, Some(t.clone())); }
    let end = rng(body.span()).1;
    let text = cx.render(start, end)?;
    Ok(format!("{vis}{text}"))
}

fn emit_fields(cx: &mut Cx, f: &Fields) {
    for x in f.iter() {
        for a in &x.attrs { cx.visit_attribute(a); }
        let first = x.ident.as_ref().map(|i| rng(i.span()).0).unwrap_or(rng(x.ty.span()).0);
        let vs = match &x.vis { Visibility::Inherited => first, v => rng(v.span()).0 };
        cx.put(vs, first, "pub ");
        cx.visit_type(&x.ty);
    }
}

fn extract(root: &str, item: &Value) -> R<Value> {
    let file = item["file"].as_str().ok_or("file")?;
    let src = std::fs::read_to_string(format!("{root}/{file}")).map_err(|e| format!("{file}: {e}"))?;
    let ast = syn::parse_file(&src).map_err(|e| format!("{file}: {e}"))?;
    let kind = item["kind"].as_str().unwrap();
    let path = item["path"].as_str().unwrap();
    let mut found = vec![];
    find(&ast.items, kind, path, &mut found);
    if found.is_empty() { return Err(format!("lost anchor: {kind} {path} not found in {file}")); }
    if found.len() > 1 { return Err(format!("lost anchor: {kind} {path} is ambiguous in {file}")); }
    let mut cx = Cx::new(&src, item);
    let vis = item["vis"].as_str().unwrap_or("pub ").to_string();
    let (text, span) = match found.pop().unwrap() {
        Found::Method(f) => (emit_fn(&mut cx, &f.sig, &f.block, &vis)?, f.span()),
        Found::TraitFn(f) => (emit_fn(&mut cx, &f.sig, f.default.as_ref().ok_or("no default body")?, "")?, f.span()),
        Found::Item(i) => match i {
            Item::Fn(f) => (emit_fn(&mut cx, &f.sig, &f.block, &vis)?, f.span()),
            Item::Struct(s) => {
                emit_fields(&mut cx, &s.fields);
                let (_, e) = rng(s.span());
                let t = cx.render(rng(s.struct_token.span()).0, e)?;
                (format!("pub {t}"), s.span())
            }
            Item::Enum(s) => {
                for v in &s.variants {
                    for a in &v.attrs { cx.visit_attribute(a); }
                    for f in v.fields.iter() { for a in &f.attrs { cx.visit_attribute(a); } cx.visit_type(&f.ty); }
                }
                let (_, e) = rng(s.span());
                (format!("pub {}", cx.render(rng(s.enum_token.span()).0, e)?), s.span())
            }
            Item::Const(c) => { cx.visit_expr(&c.expr); (format!("pub {}", cx.render(rng(c.const_token.span()).0, rng(c.span()).1)?), c.span()) }
            Item::Static(c) if kind == "fn" => {
                // a static becomes a function returning its initial value
                cx.visit_expr(&c.expr);
                cx.visit_type(&c.ty);
                let (ts, te) = rng(c.ty.span());
                let t = format!("pub fn {}() -> (vr: {})\n{}\n{{ {} }}", c.ident.to_string().to_lowercase(), cx.render(ts, te)?, cx.sec("spec").unwrap_or_default(), cx.render(rng(c.expr.span()).0, rng(c.expr.span()).1)?);
                (t, c.span())
            }
            Item::Static(c) => { cx.visit_expr(&c.expr); (cx.render(rng(c.expr.span()).0, rng(c.expr.span()).1)?, c.span()) }
            Item::Type(c) => { cx.visit_type(&c.ty); (format!("pub {}", cx.render(rng(c.type_token.span()).0, rng(c.span()).1)?), c.span()) }
            Item::Macro(c) if kind == "sol" => (sol(&c.mac.tokens.to_string(), path)?, c.span()),
            Item::Macro(c) => (c.mac.tokens.to_string(), c.span()),
            _ => return Err("kind".into()),
        },
    };
    if !cx.errors.is_empty() { return Err(format!("unsupported in {path}: {}", cx.errors.join("; "))); }
    let (s, e) = rng(span);
    let source = &src[s..e];
    let line = src[..s].matches('\n').count() + 1;
    Ok(json!({"text": text, "locals": cx.locals, "loops": cx.loops, "closures": cx.closures, "calls": cx.calls, "aborts": cx.aborts,
        "edits": cx.edits.len(), "source": source, "tokens": syn::parse_str::<proc_macro2::TokenStream>(source).map(|t| t.to_string()).unwrap_or_default(), "line": line}))
}

/// all functions of a file, to recognise helpers that the contracts do not know
fn list_fns(root: &str, file: &str) -> R<Value> {
    let src = std::fs::read_to_string(format!("{root}/{file}")).map_err(|e| format!("{file}: {e}"))?;
    let ast = syn::parse_file(&src).map_err(|e| format!("{file}: {e}"))?;
    fn walk(items: &[Item], out: &mut Vec<String>) {
        for i in items {
            match i {
                Item::Fn(f) if !is_test(&f.attrs) => out.push(f.sig.ident.to_string()),
                Item::Mod(m) if !is_test(&m.attrs) => { if let Some((_, c)) = &m.content { walk(c, out) } }
                Item::Impl(m) => for x in &m.items { if let ImplItem::Fn(f) = x {
                    let tr = m.trait_.as_ref().map(|(_, p, _)| format!("{} for ", p.segments.last().unwrap().ident)).unwrap_or_default();
                    out.push(format!("{tr}{}::{}", ty_name(&m.self_ty), f.sig.ident)) } },
                Item::Trait(t) => for x in &t.items { if let TraitItem::Fn(f) = x { if f.default.is_some() { out.push(format!("trait {}::{}", t.ident, f.sig.ident)) } } },
                _ => {}
            }
        }
    }
    let mut out = vec![];
    walk(&ast.items, &mut out);
    Ok(json!(out))
}

fn main() {
    let mut s = String::new();
    std::io::stdin().read_to_string(&mut s).unwrap();
    let req: Value = serde_json::from_str(&s).unwrap();
    let root = req["root"].as_str().unwrap();
    let mut out: BTreeMap<String, Value> = BTreeMap::new();
    for item in req["items"].as_array().unwrap() {
        let id = item["id"].as_str().unwrap().to_string();
        let v = match std::panic::catch_unwind(|| extract(root, item)) { Ok(Ok(v)) => v, Ok(Err(e)) => json!({"error": e}), Err(_) => json!({"error": "extractor panicked"}) };
        out.insert(id, v);
    }
    let mut fns = BTreeMap::new();
    for f in req["list"].as_array().unwrap_or(&vec![]) {
        let f = f.as_str().unwrap();
        fns.insert(f.to_string(), list_fns(root, f).unwrap_or_else(|e| json!({"error": e})));
    }
    println!("{}", json!({"items": out, "fns": fns}));
}
