//! Takes the crate's own source text, cuts what the verifier cannot take (the
//! list is in the output), splices the contracts in and rewrites the few
//! constructs Verus does not accept (rules R1.. below, each counted).
//!
//! extract SRC_DIR CONTRACTS_DIR PRELUDE OUT.rs OUT.json [--stub a::b,c::d]
mod contracts;
use contracts::*;
use proc_macro2::Span;
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write as _;
use std::path::{Path, PathBuf};
use syn::spanned::Spanned;
use syn::visit::{self, Visit};

#[derive(Clone, Debug)]
struct Edit {
    start: usize,
    end: usize,
    text: String,
    kind: u8, // 0 close, 1 insert or replace, 2 open
    ord: i64,
    delete: bool,
}

#[derive(Clone, Debug, Default)]
pub struct FnOut {
    pub name: String,
    pub file: String,
    pub line: usize,
    pub props: Vec<String>,
    pub status: String,
    pub note: String,
    pub lines: (usize, usize),
    pub clauses: Vec<(usize, String, Vec<String>)>,
    /// loop kinds in the order of their text: changed loops make a lost proof undecided, not a violation
    pub skel: String,
    /// names of what is called
    pub calls: Vec<String>,
    /// names bound: parameters, variables, patterns, in the order of the text
    pub names: Vec<String>,
    /// the heads of its loops, in the order of the text
    pub heads: Vec<String>,
}

/// The value of an expression that is made of integer literals only.
fn folded(e: &syn::Expr) -> Option<String> {
    fn go(e: &syn::Expr) -> Option<(u128, String)> {
        match e {
            syn::Expr::Lit(l) => match &l.lit {
                syn::Lit::Int(i) => Some((i.base10_parse().ok()?, i.suffix().to_string())),
                _ => None,
            },
            syn::Expr::Paren(p) => go(&p.expr),
            syn::Expr::Binary(b) => {
                let ((x, s), (y, t)) = (go(&b.left)?, go(&b.right)?);
                let (v, s) = match b.op {
                    syn::BinOp::Shl(_) if y < 64 => (x.checked_mul(1 << y)?, s),
                    syn::BinOp::Add(_) => (x.checked_add(y)?, if s.is_empty() { t } else { s }),
                    syn::BinOp::Sub(_) => (x.checked_sub(y)?, if s.is_empty() { t } else { s }),
                    syn::BinOp::Mul(_) => (x.checked_mul(y)?, if s.is_empty() { t } else { s }),
                    _ => return None,
                };
                // what does not fit is left to the verifier
                if v > i32::MAX as u128 && s != "u64" && s != "usize" {
                    return None;
                }
                Some((v, s))
            }
            _ => None,
        }
    }
    let (v, s) = go(e)?;
    Some(format!("{}{}", v, s))
}

/// The heads of the loops of a function: what is gone through, the condition.
struct Heads<'s>(&'s str, Vec<String>);
impl<'b, 's> Visit<'b> for Heads<'s> {
    fn visit_item(&mut self, _: &'b syn::Item) {}
    fn visit_expr_for_loop(&mut self, e: &'b syn::ExprForLoop) {
        let t = norm(&self.0[r(e.expr.span())]);
        self.1.push(format!("for({})", t.trim_start_matches('&').trim_end_matches(".iter()")));
        visit::visit_expr_for_loop(self, e);
    }
    fn visit_expr_while(&mut self, e: &'b syn::ExprWhile) {
        self.1.push(format!("while({})", norm(&self.0[r(e.cond.span())])));
        visit::visit_expr_while(self, e);
    }
    fn visit_expr_loop(&mut self, e: &'b syn::ExprLoop) {
        self.1.push("loop".into());
        visit::visit_expr_loop(self, e);
    }
}
/// Which loop of the old text each loop of the new one is: the same head, else the same place.
fn moved(old: &[String], new: &[String]) -> Vec<usize> {
    if old.len() != new.len() {
        return (0..new.len()).collect();
    }
    let mut m: Vec<Option<usize>> = vec![None; new.len()];
    let mut left: Vec<usize> = (0..old.len()).collect();
    for same_place in [true, false] {
        for j in 0..new.len() {
            if m[j].is_none() {
                if let Some(k) = left.iter().position(|&i| old[i] == new[j] && (i == j || !same_place)) {
                    m[j] = Some(left.remove(k));
                }
            }
        }
    }
    m.into_iter().map(|x| x.unwrap_or_else(|| left.remove(0))).collect()
}

/// The names bound in a function.
struct Names(Vec<String>);
impl<'b> Visit<'b> for Names {
    fn visit_pat_ident(&mut self, p: &'b syn::PatIdent) {
        let n = p.ident.to_string();
        if n.chars().next().map(|c| !c.is_uppercase()).unwrap_or(false) {
            self.0.push(n);
        }
        visit::visit_pat_ident(self, p);
    }
}
/// Which names a contract written for `old` must use for a text that binds `new`:
/// names that are gone are those that came in the same places (or the one that came,
/// if one is gone and one came). A name the contract uses itself is not taken.
fn renamed(old: &[String], new: &[String], c: &FnContract) -> BTreeMap<String, String> {
    let o: BTreeSet<&String> = old.iter().collect();
    let n: BTreeSet<&String> = new.iter().collect();
    let gone: Vec<&&String> = o.difference(&n).collect();
    let came: Vec<&&String> = n.difference(&o).collect();
    let mut m: BTreeMap<String, String> = BTreeMap::new();
    if old.len() == new.len() {
        for (a, b) in old.iter().zip(new) {
            if gone.contains(&&a) && came.contains(&&b) {
                if m.get(a).map(|x| x != b).unwrap_or(false) {
                    return BTreeMap::new();
                }
                m.insert(a.clone(), b.clone());
            }
        }
    } else if gone.len() == 1 && came.len() == 1 {
        m.insert(gone[0].to_string(), came[0].to_string());
    }
    let used = idents(&format!("{:?}", c));
    m.retain(|_, b| !used.contains(b));
    m
}
fn idents(t: &str) -> BTreeSet<String> {
    t.split(|c: char| !c.is_alphanumeric() && c != '_').map(|s| s.to_string()).collect()
}
fn rename(t: &str, m: &BTreeMap<String, String>) -> String {
    let mut out = String::new();
    let cs: Vec<char> = t.chars().collect();
    let mut i = 0;
    while i < cs.len() {
        if cs[i].is_alphabetic() || cs[i] == '_' {
            let a = i;
            while i < cs.len() && (cs[i].is_alphanumeric() || cs[i] == '_') {
                i += 1;
            }
            let w: String = cs[a..i].iter().collect();
            let field = a > 0 && cs[a - 1] == '.' && !(a > 1 && cs[a - 2] == '.');
            let path = cs[i..].starts_with(&[':', ':']) || a > 1 && cs[a - 1] == ':' && cs[a - 2] == ':';
            match m.get(&w) {
                Some(n) if !field && !path => out.push_str(n),
                _ => out.push_str(&w),
            }
        } else {
            out.push(cs[i]);
            i += 1;
        }
    }
    out
}
fn rename_contract(c: &mut FnContract, m: &BTreeMap<String, String>) {
    let f = |t: &mut String| *t = rename(t, m);
    f(&mut c.spec);
    for o in [&mut c.start, &mut c.end, &mut c.tail, &mut c.bind].into_iter().flatten() {
        f(o);
    }
    for l in c.loops.iter_mut().flatten() {
        f(&mut l.inv);
        for o in [&mut l.start, &mut l.end].into_iter().flatten() {
            f(o);
        }
    }
    for (k, _, x) in c.stmts.iter_mut() {
        f(k);
        f(x);
    }
    c.closures.iter_mut().for_each(f);
    c.calls.values_mut().for_each(f);
}

struct Skel(String, BTreeSet<String>);
impl<'b> Visit<'b> for Skel {
    fn visit_expr_for_loop(&mut self, e: &'b syn::ExprForLoop) {
        self.0.push_str("for(");
        visit::visit_expr_for_loop(self, e);
        self.0.push(')');
    }
    fn visit_expr_while(&mut self, e: &'b syn::ExprWhile) {
        self.0.push_str("while(");
        visit::visit_expr_while(self, e);
        self.0.push(')');
    }
    fn visit_expr_loop(&mut self, e: &'b syn::ExprLoop) {
        self.0.push_str("loop(");
        visit::visit_expr_loop(self, e);
        self.0.push(')');
    }
    fn visit_expr_closure(&mut self, e: &'b syn::ExprClosure) {
        self.0.push_str("|(");
        visit::visit_expr_closure(self, e);
        self.0.push(')');
    }
    fn visit_expr_call(&mut self, e: &'b syn::ExprCall) {
        if let syn::Expr::Path(p) = &*e.func {
            self.1.insert(p.path.segments.last().unwrap().ident.to_string());
        }
        visit::visit_expr_call(self, e);
    }
    fn visit_expr_method_call(&mut self, e: &'b syn::ExprMethodCall) {
        self.1.insert(e.method.to_string());
        visit::visit_expr_method_call(self, e);
    }
}

struct Global {
    contracts: Contracts,
    stubs: BTreeSet<String>,
    fns: Vec<FnOut>,
    drops: Vec<String>,
    rules: BTreeMap<&'static str, usize>,
    used: BTreeSet<String>,
    lost: Vec<String>,
    /// the names each function bound when its contract was written
    names: BTreeMap<String, Vec<String>>,
    /// the heads of the loops it had then
    heads: BTreeMap<String, Vec<String>>,
}

struct Cx<'g> {
    g: &'g mut Global,
    src: String,
    file: String,
    module: String,
    edits: Vec<Edit>,
    seq: i64,
    // state of the function being visited
    fc: Option<FnContract>,
    fname: String,
    loops: usize,
    closures: usize,
    lost: Vec<String>,
    stmt_used: BTreeSet<usize>,
    /// "Option" or "Result": what the function gives back
    kind: String,
    /// where the expressions stand whose value is of that kind
    values: BTreeSet<(usize, usize)>,
}

/// The expressions that give the value of a block.
fn tails(e: &syn::Expr, out: &mut BTreeSet<(usize, usize)>) {
    fn block(b: &syn::Block, out: &mut BTreeSet<(usize, usize)>) {
        if let Some(syn::Stmt::Expr(e, None)) = b.stmts.last() {
            tails(e, out);
        }
    }
    match e {
        syn::Expr::Block(b) => block(&b.block, out),
        syn::Expr::If(i) => {
            block(&i.then_branch, out);
            if let Some((_, e)) = &i.else_branch {
                tails(e, out);
            }
        }
        syn::Expr::Match(m) => m.arms.iter().for_each(|a| tails(&a.body, out)),
        syn::Expr::Paren(p) => tails(&p.expr, out),
        _ => {
            let rg = r(e.span());
            out.insert((rg.start, rg.end));
        }
    }
}
/// Whether a body means the same outside its closure.
fn plain(e: &syn::Expr) -> bool {
    struct P(bool);
    impl<'b> Visit<'b> for P {
        fn visit_expr_try(&mut self, _: &'b syn::ExprTry) {
            self.0 = false;
        }
        fn visit_expr_return(&mut self, _: &'b syn::ExprReturn) {
            self.0 = false;
        }
    }
    let mut p = P(true);
    p.visit_expr(e);
    p.0
}

fn r(s: Span) -> std::ops::Range<usize> {
    s.byte_range()
}

impl<'g> Cx<'g> {
    fn text(&self, s: Span) -> String {
        self.src[r(s)].to_string()
    }
    /// Takes the & off the bindings by copy in a pattern; gives the lets that copy.
    fn copies(&mut self, p: &syn::Pat) -> String {
        struct Copies(Vec<(std::ops::Range<usize>, String)>);
        impl<'b> Visit<'b> for Copies {
            fn visit_pat_reference(&mut self, p: &'b syn::PatReference) {
                if let syn::Pat::Ident(i) = &*p.pat {
                    if i.by_ref.is_none() && i.mutability.is_none() && i.subpat.is_none() && p.mutability.is_none() {
                        self.0.push((r(p.and_token.span()), i.ident.to_string()));
                    }
                }
            }
        }
        let mut v = Copies(vec![]);
        v.visit_pat(p);
        let mut t = String::new();
        for (rg, n) in v.0 {
            self.rule("R27 a binding by copy, &x in a pattern, becomes x and let x = *x");
            self.rep(rg, "");
            t.push_str(&format!("let {} = *{}; ", n, n));
        }
        t
    }
    fn ins(&mut self, at: usize, t: impl Into<String>) {
        self.seq += 1;
        self.edits.push(Edit { start: at, end: at, text: t.into(), kind: 1, ord: self.seq, delete: false });
    }
    fn open(&mut self, at: usize, t: impl Into<String>) {
        self.seq += 1;
        self.edits.push(Edit { start: at, end: at, text: t.into(), kind: 2, ord: self.seq, delete: false });
    }
    fn close(&mut self, at: usize, t: impl Into<String>) {
        self.seq += 1;
        self.edits.push(Edit { start: at, end: at, text: t.into(), kind: 0, ord: -self.seq, delete: false });
    }
    fn rep(&mut self, a: std::ops::Range<usize>, t: impl Into<String>) {
        self.seq += 1;
        self.edits.push(Edit { start: a.start, end: a.end, text: t.into(), kind: 1, ord: self.seq, delete: false });
    }
    /// Replaces the range and whatever edits lie inside it.
    fn del(&mut self, a: std::ops::Range<usize>, t: impl Into<String>) {
        self.seq += 1;
        self.edits.push(Edit { start: a.start, end: a.end, text: t.into(), kind: 1, ord: self.seq, delete: true });
    }
    fn rule(&mut self, n: &'static str) {
        *self.g.rules.entry(n).or_default() += 1;
    }
    fn apply(&self) -> String {
        let mut es: Vec<Edit> = self.edits.clone();
        let dels: Vec<(usize, usize, i64)> = es.iter().filter(|e| e.delete).map(|e| (e.start, e.end, e.ord)).collect();
        es.retain(|e| {
            !dels.iter().any(|d| {
                let inside = if e.start == e.end { e.start > d.0 && e.start < d.1 } else { e.start >= d.0 && e.end <= d.1 };
                inside && !(e.delete && e.start == d.0 && e.end == d.1 && e.ord == d.2)
            })
        });
        es.sort_by_key(|e| (e.start, if e.start == e.end { e.kind } else { 3 }, e.ord));
        let mut out = String::new();
        let mut p = 0;
        for e in es {
            if e.start < p {
                panic!("{}: overlapping edits at {}: {:?}", self.file, p, e);
            }
            out.push_str(&self.src[p..e.start]);
            out.push_str(&e.text);
            p = e.end;
        }
        out.push_str(&self.src[p..]);
        out
    }

    fn attrs(&mut self, attrs: &[syn::Attribute]) {
        for a in attrs {
            let rg = r(a.span());
            self.del(rg, "");
        }
    }
    fn vis(&mut self, v: &syn::Visibility, at: usize) {
        match v {
            syn::Visibility::Public(_) => {}
            syn::Visibility::Inherited => {
                self.open(at, "pub ");
                // after the markers and attributes that open() puts at the same place
                self.edits.last_mut().unwrap().ord += 1 << 40;
            }
            syn::Visibility::Restricted(x) => {
                let rg = r(x.span());
                self.rep(rg, "pub");
            }
        }
    }

    fn items(&mut self, items: &[syn::Item], dir: &Path, out: &mut String) -> Vec<(String, PathBuf)> {
        let mut mods = vec![];
        for it in items {
            self.item(it, dir, &mut mods, out);
        }
        mods
    }

    fn is_test(attrs: &[syn::Attribute]) -> bool {
        attrs.iter().any(|a| a.path().is_ident("cfg") && quote::quote!(#a).to_string().contains("(test)"))
    }

    fn item(&mut self, it: &syn::Item, dir: &Path, mods: &mut Vec<(String, PathBuf)>, _out: &mut String) {
        match it {
            syn::Item::Mod(m) => {
                if !Self::is_test(&m.attrs) && m.content.is_none() {
                    let n = m.ident.to_string();
                    let a = dir.join(format!("{}.rs", n));
                    let b = dir.join(&n).join("mod.rs");
                    mods.push((n, if a.exists() { a } else { b }));
                } else if !Self::is_test(&m.attrs) {
                    self.g.drops.push(format!("{}: inline module {}", self.file, m.ident));
                }
                self.del(r(it.span()), "");
            }
            syn::Item::ExternCrate(_) => self.del(r(it.span()), ""),
            syn::Item::Use(u) => {
                self.attrs(&u.attrs);
                self.use_tree(&u.tree, true);
            }
            syn::Item::Const(c) => {
                self.attrs(&c.attrs);
                let at = r(c.const_token.span()).start;
                self.vis(&c.vis, at);
                if let syn::Expr::Repeat(x) = &*c.expr {
                    let n: usize = self.text(x.len.span()).parse().unwrap_or(0);
                    if n > 0 && n <= 64 {
                        self.rule("R15 const [x; N] is written out");
                        let v = self.text(x.expr.span());
                        self.rep(r(x.span()), format!("[{}]", vec![v; n].join(", ")));
                    }
                }
                if let (syn::Expr::Binary(x), Some(v)) = (&*c.expr, folded(&c.expr)) {
                    self.rule("R31 arithmetic on integer literals is written as its result");
                    self.rep(r(x.span()), v);
                }
            }
            syn::Item::Type(c) => {
                self.attrs(&c.attrs);
                let at = r(c.type_token.span()).start;
                self.vis(&c.vis, at);
            }
            syn::Item::Struct(s) => {
                self.attrs(&s.attrs);
                let at = r(s.struct_token.span()).start;
                self.vis(&s.vis, at);
                for f in s.fields.iter() {
                    self.attrs(&f.attrs);
                    let at = match &f.ident {
                        Some(i) => r(i.span()).start,
                        None => r(f.ty.span()).start,
                    };
                    self.vis(&f.vis, at);
                }
                let start = match &s.vis {
                    syn::Visibility::Public(p) => r(p.span()).start,
                    _ => at,
                };
                self.derives(&s.ident.to_string(), &s.attrs, start, false, r(it.span()).end);
            }
            syn::Item::Enum(s) => {
                self.attrs(&s.attrs);
                let at = r(s.enum_token.span()).start;
                self.vis(&s.vis, at);
                let unit = s.variants.iter().all(|v| v.fields.is_empty());
                for v in s.variants.iter() {
                    self.attrs(&v.attrs);
                    for f in v.fields.iter() {
                        self.attrs(&f.attrs);
                    }
                }
                let start = match &s.vis {
                    syn::Visibility::Public(p) => r(p.span()).start,
                    _ => at,
                };
                self.derives(&s.ident.to_string(), &s.attrs, start, unit, r(it.span()).end);
            }
            syn::Item::Fn(f) => {
                self.attrs(&f.attrs);
                let at = r(f.sig.fn_token.span()).start;
                self.vis(&f.vis, at);
                let n = f.sig.ident.to_string();
                self.function(&n, &f.sig, Some(&f.block), vis_start(&f.vis, at));
            }
            syn::Item::Trait(t) => {
                self.attrs(&t.attrs);
                let at = r(t.trait_token.span()).start;
                self.vis(&t.vis, at);
                let tn = t.ident.to_string();
                let key = format!("trait {}", tn);
                let bkey = format!("bound {}", key);
                if let Some(x) = self.g.contracts.raw(&self.module, &bkey) {
                    self.g.used.insert(format!("{}|{}", self.module, bkey));
                    self.rule("R13 ghost supertrait or bound added (no executable content)");
                    let p = r(t.ident.span()).end;
                    self.ins(p, format!(" {}", x));
                }
                if let Some(x) = self.g.contracts.raw(&self.module, &key) {
                    self.g.used.insert(format!("{}|{}", self.module, key));
                    let p = r(t.brace_token.span.open()).end;
                    self.ins(p, format!("\n{}", x));
                }
                for i in &t.items {
                    if let syn::TraitItem::Fn(f) = i {
                        self.attrs(&f.attrs);
                        let at = r(f.sig.fn_token.span()).start;
                        let n = format!("{}::{}", tn, f.sig.ident);
                        self.function(&n, &f.sig, f.default.as_ref(), at);
                    }
                }
            }
            syn::Item::Impl(im) => self.imp(im),
            other => {
                self.g.drops.push(format!("{}: {}", self.file, first_line(&self.text(other.span()))));
                self.del(r(other.span()), "");
            }
        }
    }

    fn derives(&mut self, name: &str, attrs: &[syn::Attribute], at: usize, unit: bool, end: usize) {
        let mut have: Vec<String> = vec![];
        for a in attrs {
            if a.path().is_ident("derive") {
                let _ = a.parse_nested_meta(|m| {
                    if let Some(i) = m.path.get_ident() {
                        have.push(i.to_string());
                    }
                    Ok(())
                });
            }
        }
        let key = format!("type {}", name);
        let over = self.g.contracts.types.get(&(self.module.clone(), name.to_string())).cloned();
        self.g.used.insert(format!("{}|{}", self.module, key));
        let mut d: Vec<String> = vec![];
        let mut structural = false;
        if let Some(o) = over.as_ref().filter(|o| o.derive.is_some()) {
            // what is kept must be derived in the source as well
            for x in o.derive.clone().unwrap() {
                if have.contains(&x) || x == "Structural" {
                    d.push(x);
                } else {
                    self.g.lost.push(format!("{}::{} no longer derives {}", self.module, name, x));
                }
            }
        } else {
            for h in &have {
                if h == "Copy" || h == "Clone" {
                    d.push(h.clone());
                }
                if unit && (h == "PartialEq" || h == "Eq") {
                    d.push(h.clone());
                }
            }
            if unit && have.iter().any(|h| h == "PartialEq") && have.iter().any(|h| h == "Eq") {
                structural = true;
            }
        }
        if let Some(i) = d.iter().position(|x| x == "Structural") {
            d.remove(i);
            structural = true;
        }
        if structural {
            // what derive(Structural) would say; the source derives PartialEq and Eq
            self.ins(end, format!("\nunsafe impl Structural for {} {{}}\n", name));
        }
        if let Some(i) = d.iter().position(|x| x == "Clone") {
            // the derived Clone with the contract Verus does not give it
            d.remove(i);
            self.rule("R14 derived Clone becomes an assumed impl that returns an equal value");
            self.ins(
                end,
                format!(
                    "\nimpl Clone for {} {{ #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self {{ unimplemented!() }} }}\n",
                    name
                ),
            );
        }
        if !d.is_empty() {
            self.ins(at, format!("#[derive({})]\n", d.join(", ")));
        }
        if let Some(o) = over {
            for n in &o.needs {
                if !have.contains(n) {
                    self.g.lost.push(format!("{}::{} no longer derives {}", self.module, name, n));
                }
            }
            if !o.attr.is_empty() {
                self.ins(at, format!("{}\n", o.attr));
            }
            if !o.after.is_empty() {
                self.ins(end, format!("\n{}\n", o.after));
            }
        }
    }

    fn imp(&mut self, im: &syn::ItemImpl) {
        self.attrs(&im.attrs);
        let ty = match &*im.self_ty {
            syn::Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(),
            _ => self.text(im.self_ty.span()),
        };
        let mut prefix = ty.clone();
        let mut trait_impl = false;
        if let Some((_, path, for_tok)) = &im.trait_ {
            let tn = path.segments.last().unwrap().ident.to_string();
            match tn.as_str() {
                "Display" | "Error" | "Debug" => {
                    self.g.drops.push(format!("{}: impl {} for {}", self.file, tn, ty));
                    self.del(r(im.span()), "");
                    return;
                }
                "From" => {
                    self.rule("R6 impl From becomes impl VFrom (same body)");
                    let id = r(path.segments.last().unwrap().ident.span());
                    self.rep(id, "crate::vx::VFrom");
                    trait_impl = true;
                    // tell the several From impls apart by their argument
                    let full = self.text(path.span());
                    prefix = format!("{} for {}", full, ty);
                }
                "Iterator" => {
                    self.rule("R7 impl Iterator becomes an inherent impl (same body)");
                    let a = r(path.span()).start;
                    let b = r(for_tok.span()).end;
                    self.del(a..b, "");
                }
                _ => {
                    trait_impl = true;
                    let full = self.text(path.span());
                    prefix = format!("{} for {}", full, ty);
                }
            }
        }
        let bkey = format!("bound {}", prefix);
        if let Some(x) = self.g.contracts.raw(&self.module, &bkey) {
            self.g.used.insert(format!("{}|{}", self.module, bkey));
            self.rule("R13 ghost supertrait or bound added (no executable content)");
            match (&im.generics.lt_token, &im.generics.gt_token) {
                (Some(a), Some(b)) => {
                    let rg = r(a.span()).start..r(b.span()).end;
                    self.del(rg, x);
                }
                _ => self.g.lost.push(format!("{}: generics of impl {}", self.module, prefix)),
            }
        }
        let key = format!("impl {}", prefix);
        if let Some(x) = self.g.contracts.raw(&self.module, &key) {
            self.g.used.insert(format!("{}|{}", self.module, key));
            let p = r(im.brace_token.span.open()).end;
            self.ins(p, format!("\n{}", x));
        }
        for i in &im.items {
            match i {
                syn::ImplItem::Fn(f) => {
                    self.attrs(&f.attrs);
                    let at = r(f.sig.fn_token.span()).start;
                    if !trait_impl {
                        if im.trait_.is_some() {
                            self.vis(&syn::Visibility::Inherited, at);
                        } else {
                            self.vis(&f.vis, at);
                        }
                    }
                    if prefix.starts_with("From<") {
                        self.rep(r(f.sig.ident.span()), "vx_from");
                    }
                    let n = format!("{}::{}", prefix, f.sig.ident);
                    self.function(&n, &f.sig, Some(&f.block), vis_start(&f.vis, at));
                }
                syn::ImplItem::Type(t) => {
                    if im.trait_.as_ref().map(|t| t.1.segments.last().unwrap().ident == "Iterator").unwrap_or(false) {
                        self.del(r(t.span()), "");
                    }
                }
                _ => {}
            }
        }
    }

    fn use_tree(&mut self, t: &syn::UseTree, top: bool) {
        if let syn::UseTree::Path(p) = t {
            if top {
                let id = p.ident.to_string();
                let rg = r(p.ident.span());
                match id.as_str() {
                    "base64" | "byteorder" | "chrono" | "flate2" | "hex" | "rand" | "secstr" | "uuid" => {
                        self.rep(rg, format!("crate::vx::{}", id))
                    }
                    "xml" | "rust_xml" => self.rep(rg, "crate::vx::xml"),
                    "rust_crypto" => self.rep(rg, "crate::vx::rust_crypto"),
                    "std" => match &*p.tree {
                        syn::UseTree::Path(q) if q.ident == "io" => self.rep(rg, "crate::vx"),
                        syn::UseTree::Name(q) if q.ident == "io" => self.rep(rg, "crate::vx"),
                        syn::UseTree::Name(q) if q.ident == "str" => {
                            self.rep(rg, "crate::vx");
                            self.rep(r(q.ident.span()), "str_ as str");
                        }
                        _ => {}
                    },
                    _ => {}
                }
            }
        }
    }

    fn function(&mut self, name: &str, sig: &syn::Signature, block: Option<&syn::Block>, start: usize) {
        let full = format!("{}::{}", self.module, name);
        let key = (self.module.clone(), name.to_string());
        let c = self.g.contracts.fns.get(&key).cloned();
        self.g.used.insert(format!("{}|fn {}", self.module, name));
        let idx = self.g.fns.len();
        let line = self.src[..r(sig.span()).start].matches('\n').count() + 1;
        let mut fo = FnOut { name: full.clone(), file: self.file.clone(), line, ..Default::default() };
        if let Some(b) = block {
            let mut k = Skel(String::new(), BTreeSet::new());
            k.visit_block(b);
            fo.skel = k.0;
            fo.calls = k.1.into_iter().collect();
        }
        let mut ns = Names(vec![]);
        ns.visit_signature(sig);
        if let Some(b) = block {
            ns.visit_block(b);
        }
        fo.names = ns.0;
        if let Some(b) = block {
            let mut h = Heads(&self.src, vec![]);
            h.visit_block(b);
            fo.heads = h.1;
        }
        self.kind = match &sig.output {
            syn::ReturnType::Type(_, t) => match &**t {
                syn::Type::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default(),
                _ => String::new(),
            },
            _ => String::new(),
        };
        self.values.clear();
        if let Some(syn::Stmt::Expr(e, None)) = block.and_then(|b| b.stmts.last()) {
            tails(e, &mut self.values);
        }
        let mut swapped = false;
        let c = c.map(|mut c| {
            let m = self.g.names.get(&full).map(|o| renamed(o, &fo.names, &c)).unwrap_or_default();
            if let Some(h) = self.g.heads.get(&full) {
                let h: Vec<String> = h.iter().map(|t| rename(t, &m)).collect();
                let p = moved(&h, &fo.heads);
                if p.iter().enumerate().any(|(i, j)| i != *j) {
                    let l = std::mem::take(&mut c.loops);
                    c.loops = p.iter().map(|j| l.get(*j).cloned().flatten()).collect();
                    swapped = true;
                }
            }
            {
                if !m.is_empty() {
                    rename_contract(&mut c, &m);
                    let l: Vec<String> = m.iter().map(|(a, b)| format!("{} as {}", a, b)).collect();
                    self.g.drops.push(format!("{}: the contract of {} reads {}", self.file, name, l.join(", ")));
                }
            }
            c
        });
        let stub = self.g.stubs.contains(&full);
        let end = match block {
            Some(b) => r(b.span()).end,
            None => 0,
        };
        let (c, status) = match c {
            Some(c) => {
                let s = if stub {
                    "stubbed"
                } else if c.trusted {
                    "trusted"
                } else if c.omit {
                    "omitted"
                } else {
                    "verified"
                };
                (c, s)
            }
            None => (FnContract::default(), if stub || std::env::var("STUB_UNLISTED").is_ok() { "stubbed" } else { "unlisted" }),
        };
        fo.props = c.props.clone();
        fo.note = c.note.clone();
        fo.status = status.to_string();
        if block.is_none() {
            fo.status = "declaration".into();
        }
        if c.drop {
            fo.status = "dropped".into();
            self.g.drops.push(format!("{}: fn {} ({})", self.file, name, c.note));
            self.edits.retain(|e| !(e.start == start && e.end == start && e.text == "pub "));
            self.del(start..if end > 0 { end } else { r(sig.span()).end + 1 }, "");
            self.g.fns.push(fo);
            return;
        }
        self.open(start, format!("/*@F{}*/ ", idx));
        for (i, a) in sig.inputs.iter().enumerate() {
            if let syn::FnArg::Typed(p) = a {
                if let syn::Pat::Wild(w) = &*p.pat {
                    self.rep(r(w.span()), format!("vx_p{}", i));
                }
            }
        }
        // named result
        if let Some(rn) = &c.ret {
            if let syn::ReturnType::Type(_, t) = &sig.output {
                let rg = r(t.span());
                self.open(rg.start, format!("({}: ", rn));
                self.close(rg.end, ")");
            } else {
                self.lost.push("no result to name".into());
            }
        }
        let opaque = matches!(status, "stubbed" | "trusted" | "omitted") && block.is_some();
        if opaque {
            self.open(start, "#[verifier::external_body] ");
        }
        for a in &c.attrs {
            if !opaque || !a.contains("rlimit") && !a.contains("loop_isolation") && !a.contains("spinoff") {
                self.open(start, format!("{} ", a));
            }
        }
        let spec = if stub && !c.trusted {
            // what a body that was not verified promises is not promised
            String::new()
        } else {
            c.spec.clone()
        };
        match block {
            Some(b) => {
                let bs = r(b.span());
                if !spec.trim().is_empty() {
                    self.close(bs.start, format!("\n    /*@S{}*/\n{}\n    /*@T{}*/", idx, spec, idx));
                }
                if opaque {
                    self.del(bs.start..bs.end, format!("{{ unimplemented!() }}/*@E{}*/", idx));
                } else {
                    self.close(bs.end, format!("/*@E{}*/", idx));
                    let keep = std::mem::take(&mut self.lost);
                    if swapped {
                        self.lost.push("its loops changed places".into());
                    }
                    self.fc = Some(c.clone());
                    self.fname = full.clone();
                    self.loops = 0;
                    self.closures = 0;
                    self.stmt_used.clear();
                    if let Some(t) = &c.start {
                        self.ins(bs.start + 1, format!("\n{}\n", t));
                    }
                    if std::env::var("REACH").is_ok() {
                        self.ins(bs.start + 1, "\nassert(false); /*REACH*/\n");
                    }
                    if let Some(t) = &c.tail {
                        match b.stmts.last() {
                            Some(s) => {
                                let at = r(s.span()).start;
                                self.ins(at, format!("{}\n", t));
                            }
                            None => self.lost.push("no tail".into()),
                        }
                    }
                    if let Some(t) = &c.bind {
                        match b.stmts.last() {
                            Some(syn::Stmt::Expr(e, None)) => {
                                self.rule("R23 the value of a body is bound to a variable before it is given back");
                                self.open(r(e.span()).start, "let vx_r = ");
                                self.close(r(e.span()).end, format!(";\n{}\nvx_r", t));
                            }
                            _ => self.lost.push("no value".into()),
                        }
                    }
                    if let Some(t) = &c.end {
                        self.ins(bs.end - 1, format!("\n{}\n", t));
                    }
                    self.visit_block(b);
                    for (i, l) in c.loops.iter().enumerate() {
                        if l.is_some() && i >= self.loops {
                            self.lost.push(format!("loop {} is gone", i));
                        }
                    }
                    if c.nloops.map(|n| n != self.loops).unwrap_or(false) {
                        self.lost.push(format!("{} loops, not {}", self.loops, c.nloops.unwrap()));
                    }
                    for (i, (k, _, _)) in c.stmts.iter().enumerate() {
                        if !self.stmt_used.contains(&i) {
                            self.lost.push(format!("statement '{}' is gone", k));
                        }
                    }
                    if c.closures.len() != self.closures && !c.closures.is_empty() {
                        self.lost.push(format!("{} closures, not {}", self.closures, c.closures.len()));
                    }
                    if !self.lost.is_empty() {
                        fo.note = self.lost.join("; ");
                        fo.status = "lost".into();
                        self.g.lost.push(format!("{}: {}", full, self.lost.join("; ")));
                    }
                    self.lost = keep;
                    self.fc = None;
                }
            }
            None => {
                let se = r(sig.span()).end;
                let mut t = String::new();
                if !spec.trim().is_empty() {
                    let _ = write!(t, "\n    /*@S{}*/\n{}\n    /*@T{}*/", idx, spec, idx);
                }
                // after the parenthesis that close() put there
                self.ins(se, t + &format!("/*@E{}*/", idx));
            }
        }
        self.g.fns.push(fo);
    }

    /// The contract of the loop about to be entered.
    fn next_loop(&mut self) -> Option<LoopContract> {
        let i = self.loops;
        self.loops += 1;
        let l = self.fc.as_ref().and_then(|c| c.loops.get(i).cloned().flatten());
        if l.is_none() && self.fc.is_some() {
            self.lost.push(format!("no invariant for loop {}", i));
        }
        l
    }
    fn loop_common(&mut self, body: &syn::Block, l: &LoopContract) {
        let b = r(body.span());
        if std::env::var("REACH").is_ok() {
            self.ins(b.start + 1, "\nassert(false); /*REACH*/\n");
        }
        if !l.inv.trim().is_empty() {
            self.close(b.start, format!("\n{}\n", l.inv));
        }
        if let Some(t) = &l.start {
            self.ins(b.start + 1, format!("\n{}\n", t));
        }
        if let Some(t) = &l.end {
            self.ins(b.end - 1, format!("\n{}\n", t));
        }
    }
}

fn vis_start(v: &syn::Visibility, at: usize) -> usize {
    match v {
        syn::Visibility::Public(p) => r(p.span()).start,
        syn::Visibility::Restricted(p) => r(p.span()).start,
        _ => at,
    }
}
fn first_line(s: &str) -> String {
    s.lines().next().unwrap_or("").to_string()
}
fn norm(s: &str) -> String {
    s.split_whitespace().collect::<Vec<_>>().join(" ")
}

fn is_range_index(e: &syn::Expr) -> bool {
    match e {
        syn::Expr::Index(i) => matches!(&*i.index, syn::Expr::Range(_)),
        syn::Expr::Reference(x) => is_range_index(&x.expr),
        syn::Expr::Paren(x) => is_range_index(&x.expr),
        _ => false,
    }
}
/// A path to something that is not a constant, such as an enum's variant.
fn is_variant(e: &syn::Expr) -> bool {
    matches!(e, syn::Expr::Path(p) if p.path.segments.len() > 1 && p.path.segments.last().unwrap().ident.to_string().contains(|c: char| c.is_lowercase()))
}

fn method<'a>(e: &'a syn::Expr, name: &str, n: usize) -> Option<&'a syn::ExprMethodCall> {
    match e {
        syn::Expr::MethodCall(m) if m.method == name && m.args.len() == n => Some(m),
        _ => None,
    }
}

impl<'a, 'g> Visit<'a> for Cx<'g> {
    fn visit_item(&mut self, _: &'a syn::Item) {}

    fn visit_stmt(&mut self, s: &'a syn::Stmt) {
        let t = norm(&self.text(s.span()));
        if let Some(c) = self.fc.clone() {
            for (i, (k, before, txt)) in c.stmts.iter().enumerate() {
                if !self.stmt_used.contains(&i) && t.starts_with(k.as_str()) {
                    self.stmt_used.insert(i);
                    let rg = r(s.span());
                    if *before {
                        self.ins(rg.start, format!("{}\n", txt));
                    } else {
                        self.close(rg.end, format!("\n{}\n", txt));
                    }
                }
            }
        }
        if let syn::Stmt::Expr(e, Some(semi)) = s {
            if let Some(me) = method(e, "map_err", 1) {
                if let (Some(m), syn::Expr::Closure(c2)) = (method(&me.receiver, "map", 1), &me.args[0]) {
                    if let syn::Expr::Closure(c1) = &m.args[0] {
                        if c1.inputs.len() == 1 && c2.inputs.len() == 1 {
                            self.rule("R25 the statement e.map(|x| a).map_err(|y| b); becomes the match it stands for");
                            self.open(r(m.receiver.span()).start, "match ");
                            let t = format!(" {{ Ok({}) => {{ ", self.text(c1.inputs[0].span()));
                            self.rep(r(m.receiver.span()).end..r(c1.body.span()).start, t);
                            let t = format!("; }} Err({}) => {{ ", self.text(c2.inputs[0].span()));
                            self.rep(r(c1.body.span()).end..r(c2.body.span()).start, t);
                            self.rep(r(c2.body.span()).end..r(semi.span()).end, "; } }");
                            self.visit_expr(&m.receiver);
                            self.visit_expr(&c1.body);
                            self.visit_expr(&c2.body);
                            return;
                        }
                    }
                }
            }
        }
        visit::visit_stmt(self, s);
    }

    fn visit_expr_return(&mut self, e: &'a syn::ExprReturn) {
        if let Some(e) = &e.expr {
            tails(e, &mut self.values);
        }
        visit::visit_expr_return(self, e);
    }

    fn visit_expr_try(&mut self, e: &'a syn::ExprTry) {
        let rg = r(e.expr.span());
        self.values.insert((rg.start, rg.end));
        if self.kind == "Option" {
            self.rule("R1 e? becomes the match it stands for");
            self.open(r(e.span()).start, "(match ");
            self.rep(r(e.question_token.span()), " { Some(vx_v) => vx_v, None => return None })");
            visit::visit_expr_try(self, e);
            return;
        }
        self.rule("R1 e? becomes the match it stands for");
        self.open(r(e.span()).start, "(match ");
        self.rep(
            r(e.question_token.span()),
            " { Ok(vx_v) => vx_v, Err(vx_e) => return Err(crate::vx::VFrom::vx_from(vx_e)) })",
        );
        visit::visit_expr_try(self, e);
    }

    fn visit_macro(&mut self, m: &'a syn::Macro) {
        let n = m.path.segments.last().unwrap().ident.to_string();
        match n.as_str() {
            "format" => {
                self.rule("R2 format! becomes calls appending each piece");
                let p = syn::punctuated::Punctuated::<syn::Expr, syn::Token![,]>::parse_terminated;
                let args = match syn::parse::Parser::parse2(p, m.tokens.clone()) {
                    Ok(a) => a,
                    Err(_) => return self.lost.push("format! arguments".into()),
                };
                let mut it = args.iter();
                let lit = match it.next() {
                    Some(syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(s), .. })) => s.value(),
                    _ => return self.lost.push("format! text".into()),
                };
                let args: Vec<String> = it.map(|a| self.text(a.span())).collect();
                match fmt_calls(&lit, &args) {
                    Some(t) => self.del(r(m.span()), t),
                    None => self.lost.push("format! text".into()),
                }
            }
            "eprintln" | "println" | "eprint" | "print" => {
                self.g.drops.push(format!("{}: {}! in {}", self.file, n, self.fname));
                self.del(r(m.span()), "()");
            }
            "write" | "writeln" => self.lost.push("write!".into()),
            "vec" => {
                let p = syn::punctuated::Punctuated::<syn::Expr, syn::Token![,]>::parse_terminated;
                let _ = p;
            }
            _ => {}
        }
    }

    fn visit_expr_struct(&mut self, e: &'a syn::ExprStruct) {
        if e.fields.is_empty() && e.rest.is_none() && e.path.segments.last().map(|x| x.ident == "OsRng").unwrap_or(false) {
            self.rule("R20 OsRng {} becomes its prelude constructor");
            self.del(r(e.span()), "crate::vx::rand::rngs::OsRng::unit()");
            return;
        }
        visit::visit_expr_struct(self, e);
    }

    fn visit_expr_for_loop(&mut self, e: &'a syn::ExprForLoop) {
        if norm(&self.text(e.pat.span())) == "(u, a)" && norm(&self.text(e.body.span())) == "{ *a = *u; }" {
            if let Some(z) = method(&e.expr, "zip", 1) {
                if let (Some(x), Some(y)) = (method(&z.receiver, "iter", 0), method(&z.args[0], "iter_mut", 0)) {
                    self.rule("R18 copying through iter().zip(iter_mut()) becomes vx::copy_zip (verified)");
                    let t = format!("crate::vx::copy_zip({}, &mut {});", self.text(x.receiver.span()), self.text(y.receiver.span()));
                    self.del(r(e.span()), t);
                    return;
                }
            }
        }
        let l = self.next_loop();
        let es = r(e.expr.span());
        if let Some(l) = l {
            match l.mode.as_str() {
                "" => {
                    let lets = self.copies(&e.pat);
                    if !lets.is_empty() {
                        self.ins(r(e.body.span()).start + 1, format!(" {}", lets));
                    }
                    if let Some(n) = &l.name {
                        self.open(es.start, format!("{}: ", n));
                    }
                    if let Some(m) = method(&e.expr, "chars", 0) {
                        self.rule("R24 for c in s.chars() becomes for over vx::chars_vec(s)");
                        self.open(es.start, "crate::vx::chars_vec(");
                        self.del(r(m.receiver.span()).end..es.end, ")");
                    }
                    if let Some(m) = method(&e.expr, "chunks", 1) {
                        self.rule("R22 for x in v.chunks(n) becomes for over the slices vx::chunks gives");
                        self.open(es.start, "crate::vx::chunks(&");
                        self.rep(r(m.receiver.span()).end..r(m.paren_token.span.open()).end, ", ");
                    }
                }
                "map" => {
                    self.rule("R3 for over a HashMap becomes for over vx::map_pairs of it");
                    let n = l.name.clone().unwrap_or("it".into());
                    match method(&e.expr, "iter", 0) {
                        Some(m) => {
                            self.open(es.start, format!("{}: crate::vx::map_pairs(&", n));
                            self.del(r(m.receiver.span()).end..es.end, ")");
                        }
                        None => {
                            self.open(es.start, format!("{}: crate::vx::map_pairs(", n));
                            self.close(es.end, ")");
                        }
                    }
                }
                "values" => {
                    self.rule("R3 for over a HashMap becomes for over vx::map_pairs of it");
                    let n = l.name.clone().unwrap_or("it".into());
                    match method(&e.expr, "values", 0) {
                        Some(m) => {
                            let rs = r(m.receiver.span());
                            self.open(es.start, format!("{}: crate::vx::map_values(&", n));
                            self.del(rs.end..es.end, ")");
                        }
                        None => self.lost.push("for over values".into()),
                    }
                }
                "next" => {
                    self.rule("R4 for over the crate's own iterator becomes loop and next()");
                    let n = l.name.clone().unwrap_or("vx_it".into());
                    let fs = r(e.for_token.span()).start;
                    let pat = self.text(e.pat.span());
                    self.rep(fs..es.start, format!("let mut {} = ", n));
                    let b = r(e.body.span());
                    self.close(es.end, format!("; loop {} {{ let ghost {}_before = {}; let {} = match {}.next() {{ Some(x) => x, None => break }};\n", l.inv, n, n, pat, n));
                    if let Some(t) = &l.start {
                        self.ins(b.start + 1, format!("\n{}\n", t));
                    }
                    if let Some(t) = &l.end {
                        self.ins(b.end - 1, format!("\n{}\n", t));
                    }
                    self.close(b.end, "}");
                    self.visit_expr(&e.expr);
                    self.visit_block(&e.body);
                    return;
                }
                "slots" => {
                    let m = match (method(&e.expr, "iter_mut", 0), &*e.expr) {
                        (Some(m), _) => Some(&*m.receiver),
                        (None, syn::Expr::Reference(m)) if m.mutability.is_some() => Some(&*m.expr),
                        _ => None,
                    };
                    let m = match m {
                        Some(m) if !self.text(e.body.span()).contains("continue") => m,
                        _ => return self.lost.push("for over iter_mut".into()),
                    };
                    self.rule("R26 for x in v.iter_mut() becomes while over an index, with x = &mut v[i]");
                    let n = l.name.clone().unwrap_or("vx_i".into());
                    let fs = r(e.for_token.span()).start;
                    let v = self.text(m.span());
                    let pat = self.text(e.pat.span());
                    let b = r(e.body.span());
                    self.del(fs..b.start, format!("{{ let mut {}: usize = 0; while {} < {}.len() {} ", n, n, v, l.inv));
                    self.ins(b.start + 1, format!("\n{}\nlet {} = &mut {}[{}];\n", l.start.clone().unwrap_or_default(), pat, v, n));
                    self.ins(b.end - 1, format!("\n{} = {} + 1;\n{}\n", n, n, l.end.clone().unwrap_or_default()));
                    self.close(b.end, "}");
                    self.visit_block(&e.body);
                    return;
                }
                m => self.lost.push(format!("loop mode {}", m)),
            }
            self.loop_common(&e.body, &l);
        }
        self.visit_expr(&e.expr);
        self.visit_block(&e.body);
    }
    fn visit_expr_while(&mut self, e: &'a syn::ExprWhile) {
        if let Some(l) = self.next_loop() {
            self.loop_common(&e.body, &l);
        }
        visit::visit_expr_while(self, e);
    }
    fn visit_expr_loop(&mut self, e: &'a syn::ExprLoop) {
        if let Some(l) = self.next_loop() {
            self.loop_common(&e.body, &l);
        }
        visit::visit_expr_loop(self, e);
    }

    fn visit_expr_reference(&mut self, e: &'a syn::ExprReference) {
        if let (None, syn::Expr::Index(ix)) = (&e.mutability, &*e.expr) {
            if let syn::Expr::Range(rg) = &*ix.index {
                if rg.start.is_none() && rg.end.is_none() {
                    self.rule("R21 &x[..] becomes (x).as_slice()");
                    self.rep(r(e.and_token.span()), "(");
                    self.del(r(ix.bracket_token.span.open()).start..r(e.span()).end, ").as_slice()");
                    self.visit_expr(&ix.expr);
                    return;
                }
            }
        }
        visit::visit_expr_reference(self, e);
    }

    fn visit_expr_binary(&mut self, e: &'a syn::ExprBinary) {
        if let Some(v) = folded(&syn::Expr::Binary(e.clone())) {
            self.rule("R31 arithmetic on integer literals is written as its result");
            self.rep(r(e.span()), v);
            return;
        }
        let op = match e.op {
            syn::BinOp::Eq(_) => Some("bytes_eq"),
            syn::BinOp::Ne(_) => Some("bytes_ne"),
            _ => None,
        };
        if let Some(op) = op {
            if is_range_index(&e.left) || is_range_index(&e.right) {
                self.rule("R5 comparing a slice becomes vx::bytes_eq of the operands");
                self.open(r(e.span()).start, format!("crate::vx::{}(&(", op));
                self.rep(r(e.op.span()), "), &(");
                self.close(r(e.span()).end, "))");
            } else if let (Some(k), false) = (self.fc.as_ref().and_then(|c| c.eq.clone()), is_variant(&e.left) || is_variant(&e.right)) {
                self.rule("R10 comparing texts or byte arrays becomes vx::str_eq or bytes_eq of the operands");
                let f = format!("{}_{}", k, if op == "bytes_eq" { "eq" } else { "ne" });
                self.open(r(e.span()).start, format!("crate::vx::{}(&(", f));
                self.rep(r(e.op.span()), "), &(");
                self.close(r(e.span()).end, "))");
            }
        }
        visit::visit_expr_binary(self, e);
    }

    fn visit_expr_method_call(&mut self, e: &'a syn::ExprMethodCall) {
        let name = e.method.to_string();
        // c.encrypt_block(&X[..], &mut Y[a..b])
        if name == "encrypt_block" && e.args.len() == 2 {
            if let syn::Expr::Reference(o) = &e.args[1] {
                if let (Some(_), syn::Expr::Index(ix)) = (&o.mutability, &*o.expr) {
                    if let syn::Expr::Range(rg) = &*ix.index {
                        if let (Some(a), Some(b), syn::RangeLimits::HalfOpen(_)) = (&rg.start, &rg.end, &rg.limits) {
                            self.rule("R19 encrypt_block into &mut y[a..b] becomes vx::encrypt_block_at(.., &mut y, a, b)");
                            let t = format!("&mut {}, {}, {}", self.text(ix.expr.span()), self.text(a.span()), self.text(b.span()));
                            self.open(r(e.span()).start, "crate::vx::encrypt_block_at(&");
                            self.del(r(e.receiver.span()).end..r(e.paren_token.span.open()).end, ", ");
                            self.del(r(e.args[1].span()), t);
                            self.visit_expr(&e.receiver);
                            self.visit_expr(&e.args[0]);
                            return;
                        }
                    }
                }
            }
        }
        // X.iter().position(closure), X.iter().find(closure)
        if (name == "position" || name == "find") && e.args.len() == 1 {
            if let Some(i) = method(&e.receiver, "iter", 0).or_else(|| self.fc.as_ref().filter(|c| c.calls.contains_key(&name)).and_then(|_| method(&e.receiver, "iter_mut", 0))) {
                self.rule("R8 iter().position/find(f) becomes vx::position/find");
                let rec = r(i.receiver.span());
                let dflt = if name == "find" { "crate::vx::it_find(" } else { "crate::vx::position(&" };
                let f = self.fc.as_ref().and_then(|c| c.calls.get(&name).cloned()).unwrap_or(dflt.into());
                let tail = if f.ends_with('&') { ", ".to_string() } else { format!(".{}(), ", i.method) };
                let f = if f.ends_with('(') || f.ends_with('&') { f } else { f + ", " };
                self.open(r(e.span()).start, f);
                self.del(rec.end..r(e.paren_token.span.open()).end, tail);
                self.visit_expr(&i.receiver);
                for a in &e.args {
                    self.visit_expr(a);
                }
                return;
            }
        }
        // X.iter().filter(closure).collect::<..>()
        if name == "collect" {
            if let Some(fm) = method(&e.receiver, "filter", 1) {
                if let Some(i) = method(&fm.receiver, "iter", 0).or_else(|| self.fc.as_ref().filter(|c| c.calls.contains_key("filter")).and_then(|_| method(&fm.receiver, "iter_mut", 0))) {
                    self.rule("R8 iter().filter(f).collect() becomes vx::filter_collect");
                    let f = self.fc.as_ref().and_then(|c| c.calls.get("filter").cloned()).unwrap_or("crate::vx::filter_collect(".into());
                    let f = if f.ends_with('(') { f } else { f + ", " };
                    self.open(r(e.span()).start, f);
                    self.del(r(i.span()).end..r(fm.paren_token.span.open()).end, ", ");
                    let a = r(fm.span()).end;
                    self.del(a..r(e.span()).end, "");
                    self.visit_expr(&fm.receiver);
                    self.visit_expr(&fm.args[0]);
                    return;
                }
            }
            if let Some(c) = method(&e.receiver, "chars", 0) {
                self.rule("R9 chars().collect() becomes vx::chars_vec");
                self.open(r(e.span()).start, "crate::vx::chars_vec(");
                self.del(r(c.receiver.span()).end..r(e.span()).end, ")");
                self.visit_expr(&c.receiver);
                return;
            }
        }
        // map, map_err, and_then on a value of the kind the function gives back
        let rg = r(e.span());
        if (name == "map" || name == "map_err" || name == "and_then") && e.args.len() == 1 && self.values.contains(&(rg.start, rg.end)) && self.fc.as_ref().map(|c| c.closures.is_empty() && !c.calls.contains_key(&name)).unwrap_or(true) && (self.kind == "Result" || self.kind == "Option" && name != "map_err") {
            let f: Option<(String, Option<&'a syn::Expr>)> = match &e.args[0] {
                syn::Expr::Path(p) if name == "map_err" && norm(&self.text(p.span())).ends_with("::from") => Some(("crate::vx::VFrom::vx_from".to_string(), None)),
                syn::Expr::Path(p) if name != "and_then" || p.path.segments.len() == 1 => Some((self.text(p.span()), None)),
                syn::Expr::Closure(c) if c.inputs.len() == 1 && plain(&c.body) => match &c.inputs[0] {
                    syn::Pat::Ident(_) | syn::Pat::Wild(_) => Some((self.text(c.inputs[0].span()), Some(&*c.body))),
                    syn::Pat::Type(t) => Some((self.text(t.pat.span()), Some(&*c.body))),
                    _ => None,
                },
                _ => None,
            };
            if let Some((f, body)) = f {
                self.rule("R30 e.map(f), e.map_err(f), e.and_then(f) as a value given back becomes the match it stands for");
                let rec = r(e.receiver.span());
                self.values.insert((rec.start, rec.end));
                let (ok, no) = if self.kind == "Result" { ("Ok", "Err") } else { ("Some", "None") };
                // the arm that keeps, the arm that changes, and what stands around its value
                let keep = match (self.kind.as_str(), name.as_str()) {
                    ("Result", "map_err") => "Ok(vx_v) => Ok(vx_v)",
                    ("Result", _) => "Err(vx_v) => Err(vx_v)",
                    _ => "None => None",
                };
                let con = if name == "map_err" { no } else { ok };
                let (a, z) = if name == "and_then" { ("", "") } else { (con, ")") };
                let a = if a.is_empty() { String::new() } else { format!("{}(", a) };
                self.open(rec.start, "(match ");
                match body {
                    None => self.del(rec.end..rg.end, format!(" {{ {}, {}(vx_x) => {}{}(vx_x){} }})", keep, con, a, f, z)),
                    Some(b) => {
                        let br = r(b.span());
                        self.closures += 1;
                        self.del(rec.end..br.start, format!(" {{ {}, {}({}) => {}", keep, con, f, a));
                        self.del(br.end..rg.end, format!("{} }})", z));
                        self.visit_expr(b);
                    }
                }
                self.visit_expr(&e.receiver);
                return;
            }
        }
        if name == "extend_from_slice" && e.args.len() == 1 {
            self.rule("R29 extend_from_slice becomes push_all, which calls it");
            self.rep(r(e.method.span()), "push_all");
        }
        // V.extend(E.iter().map(|&i| i))
        if name == "extend" && e.args.len() == 1 {
            if let Some(m) = method(&e.args[0], "map", 1) {
                if norm(&self.text(m.args[0].span())) == "|&i| i" {
                    if let Some(i) = method(&m.receiver, "iter", 0) {
                        self.rule("R11 extend(x.iter().map(|&i| i)) becomes push_all(x)");
                        self.rep(r(e.method.span()), "push_all");
                        let a = r(i.receiver.span()).end;
                        let b = r(m.span()).end;
                        self.del(a..b, "");
                        self.visit_expr(&e.receiver);
                        self.visit_expr(&i.receiver);
                        return;
                    }
                }
            }
        }
        let global = match (name.as_str(), e.args.len()) {
            ("to_lowercase", 0) => Some("crate::vx::to_lowercase"),
            ("contains", 1) => Some("crate::vx::contains"),
            ("starts_with", 1) => Some("crate::vx::starts_with"),
            ("trim_matches", 1) => Some("crate::vx::trim_matches"),
            ("parse", 0) => Some("crate::vx::parse"),
            _ => None,
        };
        let own = self.fc.as_ref().and_then(|c| c.calls.get(&format!(".{}", name)).cloned());
        if let Some(f) = own.or(global.map(|x| x.to_string())) {
            // a method call rendered as a call of the named prelude function
            self.rule("R12 a library method call becomes a call of its prelude stand-in");
            let rec = r(e.receiver.span());
            let tf = match &e.turbofish {
                Some(t) => self.text(t.span()),
                None => String::new(),
            };
            if e.args.is_empty() {
                self.close(rec.end, ")");
                self.open(r(e.span()).start, format!("{}{}(&(", f, tf));
            } else {
                self.open(r(e.span()).start, format!("{}{}(&(", f, tf));
            }
            let sep = if e.args.is_empty() { "" } else { "), " };
            self.del(rec.end..r(e.paren_token.span.open()).end, sep);
            self.visit_expr(&e.receiver);
            for a in &e.args {
                self.visit_expr(a);
            }
            return;
        }
        visit::visit_expr_method_call(self, e);
    }

    fn visit_expr_call(&mut self, e: &'a syn::ExprCall) {
        if norm(&self.text(e.func.span())) == "String::from" {
            self.rule("R16 String::from becomes vx::string_from");
            self.rep(r(e.func.span()), "crate::vx::string_from");
            for a in &e.args {
                self.visit_expr(a);
            }
            return;
        }
        visit::visit_expr_call(self, e);
    }

    fn visit_pat_reference(&mut self, p: &'a syn::PatReference) {
        // &P(ref x) against a reference is P(x) against the same reference
        if p.mutability.is_none() && !matches!(&*p.pat, syn::Pat::Ident(_) | syn::Pat::Wild(_)) {
            self.rule("R17 a pattern &P(ref x) becomes P(x) (default binding)");
            self.rep(r(p.and_token.span()), "");
            struct Refs(Vec<std::ops::Range<usize>>, bool);
            impl<'b> Visit<'b> for Refs {
                fn visit_pat_ident(&mut self, i: &'b syn::PatIdent) {
                    match &i.by_ref {
                        Some(t) if i.mutability.is_none() => self.0.push(r(t.span())),
                        _ => self.1 = true,
                    }
                }
            }
            let mut v = Refs(vec![], false);
            v.visit_pat(&p.pat);
            if v.1 {
                self.lost.push("a binding by copy in a reference pattern".into());
            }
            for rg in v.0 {
                self.rep(rg, "");
            }
            return;
        }
        visit::visit_pat_reference(self, p);
    }

    fn visit_arm(&mut self, a: &'a syn::Arm) {
        let lets = self.copies(&a.pat);
        if !lets.is_empty() {
            if a.guard.is_some() {
                self.lost.push("a binding by copy in a guarded arm".into());
            }
            let b = r(a.body.span());
            self.open(b.start, format!("{{ {}", lets));
            self.close(b.end, " }");
        }
        visit::visit_arm(self, a);
    }

    fn visit_expr_if(&mut self, e: &'a syn::ExprIf) {
        if let syn::Expr::Let(l) = &*e.cond {
            let lets = self.copies(&l.pat);
            if !lets.is_empty() {
                self.ins(r(e.then_branch.span()).start + 1, format!(" {}", lets));
            }
        }
        visit::visit_expr_if(self, e);
    }

    fn visit_expr_closure(&mut self, e: &'a syn::ExprClosure) {
        let i = self.closures;
        self.closures += 1;
        if let Some(h) = self.fc.as_ref().and_then(|c| c.closures.get(i).cloned()) {
            let a = r(e.or1_token.span()).start;
            let b = r(e.body.span());
            // the parameters as the contract names them, by place
            let mut ns = Names(vec![]);
            e.inputs.iter().for_each(|p| ns.visit_pat(p));
            let ps: Vec<String> = h.split('|').nth(1).unwrap_or("").split(',').map(|p| p.split(':').next().unwrap_or("").trim().trim_start_matches("mut ").to_string()).collect();
            let mut h = h;
            if ps.len() == ns.0.len() && ns.0.len() == e.inputs.len() {
                let m: BTreeMap<String, String> = ps.into_iter().zip(ns.0).filter(|(a, b)| a != b).collect();
                let used = idents(&h);
                if m.values().all(|b| !used.contains(b)) {
                    h = rename(&h, &m);
                }
            }
            self.rep(a..b.start, format!("{} {{ ", h));
            self.close(b.end, " }");
            self.visit_expr(&e.body);
            return;
        }
        visit::visit_expr_closure(self, e);
    }

    fn visit_path(&mut self, p: &'a syn::Path) {
        if p.segments.len() > 1 && p.segments[0].ident == "std" && p.segments[1].ident == "io" {
            let a = match p.leading_colon {
                Some(c) => r(c.span()).start,
                None => r(p.segments[0].span()).start,
            };
            let b = r(p.segments[0].span()).end;
            self.rep(a..b, "crate::vx");
        }
        visit::visit_path(self, p);
    }
}

/// format!'s text as calls that append its pieces.
fn fmt_calls(lit: &str, args: &[String]) -> Option<String> {
    let mut o = String::from("{ let mut vx_f = String::new(); ");
    let mut text = String::new();
    let mut next = 0usize;
    let mut ch = lit.chars().peekable();
    while let Some(c) = ch.next() {
        match c {
            '{' if ch.peek() == Some(&'{') => {
                ch.next();
                text.push('{');
            }
            '}' if ch.peek() == Some(&'}') => {
                ch.next();
                text.push('}');
            }
            '{' => {
                let mut s = String::new();
                for d in ch.by_ref() {
                    if d == '}' {
                        break;
                    }
                    s.push(d);
                }
                if !text.is_empty() {
                    let _ = write!(o, "crate::vx::fmt::lit(&mut vx_f, {:?}); ", text);
                    text.clear();
                }
                let (who, how) = match s.split_once(':') {
                    Some((a, b)) => (a.to_string(), b.to_string()),
                    None => (s, String::new()),
                };
                let arg = if who.is_empty() {
                    next += 1;
                    args.get(next - 1)?.clone()
                } else if let Ok(n) = who.parse::<usize>() {
                    args.get(n)?.clone()
                } else if who.chars().all(|c| c.is_alphanumeric() || c == '_') {
                    who
                } else {
                    return None;
                };
                let f = match how.as_str() {
                    "" => "disp",
                    "?" => "debug",
                    "02x" => "hex02",
                    "x" => "hex",
                    _ => "other",
                };
                let _ = write!(o, "crate::vx::fmt::{}(&mut vx_f, &({})); ", f, arg);
            }
            c => text.push(c),
        }
    }
    if !text.is_empty() {
        let _ = write!(o, "crate::vx::fmt::lit(&mut vx_f, {:?}); ", text);
    }
    o.push_str("vx_f }");
    Some(o)
}

/// R28: mutable references taken as shared ones. What is then verified is which items a traversal
/// hands out and in what order; that the references handed out are mutable is dropped.
struct Erase {
    edits: Vec<(std::ops::Range<usize>, String)>,
    fields: Vec<String>,
}
impl<'a> Visit<'a> for Erase {
    fn visit_type_reference(&mut self, t: &'a syn::TypeReference) {
        if let (Some(_), Some(m)) = (&t.lifetime, &t.mutability) {
            self.edits.push((r(m.span()), String::new()));
        }
        visit::visit_type_reference(self, t);
    }
    fn visit_receiver(&mut self, x: &'a syn::Receiver) {
        if let (Some((_, lt)), Some(m)) = (&x.reference, &x.mutability) {
            if lt.is_some() || self.fields.iter().any(|f| f == "self") {
                self.edits.push((r(m.span()), String::new()));
            }
        }
    }
    fn visit_expr_unsafe(&mut self, e: &'a syn::ExprUnsafe) {
        if let [syn::Stmt::Expr(syn::Expr::Call(c), None)] = &e.block.stmts[..] {
            if let (syn::Expr::Path(f), Some(syn::Expr::Reference(x))) = (&*c.func, c.args.first()) {
                if let (Some(l), syn::Expr::Path(v)) = (f.path.segments.last(), &*x.expr) {
                    if l.ident == "read" {
                        self.edits.push((r(e.span()).start..r(v.span()).start, String::new()));
                        self.edits.push((r(v.span()).end..r(e.span()).end, String::new()));
                        return;
                    }
                }
            }
        }
        visit::visit_expr_unsafe(self, e);
    }
    fn visit_expr_method_call(&mut self, e: &'a syn::ExprMethodCall) {
        if let syn::Expr::Field(f) = &*e.receiver {
            if let syn::Member::Named(n) = &f.member {
                if e.method == "iter_mut" && self.fields.iter().any(|x| n == x) {
                    self.edits.push((r(e.method.span()), "iter".into()));
                }
            }
        }
        visit::visit_expr_method_call(self, e);
    }
}
fn erase(g: &mut Global, modpath: &str, src: String) -> String {
    let mine: Vec<(String, Vec<String>)> = g.contracts.erase.iter().filter(|e| e.0 == modpath).map(|e| (e.1.clone(), e.2.clone())).collect();
    if mine.is_empty() {
        return src;
    }
    let file: syn::File = match syn::parse_file(&src) {
        Ok(f) => f,
        Err(_) => return src,
    };
    let mut edits = vec![];
    for (name, fields) in mine {
        let mut v = Erase { edits: vec![], fields };
        for it in &file.items {
            match it {
                syn::Item::Struct(s) if s.ident == name => v.visit_item_struct(s),
                syn::Item::Impl(im) => {
                    if let syn::Type::Path(p) = &*im.self_ty {
                        let t = p.path.segments.last().unwrap().ident.to_string();
                        for x in &im.items {
                            if let syn::ImplItem::Fn(f) = x {
                                if format!("{}::{}", t, f.sig.ident) == name {
                                    v.visit_impl_item_fn(f);
                                }
                            }
                        }
                        // the associated types of an impl go with its functions
                        if name == t {
                            for x in &im.items {
                                if let syn::ImplItem::Type(y) = x {
                                    v.visit_impl_item_type(y);
                                }
                            }
                        }
                    }
                }
                _ => {}
            }
        }
        if !v.edits.is_empty() {
            *g.rules.entry("R28 mutable references of a traversal or search are taken as shared ones (which items and in what order is kept)".into()).or_insert(0) += 1;
        }
        edits.extend(v.edits);
    }
    edits.sort_by_key(|e| e.0.start);
    let mut o = String::new();
    let mut at = 0;
    for (rg, t) in edits {
        if rg.start < at {
            continue;
        }
        o.push_str(&src[at..rg.start]);
        o.push_str(&t);
        at = rg.end;
    }
    o.push_str(&src[at..]);
    o
}

fn module(g: &mut Global, path: &Path, modpath: &str, root: &Path, depth: usize) -> String {
    let src = std::fs::read_to_string(path).unwrap_or_else(|e| panic!("{}: {}", path.display(), e));
    let src = erase(g, modpath, src);
    let file: syn::File = syn::parse_file(&src).unwrap_or_else(|e| panic!("{}: {}", path.display(), e));
    let rel = path.strip_prefix(root).unwrap().display().to_string();
    let mut cx = Cx {
        g,
        src,
        file: format!("src/{}", rel),
        module: modpath.to_string(),
        edits: vec![],
        seq: 0,
        fc: None,
        fname: String::new(),
        loops: 0,
        closures: 0,
        kind: String::new(),
        values: BTreeSet::new(),
        lost: vec![],
        stmt_used: BTreeSet::new(),
    };
    for a in &file.attrs {
        let rg = r(a.span());
        cx.del(rg, "");
    }
    let dir = if path.ends_with("lib.rs") || path.ends_with("mod.rs") {
        path.parent().unwrap().to_path_buf()
    } else {
        path.with_extension("")
    };
    let mut out = String::new();
    let mods = cx.items(&file.items, &dir, &mut out);
    let body = cx.apply();
    // leave comments out: they are not code
    let body = strip_comments(&body);
    let mut s = String::new();
    if depth > 0 {
        let name = modpath.rsplit("::").next().unwrap();
        let _ = writeln!(s, "pub mod {} {{ // {}", name, rel);
        s.push_str("#[allow(unused_imports)] use vstd::prelude::*;\n#[allow(unused_imports)] use crate::vx::prims::*;\n#[allow(unused_imports)] use crate::vx::{Into, VecExt};\n");
    }
    if let Some(x) = g.contracts.raw(modpath, "top") {
        g.used.insert(format!("{}|top", modpath));
        s.push_str(&x);
        s.push('\n');
    }
    s.push_str(&body);
    s.push('\n');
    for (n, p) in mods {
        if modpath.is_empty() && n == "utils" {
            continue;
        }
        let mp = if modpath.is_empty() { n.clone() } else { format!("{}::{}", modpath, n) };
        s.push_str(&module(g, &p, &mp, root, depth + 1));
    }
    if depth > 0 {
        let _ = writeln!(s, "}} // {}", modpath);
    }
    s
}

/// Removes line comments and blank lines, keeping the markers.
fn strip_comments(s: &str) -> String {
    let mut o = String::new();
    for l in s.lines() {
        let t = l.trim_start();
        if (t.starts_with("//") && !t.starts_with("//@")) || t.is_empty() {
            continue;
        }
        o.push_str(l);
        o.push('\n');
    }
    o
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn jl(v: &[String]) -> String {
    format!("[{}]", v.iter().map(|s| js(s)).collect::<Vec<_>>().join(","))
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let src = PathBuf::from(&a[1]);
    let contracts = Contracts::load(Path::new(&a[2]));
    let prelude = std::fs::read_to_string(&a[3]).unwrap();
    let mut stubs = BTreeSet::new();
    if let Some(i) = a.iter().position(|x| x == "--stub") {
        stubs = a[i + 1].split(',').filter(|s| !s.is_empty()).map(|s| s.to_string()).collect();
    }
    let mut g = Global { contracts, stubs, fns: vec![], drops: vec![], rules: BTreeMap::new(), used: BTreeSet::new(), lost: vec![], names: BTreeMap::new(), heads: BTreeMap::new() };
    if let Ok(p) = std::env::var("NAMES") {
        for l in std::fs::read_to_string(p).unwrap().lines() {
            let w: Vec<&str> = l.split('\t').collect();
            if let [n, w, h] = w[..] {
                g.names.insert(n.to_string(), w.split(' ').filter(|s| !s.is_empty()).map(|s| s.to_string()).collect());
                g.heads.insert(n.to_string(), h.split('\u{1}').filter(|s| !s.is_empty()).map(|s| s.to_string()).collect());
            }
        }
    }
    let mut out = String::new();
    out.push_str("#![allow(mismatched_lifetime_syntaxes, unused_imports, dead_code, unused_variables, unused_mut, non_snake_case, non_camel_case_types, unused_parens, unused_braces, unused_assignments, unreachable_code)]\n");
    out.push_str("use vstd::prelude::*;\nverus! {\n");
    out.push_str(&prelude);
    out.push_str(&module(&mut g, &src.join("lib.rs"), "", &src, 0));
    out.push_str("\n} // verus!\nfn main() {}\n");
    // where the functions and their clauses ended up
    let mut starts: BTreeMap<usize, usize> = BTreeMap::new();
    let mut sp: Option<usize> = None;
    let mut cl: Vec<(usize, usize, String)> = vec![];
    for (ln, l) in out.lines().enumerate() {
        let ln = ln + 1;
        if let Some(i) = sp {
            if !l.contains("/*@") {
                cl.push((i, ln, l.trim().to_string()));
            }
        }
        let mut rest = l;
        while let Some(p) = rest.find("/*@") {
            let t = &rest[p + 3..];
            let e = t.find("*/").unwrap();
            let k = t.chars().next().unwrap();
            let n: usize = t[1..e].parse().unwrap();
            match k {
                'F' => {
                    starts.insert(n, ln);
                }
                'E' => g.fns[n].lines = (starts[&n], ln),
                'S' => sp = Some(n),
                'T' => sp = None,
                _ => {}
            }
            rest = &t[e..];
        }
    }
    for (i, ln, t) in cl {
        let mut pr: Vec<String> = vec![];
        if let Some(p) = t.find("//@") {
            pr = t[p + 3..].split_whitespace().map(|s| s.to_string()).collect();
        }
        g.fns[i].clauses.push((ln, t, pr));
    }
    // contracts that matched nothing
    let mut unused = vec![];
    for (m, n) in g.contracts.fns.keys() {
        if !g.used.contains(&format!("{}|fn {}", m, n)) {
            unused.push(format!("fn {}::{}", m, n));
        }
    }
    for (m, n) in g.contracts.types.keys() {
        if !g.used.contains(&format!("{}|type {}", m, n)) {
            unused.push(format!("type {}::{}", m, n));
        }
    }
    for (m, n) in g.contracts.raws.keys() {
        if !g.used.contains(&format!("{}|{}", m, n)) {
            unused.push(format!("{} in {}", n, m));
        }
    }
    std::fs::write(&a[4], &out).unwrap();
    let mut j = String::from("{\"fns\":[");
    for (i, f) in g.fns.iter().enumerate() {
        if i > 0 {
            j.push_str(",\n");
        }
        let c: Vec<String> = f.clauses.iter().map(|(l, t, p)| format!("[{},{},{}]", l, js(t), jl(p))).collect();
        let _ = write!(
            j,
            "{{\"name\":{},\"file\":{},\"line\":{},\"props\":{},\"status\":{},\"note\":{},\"lines\":[{},{}],\"skel\":{},\"calls\":{},\"names\":{},\"heads\":{},\"clauses\":[{}]}}",
            js(&f.name),
            js(&f.file),
            f.line,
            jl(&f.props),
            js(&f.status),
            js(&f.note),
            f.lines.0,
            f.lines.1,
            js(&f.skel),
            jl(&f.calls),
            jl(&f.names),
            jl(&f.heads),
            c.join(",")
        );
    }
    let rules: Vec<String> = g.rules.iter().map(|(k, v)| format!("{} ({} times)", k, v)).collect();
    let lemmas: Vec<String> = vec![];
    let _ = write!(
        j,
        "],\n\"drops\":{},\n\"rules\":{},\n\"lost\":{},\n\"unused\":{},\n\"lemmas\":{}}}\n",
        jl(&g.drops),
        jl(&rules),
        jl(&g.lost),
        jl(&unused),
        jl(&lemmas)
    );
    std::fs::write(&a[5], j).unwrap();
}
