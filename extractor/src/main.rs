//! Mechanical extraction of /repo's functions for the Verus run.
//!
//! usage: extractor <src dir> <request.json>  ->  JSON on stdout
//!
//! The request names the functions that have a contract ("fns": "Type::name",
//! "Trait::name" for provided trait methods, "name" for free functions).  Calls to
//! functions of the crate without a contract are inlined.  What is rewritten is
//! listed in DESIGN.md ("What the extraction changes").
mod norm;
mod inline;
mod desugar;

use quote::{quote, ToTokens};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::path::PathBuf;
use syn::visit_mut::VisitMut;
use syn::*;

pub type Segs = Vec<String>;

#[derive(Clone)]
pub struct FnInfo {
    pub file: String,
    pub line: usize,
    pub end_line: usize,
    pub self_ty: Option<String>,
    pub trait_name: Option<String>,
    pub name: String,
    pub sig: Signature,
    pub impl_generics: Option<Generics>,
    pub block: Option<Block>,
    pub problems: Vec<String>,
    pub impl_id: Option<usize>,
}

#[derive(Default)]
pub struct FileCtx {
    pub uses: HashMap<String, Segs>,
    pub consts: HashMap<String, Expr>,
}

#[derive(Default)]
pub struct Ctx {
    pub modules: BTreeSet<String>,
    pub files: HashMap<String, FileCtx>,
    pub lits: Vec<(String, String)>,
    /// type -> field -> type (canonical text)
    pub fields: HashMap<String, Vec<(String, String)>>,
    pub fns: Vec<FnInfo>,
    /// trait -> implementing types
    pub trait_impls: Vec<(String, String)>,
    pub contracted: BTreeSet<String>,
    /// caller -> contracted functions it inlines all the same
    pub force: HashMap<String, BTreeSet<String>>,
    pub fresh: usize,
}

pub fn ts<T: ToTokens>(t: &T) -> String {
    t.to_token_stream().to_string()
}

pub fn is_test(attrs: &[Attribute]) -> bool {
    attrs.iter().any(|a| {
        if a.path().is_ident("test") { return true; }
        if a.path().is_ident("cfg") {
            let s = ts(&a.meta);
            return s.contains("test");
        }
        false
    })
}

/// a file's private fields under the names the contracts use
struct RenameFields<'a>(&'a HashMap<String, String>);
impl<'a> RenameFields<'a> {
    fn member(&self, m: &mut Member) -> bool {
        if let Member::Named(i) = m {
            if let Some(n) = self.0.get(&i.to_string()) { *m = Member::Named(Ident::new(n, i.span())); return true }
        }
        false
    }
}
impl<'a> VisitMut for RenameFields<'a> {
    fn visit_field_mut(&mut self, f: &mut Field) {
        if let Some(i) = &f.ident { if let Some(n) = self.0.get(&i.to_string()) { f.ident = Some(Ident::new(n, i.span())) } }
    }
    fn visit_expr_field_mut(&mut self, f: &mut ExprField) {
        self.member(&mut f.member);
        syn::visit_mut::visit_expr_field_mut(self, f)
    }
    fn visit_field_value_mut(&mut self, f: &mut FieldValue) {
        if self.member(&mut f.member) { f.colon_token = Some(Default::default()) }
        syn::visit_mut::visit_field_value_mut(self, f)
    }
    fn visit_field_pat_mut(&mut self, f: &mut FieldPat) {
        if self.member(&mut f.member) { f.colon_token = Some(Default::default()) }
        syn::visit_mut::visit_field_pat_mut(self, f)
    }
}

fn rs_files(dir: &std::path::Path, out: &mut Vec<PathBuf>) {
    let mut v: Vec<_> = std::fs::read_dir(dir).unwrap().map(|e| e.unwrap().path()).collect();
    v.sort();
    for p in v {
        if p.is_dir() { rs_files(&p, out) }
        else if p.extension().map_or(false, |e| e == "rs") { out.push(p) }
    }
}

fn collect_use(t: &UseTree, pre: &mut Segs, out: &mut HashMap<String, Segs>) {
    match t {
        UseTree::Path(p) => {
            pre.push(p.ident.to_string());
            collect_use(&p.tree, pre, out);
            pre.pop();
        }
        UseTree::Name(n) => {
            let mut full = pre.clone();
            if n.ident == "self" {
                if let Some(l) = full.last().cloned() { out.insert(l, full); }
            } else {
                full.push(n.ident.to_string());
                out.insert(n.ident.to_string(), full);
            }
        }
        UseTree::Rename(r) => {
            let mut full = pre.clone();
            if r.ident != "self" { full.push(r.ident.to_string()); }
            out.insert(r.rename.to_string(), full);
        }
        UseTree::Group(g) => for t in &g.items { collect_use(t, pre, out) },
        UseTree::Glob(_) => {}
    }
}

fn mods(items: &[Item], out: &mut BTreeSet<String>) {
    for i in items {
        if let Item::Mod(m) = i {
            if is_test(&m.attrs) { continue }
            out.insert(m.ident.to_string());
            if let Some((_, it)) = &m.content { mods(it, out) }
        }
    }
}

fn flat(items: Vec<Item>, out: &mut Vec<Item>) {
    for i in items {
        match i {
            Item::Mod(m) => {
                if is_test(&m.attrs) { continue }
                if let Some((_, it)) = m.content { flat(it, out) }
            }
            other => out.push(other),
        }
    }
}

/// functions declared inside a function body become functions of the file
struct Hoist { prefix: String, out: Vec<Item> }
struct RenameCalls<'a>(&'a HashMap<String, Ident>);
impl<'a> VisitMut for RenameCalls<'a> {
    fn visit_expr_path_mut(&mut self, p: &mut ExprPath) {
        if p.qself.is_none() && p.path.leading_colon.is_none() && p.path.segments.len() == 1 {
            let s = &mut p.path.segments[0];
            if let Some(n) = self.0.get(&s.ident.to_string()) { s.ident = n.clone() }
        }
        syn::visit_mut::visit_expr_path_mut(self, p)
    }
}
impl VisitMut for Hoist {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut names = HashMap::new();
        for s in &b.stmts {
            if let Stmt::Item(Item::Fn(f)) = s {
                names.insert(f.sig.ident.to_string(), Ident::new(&format!("{}__{}", self.prefix, f.sig.ident), f.sig.ident.span()));
            }
        }
        if !names.is_empty() {
            RenameCalls(&names).visit_block_mut(b);
            let mut rest = vec![];
            for s in b.stmts.drain(..) {
                match s {
                    Stmt::Item(Item::Fn(mut f)) => { f.sig.ident = names[&f.sig.ident.to_string()].clone(); self.out.push(Item::Fn(f)) }
                    s => rest.push(s),
                }
            }
            b.stmts = rest;
        }
        syn::visit_mut::visit_block_mut(self, b)
    }
}
fn hoist(items: &mut Vec<Item>) {
    let mut more = vec![];
    for it in items.iter_mut() {
        match it {
            Item::Fn(f) => { let mut h = Hoist { prefix: format!("__{}", f.sig.ident), out: vec![] }; h.visit_block_mut(&mut f.block); more.extend(h.out) }
            Item::Impl(i) => {
                let ty = type_name(&i.self_ty).unwrap_or_default();
                for m in i.items.iter_mut() {
                    if let ImplItem::Fn(f) = m { let mut h = Hoist { prefix: format!("__{}_{}", ty, f.sig.ident), out: vec![] }; h.visit_block_mut(&mut f.block); more.extend(h.out) }
                }
            }
            _ => {}
        }
    }
    if !more.is_empty() { hoist(&mut more); items.extend(more) }
}

pub fn type_name(t: &Type) -> Option<String> {
    match t {
        Type::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()),
        Type::Reference(r) => type_name(&r.elem),
        Type::Paren(p) => type_name(&p.elem),
        _ => None,
    }
}

fn sig_json(f: &FnInfo) -> (Value, Value, Value) {
    let mut params = vec![];
    let mut recv = Value::Null;
    for a in &f.sig.inputs {
        match a {
            FnArg::Receiver(r) => {
                let mut r = r.clone();
                r.attrs.clear();
                recv = json!(ts(&r));
            }
            FnArg::Typed(p) => params.push(json!([ts(&p.pat), ts(&p.ty)])),
        }
    }
    let ret = match &f.sig.output {
        ReturnType::Default => Value::Null,
        ReturnType::Type(_, t) => json!(ts(t)),
    };
    (recv, Value::Array(params), ret)
}

pub fn key(f: &FnInfo) -> String {
    match (&f.self_ty, &f.trait_name) {
        (Some(t), _) => format!("{}::{}", t, f.name),
        (None, Some(t)) => format!("{}::{}", t, f.name),
        _ => f.name.clone(),
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let src = PathBuf::from(&args[1]);
    let req: Value = serde_json::from_str(&std::fs::read_to_string(&args[2]).unwrap()).unwrap();
    let mut cx = Ctx::default();
    for f in req["fns"].as_array().unwrap() { cx.contracted.insert(f.as_str().unwrap().to_string()); }

    if let Some(m) = req["inline"].as_object() {
        for (k, v) in m {
            cx.force.insert(k.clone(), v.as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect());
        }
    }
    let mut paths = vec![];
    rs_files(&src, &mut paths);
    let mut parsed: Vec<(String, Vec<Item>)> = vec![];
    let mut errors = vec![];
    for p in &paths {
        let rel = p.strip_prefix(&src).unwrap().to_string_lossy().to_string();
        let text = std::fs::read_to_string(p).unwrap();
        match syn::parse_file(&text) {
            Ok(f) => {
                mods(&f.items, &mut cx.modules);
                let mut items = vec![];
                flat(f.items, &mut items);
                hoist(&mut items);
                if let Some(m) = req["rename"][&rel].as_object() {
                    let m: HashMap<String, String> = m.iter().map(|(k, v)| (k.clone(), v.as_str().unwrap().to_string())).collect();
                    for i in items.iter_mut() { RenameFields(&m).visit_item_mut(i) }
                }
                parsed.push((rel, items));
            }
            Err(e) => errors.push(format!("{}: {}", rel, e)),
        }
    }
    // per-file name tables
    for (file, items) in &parsed {
        let mut fc = FileCtx::default();
        for it in items {
            match it {
                Item::Use(u) if !is_test(&u.attrs) => collect_use(&u.tree, &mut vec![], &mut fc.uses),
                Item::Const(c) => { fc.consts.insert(c.ident.to_string(), norm::typed_const(&c.expr, &c.ty)); }
                Item::Static(c) => { fc.consts.insert(c.ident.to_string(), norm::typed_const(&c.expr, &c.ty)); }
                _ => {}
            }
        }
        cx.files.insert(file.clone(), fc);
    }
    // items
    let mut types = vec![];
    let mut impls: Vec<(String, ItemImpl)> = vec![];
    let mut traits: Vec<(String, ItemTrait)> = vec![];
    let mut warnings: Vec<String> = vec![];
    for (file, items) in parsed {
        for it in items {
            match it {
                Item::Struct(mut s) if !is_test(&s.attrs) => {
                    let derives = norm::keep_derives(&s.attrs);
                    s.attrs.clear();
                    s.vis = parse_quote!(pub);
                    for f in s.fields.iter_mut() { f.attrs.clear(); f.vis = parse_quote!(pub); }
                    let mut n = norm::Norm::new(&mut cx, &file);
                    n.visit_item_struct_mut(&mut s);
                    let fields: Vec<(String, String)> = s.fields.iter().map(|f|
                        (f.ident.as_ref().map_or(String::new(), |i| i.to_string()), ts(&f.ty))).collect();
                    cx.fields.insert(s.ident.to_string(), fields.clone());
                    types.push(json!({"name": s.ident.to_string(), "kind": "struct", "file": file,
                        "text": format!("{}{}", derives, ts(&s)), "fields": fields}));
                }
                Item::Enum(mut s) if !is_test(&s.attrs) => {
                    let derives = norm::keep_derives(&s.attrs);
                    s.attrs.clear();
                    s.vis = parse_quote!(pub);
                    for v in s.variants.iter_mut() { v.attrs.clear(); }
                    let mut n = norm::Norm::new(&mut cx, &file);
                    n.visit_item_enum_mut(&mut s);
                    let vars: Vec<String> = s.variants.iter().map(|v| ts(v)).collect();
                    types.push(json!({"name": s.ident.to_string(), "kind": "enum", "file": file,
                        "text": format!("{}{}", derives, ts(&s)), "fields": vars}));
                }
                Item::Fn(f) if !is_test(&f.attrs) => {
                    cx.fns.push(FnInfo { file: file.clone(), line: f.sig.fn_token.span.start().line,
                        end_line: f.block.brace_token.span.close().end().line,
                        self_ty: None, trait_name: None, name: f.sig.ident.to_string(), sig: f.sig,
                        impl_generics: None, block: Some(*f.block), problems: vec![], impl_id: None });
                }
                Item::Impl(i) if !is_test(&i.attrs) => impls.push((file.clone(), i)),
                Item::Trait(t) if !is_test(&t.attrs) => traits.push((file.clone(), t)),
                Item::Macro(m) if !is_test(&m.attrs) => {
                    warnings.push(format!("{}: item macro {} not expanded", file, ts(&m.mac.path)));
                }
                _ => {}
            }
        }
    }
    let mut impl_out = vec![];
    for (file, i) in &impls {
        let self_ty = { let mut t = (*i.self_ty).clone(); norm::Norm::new(&mut cx, file).visit_type_mut(&mut t); t };
        let tyname = type_name(&self_ty).unwrap_or_default();
        let trait_path = i.trait_.as_ref().map(|(_, p, _)| {
            let mut p = p.clone();
            norm::Norm::new(&mut cx, file).visit_path_mut(&mut p);
            p
        });
        let trait_name = trait_path.as_ref().map(|p| p.segments.last().unwrap().ident.to_string());
        if let Some(t) = &trait_name { cx.trait_impls.push((t.clone(), tyname.clone())); }
        let mut g = i.generics.clone();
        norm::Norm::new(&mut cx, file).visit_generics_mut(&mut g);
        let wher = g.where_clause.as_ref().map_or(String::new(), |w| ts(w));
        let mut assoc = vec![];
        for it in &i.items {
            match it {
                ImplItem::Fn(f) if !is_test(&f.attrs) => {
                    cx.fns.push(FnInfo { file: file.clone(), line: f.sig.fn_token.span.start().line,
                        end_line: f.block.brace_token.span.close().end().line,
                        self_ty: Some(tyname.clone()), trait_name: trait_name.clone(),
                        name: f.sig.ident.to_string(), sig: f.sig.clone(),
                        impl_generics: Some(g.clone()), block: Some(f.block.clone()), problems: vec![], impl_id: Some(impl_out.len()) });
                }
                ImplItem::Type(t) => {
                    let mut t = t.clone();
                    norm::Norm::new(&mut cx, file).visit_type_mut(&mut t.ty);
                    assoc.push(ts(&t));
                }
                ImplItem::Const(c) => {
                    let e = norm::typed_const(&c.expr, &c.ty);
                    cx.files.get_mut(file).unwrap().consts.insert(format!("{}::{}", tyname, c.ident), e);
                }
                _ => {}
            }
        }
        let mut gh = g.clone();
        gh.where_clause = None;
        impl_out.push(json!({"id": impl_out.len(), "ty": tyname, "self_ty": ts(&self_ty), "trait": trait_path.as_ref().map(|p| ts(p)),
            "trait_name": trait_name, "generics": ts(&gh), "where": wher, "assoc": assoc, "file": file}));
    }
    let mut trait_out = vec![];
    for (file, t) in &traits {
        let mut g = t.generics.clone();
        norm::Norm::new(&mut cx, file).visit_generics_mut(&mut g);
        let wher = g.where_clause.as_ref().map_or(String::new(), |w| ts(w));
        let mut gh = g.clone();
        gh.where_clause = None;
        let sup = { let s = &t.supertraits; quote!(#s).to_string() };
        for it in &t.items {
            if let TraitItem::Fn(f) = it {
                cx.fns.push(FnInfo { file: file.clone(), line: f.sig.fn_token.span.start().line,
                    end_line: f.default.as_ref().map_or(f.sig.fn_token.span.start().line, |b| b.brace_token.span.close().end().line),
                    self_ty: None, trait_name: Some(t.ident.to_string()), name: f.sig.ident.to_string(),
                    sig: f.sig.clone(), impl_generics: Some(g.clone()), block: f.default.clone(), problems: vec![], impl_id: None });
            }
        }
        trait_out.push(json!({"name": t.ident.to_string(), "generics": ts(&gh), "where": wher, "super": sup, "file": file}));
    }
    // stage A: normalise every function in its own file's context
    let mut fns = std::mem::take(&mut cx.fns);
    for f in fns.iter_mut() {
        let file = f.file.clone();
        let mut n = norm::Norm::new(&mut cx, &file);
        n.self_ty = f.self_ty.clone();
        n.visit_signature_mut(&mut f.sig);
        if let Some(b) = &mut f.block {
            n.visit_block_mut(b);
        }
        let mut p = std::mem::take(&mut n.problems);
        if let Some(b) = &mut f.block {
            inline::closures(b, &mut p);
        }
        f.problems.append(&mut p);
        norm::mut_params(f);
    }
    cx.fns = fns;
    // stages B, C for contracted functions
    let mut out = vec![];
    let all = cx.fns.clone();
    for f in &all {
        let k = key(f);
        if !cx.contracted.contains(&k) { continue }
        let mut f = f.clone();
        let mut inlined = vec![];
        let mut calls = BTreeSet::new();
        let mut loops = vec![];
        if let Some(mut b) = f.block.take() {
            let mut problems = std::mem::take(&mut f.problems);
            inline::inline_calls(&mut cx, &f, &mut b, &mut inlined, &mut calls, &mut problems);
            if let Some(t) = inline::tailify(&b.stmts) { b.stmts = t; }
            desugar::loops(&mut b, &mut loops, &mut problems);
            f.problems = problems;
            f.block = Some(b);
        }
        let (recv, params, ret) = sig_json(&f);
        let mut gh = f.sig.generics.clone();
        gh.where_clause = None;
        out.push(json!({
            "key": k, "name": f.name, "ty": f.self_ty, "trait": f.trait_name, "file": f.file,
            "impl": f.impl_id, "line": f.line, "end_line": f.end_line,
            "receiver": recv, "params": params, "ret": ret,
            "generics": ts(&gh), "where": f.sig.generics.where_clause.as_ref().map_or(String::new(), |w| ts(w)),
            "body": f.block.as_ref().map(|b| ts(b)), "problems": f.problems,
            "inlined": inlined, "calls": calls, "loops": loops,
        }));
    }
    let lits: Vec<Value> = cx.lits.iter().enumerate().map(|(i, (t, s))| json!({"id": i, "text": t, "suffix": s})).collect();
    let tn: BTreeMap<String, Vec<String>> = BTreeMap::new();
    let _ = tn;
    println!("{}", serde_json::to_string_pretty(&json!({
        "errors": errors, "warnings": warnings, "types": types, "impls": impl_out, "traits": trait_out,
        "fns": out, "lits": lits,
        "all_fns": all.iter().map(|f| json!([f.self_ty, f.trait_name, f.name])).collect::<Vec<_>>(),
    })).unwrap());
}
