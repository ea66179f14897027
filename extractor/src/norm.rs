//! Stage A: names, literals, casts, macros.
use crate::*;
use proc_macro2::Span;
use syn::punctuated::Punctuated;

pub struct Norm<'a> {
    pub cx: &'a mut Ctx,
    pub file: String,
    pub problems: Vec<String>,
    pub self_ty: Option<String>,
    locals: Vec<String>,
    depth: usize,
}

/// a constant's value, with unsuffixed float literals given the declared type
pub fn typed_const(e: &Expr, ty: &Type) -> Expr {
    let t = ts(ty);
    let suf = if t.contains("f64") { "f64" } else if t.contains("f32") { "f32" } else { "" };
    let mut e = e.clone();
    if !suf.is_empty() { Suffix(suf).visit_expr_mut(&mut e); }
    parse_quote!((#e))
}

struct Suffix(&'static str);
impl VisitMut for Suffix {
    fn visit_lit_float_mut(&mut self, l: &mut LitFloat) {
        if l.suffix().is_empty() {
            *l = LitFloat::new(&format!("{}{}", l.base10_digits(), self.0), l.span());
        }
    }
}

pub fn keep_derives(attrs: &[Attribute]) -> String {
    let mut keep = vec![];
    for a in attrs {
        if a.path().is_ident("derive") {
            let _ = a.parse_nested_meta(|m| {
                if let Some(i) = m.path.get_ident() {
                    let s = i.to_string();
                    if ["Clone", "Copy", "PartialEq", "Eq"].contains(&s.as_str()) { keep.push(s) }
                }
                Ok(())
            });
        }
    }
    if keep.is_empty() { String::new() } else { format!("#[derive({})]\n", keep.join(", ")) }
}

/// `mut x: T` parameters become `x: T` plus `let mut x = x;`
pub fn mut_params(f: &mut FnInfo) {
    let mut pre: Vec<Stmt> = vec![];
    for a in f.sig.inputs.iter_mut() {
        if let FnArg::Typed(p) = a {
            p.attrs.clear();
            if let Pat::Ident(pi) = &mut *p.pat {
                if pi.mutability.is_some() && f.block.is_some() {
                    let id = &pi.ident;
                    pre.push(parse_quote!(let mut #id = #id;));
                }
                pi.mutability = None;
            }
        }
    }
    if let Some(b) = &mut f.block {
        for s in pre.into_iter().rev() { b.stmts.insert(0, s) }
    }
}

impl<'a> Norm<'a> {
    pub fn new(cx: &'a mut Ctx, file: &str) -> Self {
        Norm { cx, file: file.to_string(), problems: vec![], self_ty: None, locals: vec![], depth: 0 }
    }

    fn lit(&mut self, text: &str, suffix: &str) -> usize {
        let k = (text.to_string(), suffix.to_string());
        if let Some(i) = self.cx.lits.iter().position(|x| *x == k) { return i }
        self.cx.lits.push(k);
        self.cx.lits.len() - 1
    }

    /// the segments of a path with the file's imports resolved and the crate's own
    /// module prefixes dropped
    fn resolve(&self, segs: &Segs) -> Segs {
        let mut s = segs.clone();
        let fc = &self.cx.files[&self.file];
        if let Some(full) = fc.uses.get(&s[0]) {
            let mut f = full.clone();
            f.extend_from_slice(&s[1..]);
            s = f;
        }
        // strip `crate::`, `self::`, `super::`, and module names
        let own = |x: &str| ["crate", "self", "super", "rasp"].contains(&x) || self.cx.modules.contains(x);
        if s.len() > 1 && own(&s[0]) && s[0] != "num" {
            while s.len() > 1 && own(&s[0]) { s.remove(0); }
        }
        if s.len() > 1 && s[0] == "num_traits" { s[0] = "num".into(); }
        if s[0] == "num" {
            // num::traits::Float -> Float; num::zero stays num::zero
            let rest: Segs = s[1..].iter().filter(|x| !["traits", "float", "cast", "identities"].contains(&x.as_str())
                || Some(*x) == s.last()).cloned().collect();
            if let Some(l) = rest.first() {
                if l.chars().next().unwrap().is_uppercase() { return rest }
                let mut v = vec!["num".to_string()];
                v.extend(rest);
                return v;
            }
        }
        s
    }
}

fn path_segs(p: &Path) -> Segs { p.segments.iter().map(|s| s.ident.to_string()).collect() }

fn set_path(p: &mut Path, new: &Segs) {
    let old = path_segs(p);
    if &old == new { return }
    // keep generic arguments of matching trailing segments
    let mut segs: Punctuated<PathSegment, Token![::]> = Punctuated::new();
    for (i, n) in new.iter().enumerate() {
        let back = new.len() - i;
        let args = if back <= old.len() { p.segments[old.len() - back].arguments.clone() } else { PathArguments::None };
        segs.push(PathSegment { ident: Ident::new(n, Span::call_site()), arguments: args });
    }
    p.leading_colon = None;
    p.segments = segs;
}

impl<'a> VisitMut for Norm<'a> {
    fn visit_path_mut(&mut self, p: &mut Path) {
        syn::visit_mut::visit_path_mut(self, p);
        let segs = path_segs(p);
        let mut r = self.resolve(&segs);
        if r[0] == "f32" || r[0] == "f64" { r[0] = r[0].to_uppercase(); }
        if r.len() > 1 && (r[0] == "std" || r[0] == "core") && r[1] == "iter" && r.len() == 3 { r = vec![r[2].clone()]; }
        match r.last().unwrap().as_str() {
            "PhantomData" => r = vec!["PhantomData".into()],
            _ => {}
        }
        set_path(p, &r);
    }

    fn visit_attribute_mut(&mut self, _: &mut Attribute) {}

    fn visit_stmt_mut(&mut self, s: &mut Stmt) {
        // statement macros and attributes
        if let Stmt::Macro(m) = s {
            let semi = m.semi_token;
            let mut e: Expr = Expr::Macro(ExprMacro { attrs: vec![], mac: m.mac.clone() });
            self.visit_expr_mut(&mut e);
            *s = Stmt::Expr(e, Some(semi.unwrap_or_default()));
            if semi.is_none() {
                if let Stmt::Expr(e, _) = s { *s = Stmt::Expr(e.clone(), None) }
            }
            return;
        }
        if let Stmt::Local(l) = s { l.attrs.clear(); }
        if let Stmt::Item(it) = s {
            match it {
                Item::Use(u) => {
                    let mut m = HashMap::new();
                    collect_use(&u.tree, &mut vec![], &mut m);
                    self.cx.files.get_mut(&self.file).unwrap().uses.extend(m);
                    *s = Stmt::Expr(parse_quote!({}), Some(Default::default()));
                    return;
                }
                Item::Const(c) => {
                    let e = typed_const(&c.expr, &c.ty);
                    self.cx.files.get_mut(&self.file).unwrap().consts.insert(c.ident.to_string(), e);
                    *s = Stmt::Expr(parse_quote!({}), Some(Default::default()));
                    return;
                }
                _ => self.problems.push("nested item".into()),
            }
        }
        syn::visit_mut::visit_stmt_mut(self, s);
        if let Stmt::Local(l) = s {
            if let Pat::Ident(i) = &l.pat { self.locals.push(i.ident.to_string()) }
            if let Pat::Type(t) = &l.pat {
                if let Pat::Ident(i) = &*t.pat { self.locals.push(i.ident.to_string()) }
                if let Some(init) = &mut l.init { crate::inline::type_lits(&mut init.expr, &t.ty) }
            }
        }
    }

    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // literals
        if let Expr::Lit(ExprLit { lit: Lit::Float(f), .. }) = e {
            let suf = f.suffix().to_string();
            let id = self.lit(f.base10_digits(), &suf);
            let name = Ident::new(&format!("lit{}", id), Span::call_site());
            *e = match suf.as_str() {
                "f32" => parse_quote!(<F32 as Lits>::#name()),
                "f64" => parse_quote!(<F64 as Lits>::#name()),
                _ => parse_quote!(Lits::#name()),
            };
            return;
        }
        if let Expr::Lit(ExprLit { lit: Lit::Int(f), .. }) = e {
            if f.suffix() == "f32" || f.suffix() == "f64" {
                let id = { let s = f.suffix().to_string(); self.lit(f.base10_digits(), &s) };
                let name = Ident::new(&format!("lit{}", id), Span::call_site());
                let ty = Ident::new(&f.suffix().to_uppercase(), Span::call_site());
                *e = parse_quote!(<#ty as Lits>::#name());
            }
            return;
        }
        // num::cast(0.5): an unsuffixed literal there is an f64
        if let Expr::Call(c) = e {
            let last = if let Expr::Path(p) = &*c.func { p.path.segments.last().map(|s| s.ident.to_string()) } else { None };
            if matches!(last.as_deref(), Some("cast") | Some("from") | Some("to_f64")) {
                for a in c.args.iter_mut() { Suffix("f64").visit_expr_mut(a) }
            }
        }
        // constants
        if let Expr::Path(p) = e {
            if p.qself.is_none() {
                let segs = path_segs(&p.path);
                if let Some(c) = self.find_const(&segs) {
                    if self.depth > 8 { self.problems.push("recursive constant".into()); return }
                    self.depth += 1;
                    let mut c = c;
                    self.visit_expr_mut(&mut c);
                    self.depth -= 1;
                    *e = c;
                    return;
                }
                let r = self.resolve(&segs);
                let n = r.len();
                if n >= 3 && r[n - 2] == "consts" && (r[n - 3] == "f32" || r[n - 3] == "f64") {
                    let f = Ident::new(&format!("{}_{}", r[n - 3], r[n - 1]), Span::call_site());
                    *e = parse_quote!(fconst::#f());
                    return;
                }
            }
        }
        if let Expr::Macro(m) = e {
            match self.macro_expr(&m.mac) {
                Some(x) => { *e = x; self.visit_expr_mut(e); return }
                None => { self.problems.push(format!("macro {}!", ts(&m.mac.path))); return }
            }
        }
        syn::visit_mut::visit_expr_mut(self, e);
        match e {
            Expr::Cast(c) => {
                let x = &c.expr;
                let t = &c.ty;
                *e = parse_quote!(CastTo::<#t>::cast_to(#x));
            }
            Expr::Binary(b) => {
                let op: Option<BinOp> = match b.op {
                    BinOp::AddAssign(_) => Some(parse_quote!(+)),
                    BinOp::SubAssign(_) => Some(parse_quote!(-)),
                    BinOp::MulAssign(_) => Some(parse_quote!(*)),
                    BinOp::DivAssign(_) => Some(parse_quote!(/)),
                    BinOp::RemAssign(_) => Some(parse_quote!(%)),
                    _ => None,
                };
                if let Some(op) = op {
                    let l = &b.left;
                    let r = &b.right;
                    if !is_place(l) { self.problems.push("compound assignment to a computed place".into()) }
                    *e = parse_quote!(#l = #l #op (#r));
                }
            }
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                if ["min", "max", "clamp", "rem_euclid", "abs", "saturating_sub", "wrapping_sub", "wrapping_add",
                    "checked_sub", "checked_add", "saturating_add", "is_power_of_two"].contains(&n.as_str()) {
                    m.method = Ident::new(&format!("v_{}", n), Span::call_site());
                }
                if ["extend_from_slice", "resize", "to_vec", "rotate_left", "rotate_right", "copy_from_slice"].contains(&n.as_str()) {
                    m.method = Ident::new(&format!("v_{}", n), Span::call_site());
                }
                if n == "extend" && m.args.len() == 1 { extend_call(m) }
                if n == "collect" && m.args.is_empty() {
                    // repeat(x).take(n).collect()
                    if let Expr::MethodCall(t) = &*m.receiver {
                        if t.method == "take" && t.args.len() == 1 {
                            if let Expr::Call(c) = &*t.receiver {
                                if ts(&c.func).ends_with("repeat") && c.args.len() == 1 {
                                    let (x, k) = (c.args[0].clone(), t.args[0].clone());
                                    *e = parse_quote!(vec_from_elem(#x, #k));
                                    return;
                                }
                            }
                        }
                    }
                }
                // xs.for_each(|p| body)  ->  for p in xs { body }
                if n == "for_each" && m.args.len() == 1 {
                    if let Expr::Closure(c) = &m.args[0] {
                        if c.inputs.len() == 1 {
                            let p = &c.inputs[0];
                            let b = &c.body;
                            let r = &m.receiver;
                            *e = parse_quote!(for #p in #r { #b; });
                        }
                    }
                }
            }
            Expr::Call(c) => {
                // Float::max(a, b) style calls
                if let Expr::Path(p) = &mut *c.func {
                    let segs = path_segs(&p.path);
                    if segs.len() == 3 && segs[1] == "cmp" && (segs[2] == "min" || segs[2] == "max") {
                        let n = Ident::new(&format!("v_{}", segs[2]), Span::call_site());
                        p.path = parse_quote!(VInt::#n);
                    }
                    if p.path.segments.len() == 2 {
                        let n = p.path.segments[1].ident.to_string();
                        if ["min", "max", "abs", "clamp"].contains(&n.as_str()) {
                            p.path.segments[1].ident = Ident::new(&format!("v_{}", n), Span::call_site());
                        }
                    }
                }
            }
            Expr::Unsafe(_) | Expr::Async(_) | Expr::Await(_) | Expr::Try(_) => self.problems.push("unsupported expression".into()),
            _ => {}
        }
    }
}

/// `v.extend(..)` over a slice, a vector or a repeated value
fn extend_call(m: &mut ExprMethodCall) {
    fn source(e: &Expr) -> Option<Expr> {
        match e {
            Expr::Paren(p) => source(&p.expr),
            Expr::Reference(r) => { let x = &r.expr; Some(parse_quote!((#x).v_slice())) }
            Expr::MethodCall(c) => match c.method.to_string().as_str() {
                "cloned" | "copied" => source(&c.receiver),
                "iter" => { let x = &c.receiver; Some(parse_quote!((#x).v_slice())) }
                _ => None,
            },
            _ => None,
        }
    }
    let a = m.args[0].clone();
    if let Expr::MethodCall(t) = &a {
        if t.method == "take" && t.args.len() == 1 {
            if let Expr::Call(c) = &*t.receiver {
                if ts(&c.func).ends_with("repeat") && c.args.len() == 1 {
                    let x = c.args[0].clone();
                    let n = t.args[0].clone();
                    m.method = Ident::new("v_extend_repeat", Span::call_site());
                    m.args.clear();
                    m.args.push(x);
                    m.args.push(n);
                    return;
                }
            }
        }
    }
    if let Some(x) = source(&a) {
        m.method = Ident::new("v_extend_from_slice", Span::call_site());
        m.args[0] = x;
    } else if matches!(a, Expr::Path(_)) || matches!(&a, Expr::MethodCall(c) if c.method == "split_off" || c.method == "into_iter") {
        let x = match &a { Expr::MethodCall(c) if c.method == "into_iter" => (*c.receiver).clone(), _ => a.clone() };
        m.method = Ident::new("v_extend_vec", Span::call_site());
        m.args[0] = x;
    }
}

pub fn is_place(e: &Expr) -> bool {
    match e {
        Expr::Path(_) => true,
        Expr::Field(f) => is_place(&f.base),
        Expr::Index(i) => is_place(&i.expr) && is_pure(&i.index),
        Expr::Unary(u) => matches!(u.op, UnOp::Deref(_)) && is_place(&u.expr),
        Expr::Paren(p) => is_place(&p.expr),
        _ => false,
    }
}
pub fn is_pure(e: &Expr) -> bool {
    match e {
        Expr::Path(_) | Expr::Lit(_) => true,
        Expr::Field(f) => is_pure(&f.base),
        Expr::Index(i) => is_pure(&i.expr) && is_pure(&i.index),
        Expr::Unary(u) => is_pure(&u.expr),
        Expr::Paren(p) => is_pure(&p.expr),
        Expr::Binary(b) => is_pure(&b.left) && is_pure(&b.right)
            && matches!(b.op, BinOp::Add(_) | BinOp::Sub(_) | BinOp::Mul(_) | BinOp::Div(_) | BinOp::Rem(_)),
        Expr::Call(c) => ts(&c.func).contains("CastTo") && c.args.iter().all(is_pure),
        Expr::MethodCall(m) => m.method == "len" && is_pure(&m.receiver),
        _ => false,
    }
}

impl<'a> Norm<'a> {
    fn find_const(&self, segs: &Segs) -> Option<Expr> {
        let fc = &self.cx.files[&self.file];
        if segs.len() == 1 {
            if self.locals.contains(&segs[0]) { return None }
            if let Some(e) = fc.consts.get(&segs[0]) { return Some(e.clone()) }
        }
        let r = self.resolve(segs);
        let name = r.last().unwrap().clone();
        if !name.chars().next().unwrap().is_uppercase() || name.chars().any(|c| c.is_lowercase()) { return None }
        if r.len() == 2 {
            let t = if r[0] == "Self" { self.self_ty.clone()? } else { r[0].clone() };
            for fc in self.cx.files.values() {
                if let Some(e) = fc.consts.get(&format!("{}::{}", t, name)) { return Some(e.clone()) }
            }
            return None;
        }
        if r.len() != 1 { return None }
        if let Some(e) = fc.consts.get(&name) { return Some(e.clone()) }
        if segs.len() == 1 && !fc.uses.contains_key(&segs[0]) { return None }
        let c: Vec<&Expr> = self.cx.files.values().filter_map(|f| f.consts.get(&name)).collect();
        if c.len() == 1 { Some(c[0].clone()) } else { None }
    }

    fn macro_expr(&mut self, m: &Macro) -> Option<Expr> {
        let name = m.path.segments.last()?.ident.to_string();
        let args = |m: &Macro| m.parse_body_with(Punctuated::<Expr, Token![,]>::parse_terminated).ok();
        match name.as_str() {
            "vec" => {
                let r: Result<ExprRepeat> = syn::parse2({ let t = &m.tokens; quote!([#t]) });
                if let Ok(r) = r {
                    let (x, n) = (&r.expr, &r.len);
                    return Some(parse_quote!(vec_from_elem(#x, #n)));
                }
                if m.tokens.is_empty() { return Some(parse_quote!(Vec::new())) }
                None
            }
            "assert" | "debug_assert" => {
                let a = args(m)?;
                let c = a.first()?;
                Some(parse_quote!(if !(#c) { vpanic(); }))
            }
            "assert_eq" | "debug_assert_eq" => {
                let a = args(m)?;
                let (x, y) = (a.get(0)?, a.get(1)?);
                Some(parse_quote!(if !(#x == #y) { vpanic(); }))
            }
            "assert_ne" | "debug_assert_ne" => {
                let a = args(m)?;
                let (x, y) = (a.get(0)?, a.get(1)?);
                Some(parse_quote!(if #x == #y { vpanic(); }))
            }
            "panic" | "unreachable" | "unimplemented" | "todo" => Some(parse_quote!(vpanic())),
            "matches" => {
                let s = m.tokens.to_string();
                let i = s.find(',')?;
                let e: Expr = syn::parse_str(&s[..i]).ok()?;
                let t: proc_macro2::TokenStream = s[i + 1..].trim_end_matches(|c| c == ',' || c == ' ').parse().ok()?;
                syn::parse2(quote!(match #e { #t => true, _ => false })).ok()
            }
            _ => None,
        }
    }
}
