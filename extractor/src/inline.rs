//! Closures bound by `let` and calls to functions without a contract are inlined.
use crate::*;
use proc_macro2::Span;
use syn::visit::Visit;

struct Idents(BTreeSet<String>);
impl<'a> Visit<'a> for Idents {
    fn visit_ident(&mut self, i: &'a Ident) { self.0.insert(i.to_string()); }
}
struct PatIdents(BTreeSet<String>);
impl<'a> Visit<'a> for PatIdents {
    fn visit_pat_ident(&mut self, i: &'a PatIdent) { self.0.insert(i.ident.to_string()); syn::visit::visit_pat_ident(self, i) }
}
struct CountUse { name: String, n: usize, calls: usize }
impl<'a> Visit<'a> for CountUse {
    fn visit_ident(&mut self, i: &'a Ident) { if *i == self.name { self.n += 1 } }
    fn visit_expr_call(&mut self, c: &'a ExprCall) {
        if let Expr::Path(p) = &*c.func { if p.path.is_ident(&self.name) { self.calls += 1 } }
        syn::visit::visit_expr_call(self, c)
    }
}
struct SubstClosure { name: String, c: ExprClosure }
impl VisitMut for SubstClosure {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        syn::visit_mut::visit_expr_mut(self, e);
        if let Expr::Call(call) = e {
            if let Expr::Path(p) = &*call.func {
                if p.path.is_ident(&self.name) {
                    let mut tmp: Vec<Stmt> = vec![];
                    let mut bind: Vec<Stmt> = vec![];
                    for (i, (a, p)) in call.args.iter().zip(self.c.inputs.iter()).enumerate() {
                        let t = Ident::new(&format!("__c{}", i), Span::call_site());
                        tmp.push(parse_quote!(let #t = #a;));
                        bind.push(parse_quote!(let #p = #t;));
                    }
                    let body = &self.c.body;
                    *e = parse_quote!(({ #(#tmp)* #(#bind)* #body }));
                }
            }
        }
    }
}

pub fn closures(b: &mut Block, problems: &mut Vec<String>) {
    let mut i = 0;
    while i < b.stmts.len() {
        let mut found = None;
        if let Stmt::Local(l) = &b.stmts[i] {
            let pi = match &l.pat { Pat::Ident(p) => Some(p), Pat::Type(t) => if let Pat::Ident(p) = &*t.pat { Some(p) } else { None }, _ => None };
            if let (Some(pi), Some(init)) = (pi, &l.init) {
                if let Expr::Closure(c) = &*init.expr { found = Some((pi.ident.to_string(), c.clone())); }
            }
        }
        if let Some((name, c)) = found {
            let mut rest = Block { brace_token: Default::default(), stmts: b.stmts.split_off(i + 1) };
            let mut used = Idents(Default::default());
            used.visit_expr(&c.body);
            let mut args = PatIdents(Default::default());
            for p in &c.inputs { args.visit_pat(p) }
            let mut bound = PatIdents(Default::default());
            bound.visit_block(&rest);
            let clash = used.0.iter().any(|u| !args.0.contains(u) && bound.0.contains(u));
            let mut cu = CountUse { name: name.clone(), n: 0, calls: 0 };
            cu.visit_block(&rest);
            if clash || cu.n != cu.calls || has_return(&c.body) {
                problems.push(format!("closure {}", name));
            } else {
                SubstClosure { name, c }.visit_block_mut(&mut rest);
            }
            b.stmts.truncate(i);
            b.stmts.extend(rest.stmts);
            continue;
        }
        i += 1;
    }
}

struct HasReturn(bool);
impl<'a> Visit<'a> for HasReturn {
    fn visit_expr_return(&mut self, _: &'a ExprReturn) { self.0 = true }
    fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
}
fn has_return(e: &Expr) -> bool { let mut h = HasReturn(false); h.visit_expr(e); h.0 }
fn stmt_has_return(s: &Stmt) -> bool { let mut h = HasReturn(false); h.visit_stmt(s); h.0 }

/// a block without `return`, with the same value
pub fn tailify(stmts: &[Stmt]) -> Option<Vec<Stmt>> {
    let mut out = vec![];
    for (k, s) in stmts.iter().enumerate() {
        if !stmt_has_return(s) { out.push(s.clone()); continue }
        let rest = &stmts[k + 1..];
        let e = match s { Stmt::Expr(e, _) => e, _ => return None };
        match e {
            Expr::Return(r) => {
                if let Some(x) = &r.expr {
                    if has_return(x) { return None }
                    out.push(Stmt::Expr((**x).clone(), None));
                }
                return Some(out);
            }
            Expr::If(i) => {
                if has_return(&i.cond) { return None }
                let semi = matches!(s, Stmt::Expr(_, Some(_))) || !rest.is_empty();
                let mut a: Vec<Stmt> = i.then_branch.stmts.clone();
                fix_tail(&mut a, semi && !rest.is_empty());
                a.extend_from_slice(rest);
                let a = tailify(&a)?;
                let mut b: Vec<Stmt> = match &i.else_branch {
                    None => vec![],
                    Some((_, x)) => match &**x {
                        Expr::Block(bl) => bl.block.stmts.clone(),
                        other => vec![Stmt::Expr(other.clone(), None)],
                    },
                };
                fix_tail(&mut b, semi && !rest.is_empty());
                b.extend_from_slice(rest);
                let b = tailify(&b)?;
                let c = &i.cond;
                out.push(Stmt::Expr(parse_quote!(if #c { #(#a)* } else { #(#b)* }), None));
                return Some(out);
            }
            Expr::Match(m) => {
                if has_return(&m.expr) { return None }
                let mut m = m.clone();
                for arm in m.arms.iter_mut() {
                    let mut a: Vec<Stmt> = match &*arm.body {
                        Expr::Block(b) if b.label.is_none() => b.block.stmts.clone(),
                        other => vec![Stmt::Expr(other.clone(), None)],
                    };
                    fix_tail(&mut a, !rest.is_empty());
                    a.extend_from_slice(rest);
                    let a = tailify(&a)?;
                    arm.body = Box::new(parse_quote!({ #(#a)* }));
                }
                out.push(Stmt::Expr(Expr::Match(m), None));
                return Some(out);
            }
            Expr::Block(b) if b.label.is_none() => {
                let mut a = b.block.stmts.clone();
                fix_tail(&mut a, !rest.is_empty());
                a.extend_from_slice(rest);
                out.extend(tailify(&a)?);
                return Some(out);
            }
            _ => return None,
        }
    }
    Some(out)
}
fn fix_tail(s: &mut Vec<Stmt>, semi: bool) {
    if semi { if let Some(Stmt::Expr(_, t)) = s.last_mut() { if t.is_none() { *t = Some(Default::default()) } } }
}

/// `x`, `&mut *x`, `&*x`
fn passed_ident(e: &Expr) -> Option<Ident> {
    match e {
        Expr::Path(p) => p.path.get_ident().cloned(),
        Expr::Paren(p) => passed_ident(&p.expr),
        Expr::Reference(r) => match &*r.expr {
            Expr::Unary(u) if matches!(u.op, UnOp::Deref(_)) => passed_ident(&u.expr),
            _ => None,
        },
        _ => None,
    }
}
struct AssignsTo(String, bool);
impl<'a> Visit<'a> for AssignsTo {
    fn visit_expr_assign(&mut self, a: &'a ExprAssign) {
        if let Expr::Path(p) = &*a.left { if p.path.is_ident(&self.0) { self.1 = true } }
        syn::visit::visit_expr_assign(self, a)
    }
}
struct RenameVar<'a>(&'a Ident, &'a Ident);
impl<'a> VisitMut for RenameVar<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Path(p) = e { if p.path.is_ident(self.0) { let n = self.1; *e = parse_quote!(#n); return } }
        syn::visit_mut::visit_expr_mut(self, e)
    }
}
struct SubstSelf<'a>(&'a Expr);
impl<'a> VisitMut for SubstSelf<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Path(p) = e { if p.path.is_ident("self") { *e = self.0.clone(); return } }
        syn::visit_mut::visit_expr_mut(self, e)
    }
}
struct SubstTy<'a>(&'a HashMap<String, Type>);
impl<'a> VisitMut for SubstTy<'a> {
    fn visit_type_mut(&mut self, t: &mut Type) {
        if let Type::Path(p) = t { if let Some(i) = p.path.get_ident() { if let Some(n) = self.0.get(&i.to_string()) { *t = n.clone(); return } } }
        syn::visit_mut::visit_type_mut(self, t)
    }
    fn visit_path_mut(&mut self, p: &mut Path) {
        if p.segments.len() > 1 {
            let f = p.segments[0].ident.to_string();
            if let Some(Type::Path(n)) = self.0.get(&f) { if let Some(i) = n.path.get_ident() { p.segments[0].ident = i.clone() } }
        }
        syn::visit_mut::visit_path_mut(self, p)
    }
}

/// float literals whose type is known from the context
pub fn type_lits(e: &mut Expr, ty: &Type) {
    let t = ts(ty);
    if t != "F32" && t != "F64" { return }
    match e {
        Expr::Paren(p) => type_lits(&mut p.expr, ty),
        Expr::Group(p) => type_lits(&mut p.expr, ty),
        Expr::Unary(u) if matches!(u.op, UnOp::Neg(_)) => type_lits(&mut u.expr, ty),
        Expr::Binary(b) if matches!(b.op, BinOp::Add(_) | BinOp::Sub(_) | BinOp::Mul(_) | BinOp::Div(_) | BinOp::Rem(_)) => {
            type_lits(&mut b.left, ty);
            type_lits(&mut b.right, ty);
        }
        Expr::Call(c) => if let Expr::Path(p) = &mut *c.func {
            if p.qself.is_none() && p.path.segments.len() == 2 && p.path.segments[0].ident == "Lits" {
                let n = p.path.segments[1].ident.clone();
                *e = parse_quote!(<#ty as Lits>::#n());
            }
        },
        _ => {}
    }
}

struct Inliner<'a> {
    cx: &'a mut Ctx,
    caller: FnInfo,
    inlined: &'a mut Vec<String>,
    calls: &'a mut BTreeSet<String>,
    problems: &'a mut Vec<String>,
    stack: Vec<String>,
    changed: bool,
}

fn float_param(gs: &[&Generics]) -> Option<String> {
    for g in gs {
        for p in g.type_params() {
            let b = ts(&p.bounds);
            if b.contains("Float") { return Some(p.ident.to_string()) }
            if let Some(w) = &g.where_clause {
                for wp in &w.predicates {
                    if let WherePredicate::Type(t) = wp {
                        if ts(&t.bounded_ty) == p.ident.to_string() && ts(&t.bounds).contains("Float") { return Some(p.ident.to_string()) }
                    }
                }
            }
        }
    }
    None
}

impl<'a> Inliner<'a> {
    fn is_contracted(&mut self, f: &FnInfo) -> bool {
        let k = key(f);
        if !self.cx.contracted.contains(&k) { return false }
        if f.block.is_some() && self.cx.force.get(&key(&self.caller)).map_or(false, |s| s.contains(&k)) { return false }
        self.calls.insert(k);
        true
    }

    /// methods of `ty` (own, or provided by a trait it implements)
    fn method(&self, ty: &str, m: &str) -> Option<FnInfo> {
        if let Some(f) = self.cx.fns.iter().find(|f| f.self_ty.as_deref() == Some(ty) && f.name == m) { return Some(f.clone()) }
        for f in &self.cx.fns {
            if f.self_ty.is_none() && f.name == m {
                if let Some(t) = &f.trait_name {
                    if self.cx.trait_impls.iter().any(|(a, b)| a == t && b == ty) { return Some(f.clone()) }
                }
            }
        }
        None
    }

    fn recv_type(&self, e: &Expr) -> Option<String> {
        match e {
            Expr::Paren(p) => self.recv_type(&p.expr),
            Expr::Path(p) if p.path.is_ident("self") => self.caller.self_ty.clone().or_else(|| self.caller.trait_name.clone()),
            Expr::Field(f) => {
                let t = self.recv_type(&f.base)?;
                if let Member::Named(n) = &f.member {
                    let fs = self.cx.fields.get(&t)?;
                    let ft = fs.iter().find(|(k, _)| n == k)?.1.clone();
                    let ty: Type = syn::parse_str(&ft).ok()?;
                    return type_name(&ty);
                }
                None
            }
            _ => None,
        }
    }

    fn expand(&mut self, f: &FnInfo, recv: Option<&Expr>, args: Vec<Expr>) -> Option<Expr> {
        let k = format!("{}:{}", f.file, key(f));
        if self.stack.contains(&k) || self.stack.len() > 12 { self.problems.push(format!("recursive helper {}", k)); return None }
        let body = f.block.as_ref()?;
        if !f.problems.is_empty() { for p in &f.problems { self.problems.push(format!("{}: {}", k, p)) } }
        let mut stmts = match tailify(&body.stmts) {
            Some(s) => s,
            None => { self.problems.push(format!("early return in helper {}", k)); return None }
        };
        // generic parameters of the helper
        let mut map: HashMap<String, Type> = HashMap::new();
        let target = float_param(&[&self.caller.sig.generics, self.caller.impl_generics.as_ref().unwrap_or(&Generics::default())]);
        let mut unknown: BTreeSet<String> = BTreeSet::new();
        let mut gens: Vec<&Generics> = vec![&f.sig.generics];
        if let Some(g) = &f.impl_generics { gens.push(g) }
        for g in &gens {
            for p in g.type_params() {
                let is_float = float_param(&[g]).as_deref() == Some(&p.ident.to_string());
                if is_float { if let Some(t) = &target {
                    let id = Ident::new(t, Span::call_site());
                    map.insert(p.ident.to_string(), parse_quote!(#id));
                    continue;
                } }
                unknown.insert(p.ident.to_string());
            }
        }
        for s in stmts.iter_mut() { SubstTy(&map).visit_stmt_mut(s) }
        if let (Some(st), None) = (&f.self_ty, recv) {
            // associated function of another type: `Self` means that type
            if Some(st) != self.caller.self_ty.as_ref() {
                let id = Ident::new(st, Span::call_site());
                let mut m: HashMap<String, Type> = HashMap::new();
                m.insert("Self".into(), parse_quote!(#id));
                for s in stmts.iter_mut() { SubstTy(&m).visit_stmt_mut(s) }
            }
        }
        if let Some(r) = recv {
            if !crate::norm::is_place(r) { self.problems.push(format!("receiver of {}", k)); return None }
            for s in stmts.iter_mut() { SubstSelf(r).visit_stmt_mut(s) }
        }
        let n = self.cx.fresh;
        self.cx.fresh += 1;
        let mut tmp: Vec<Stmt> = vec![];
        let mut bind: Vec<Stmt> = vec![];
        let mut i = 0;
        for a in f.sig.inputs.iter() {
            if let FnArg::Typed(p) = a {
                let t = Ident::new(&format!("__a{}_{}", n, i), Span::call_site());
                let mut arg = args.get(i)?.clone();
                let mut ty = (*p.ty).clone();
                SubstTy(&map).visit_type_mut(&mut ty);
                type_lits(&mut arg, &ty);
                let arg = &arg;
                let mut ids = Idents(Default::default());
                ids.visit_type(&ty);
                let pat = &p.pat;
                // a reference passed on as it is keeps its name
                if let (Type::Reference(_), Pat::Ident(pi), Some(a)) = (&ty, &**pat, passed_ident(arg)) {
                    let mut bound = PatIdents(Default::default());
                    for s in &stmts { bound.visit_stmt(s) }
                    let mut asg = AssignsTo(pi.ident.to_string(), false);
                    for s in &stmts { asg.visit_stmt(s) }
                    let mut others = PatIdents(Default::default());
                    for o in f.sig.inputs.iter() { if let FnArg::Typed(o) = o { if o.pat != p.pat { others.visit_pat(&o.pat) } } }
                    if pi.mutability.is_none() && !asg.1 && !bound.0.contains(&a.to_string()) && !bound.0.contains(&pi.ident.to_string()) && !others.0.contains(&a.to_string()) {
                        let from = pi.ident.clone();
                        for s in stmts.iter_mut() { RenameVar(&from, &a).visit_stmt_mut(s) }
                        i += 1;
                        continue;
                    }
                }
                if matches!(ty, Type::ImplTrait(_)) || ids.0.iter().any(|x| unknown.contains(x) || x == "impl" || x == "Self") {
                    tmp.push(parse_quote!(let #t = #arg;));
                    bind.push(parse_quote!(let #pat = #t;));
                } else {
                    tmp.push(if matches!(ty, Type::Path(_)) { parse_quote!(let #t: #ty = #arg;) } else { parse_quote!(let #t = #arg;) });
                    bind.push(parse_quote!(let #pat: #ty = #t;));
                }
                i += 1;
            }
        }
        // calls inside the helper
        let mut blk: Block = parse_quote!({ #(#stmts)* });
        self.stack.push(k.clone());
        // helper-relative context: `self` was already replaced, so types resolve in the caller
        self.visit_block_mut(&mut blk);
        self.stack.pop();
        self.inlined.push(k);
        self.changed = true;
        let st = &blk.stmts;
        // the arguments are evaluated before the helper's names come into scope
        let has_ret = !matches!(f.sig.output, ReturnType::Default);
        let e: Expr = if has_ret {
            let rt = match &f.sig.output { ReturnType::Type(_, t) => { let mut t = (**t).clone(); SubstTy(&map).visit_type_mut(&mut t); t }, _ => unreachable!() };
            let mut ids = Idents(Default::default());
            ids.visit_type(&rt);
            if matches!(rt, Type::Path(_)) && !ids.0.iter().any(|x| unknown.contains(x) || x == "Self") {
                let rv = Ident::new(&format!("__r{}", n), Span::call_site());
                parse_quote!(({ #(#tmp)* let #rv: #rt = { #(#bind)* #(#st)* }; #rv }))
            } else {
                parse_quote!(({ #(#tmp)* #(#bind)* #(#st)* }))
            }
        } else {
            parse_quote!({ #(#tmp)* #(#bind)* #(#st)* })
        };
        Some(e)
    }
}

impl<'a> VisitMut for Inliner<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        syn::visit_mut::visit_expr_mut(self, e);
        let new = match e {
            Expr::MethodCall(m) => {
                let name = m.method.to_string();
                let f = match self.recv_type(&m.receiver) {
                    Some(t) => self.method(&t, &name),
                    None => {
                        // unknown receiver: only if the name is unambiguous in the crate
                        let c: Vec<FnInfo> = self.cx.fns.iter().filter(|f| f.name == name && (f.self_ty.is_some() || f.trait_name.is_some())).cloned().collect();
                        if c.len() == 1 && c[0].block.is_some() { Some(c[0].clone()) } else { None }
                    }
                };
                match f {
                    Some(f) if !self.is_contracted(&f) && f.block.is_some() => {
                        let r = (*m.receiver).clone();
                        let a = m.args.iter().cloned().collect();
                        self.expand(&f, Some(&r), a)
                    }
                    _ => None,
                }
            }
            Expr::Call(c) => {
                if let Expr::Path(p) = &*c.func {
                    let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                    let f = if segs.len() == 1 {
                        let own = self.cx.fns.iter().find(|f| f.self_ty.is_none() && f.trait_name.is_none() && f.name == segs[0] && f.file == self.caller.file).cloned();
                        own.or_else(|| {
                            let v: Vec<&FnInfo> = self.cx.fns.iter().filter(|f| f.self_ty.is_none() && f.trait_name.is_none() && f.name == segs[0]).collect();
                            if v.len() == 1 { Some(v[0].clone()) } else { None }
                        })
                    } else if segs.len() == 2 {
                        let t = if segs[0] == "Self" { self.caller.self_ty.clone().unwrap_or_default() } else { segs[0].clone() };
                        self.method(&t, &segs[1])
                    } else { None };
                    match f {
                        Some(f) if !self.is_contracted(&f) && f.block.is_some() => {
                            let mut a: Vec<Expr> = c.args.iter().cloned().collect();
                            let has_recv = f.sig.receiver().is_some();
                            if has_recv {
                                if a.is_empty() { None } else {
                                    let mut r = a.remove(0);
                                    if let Expr::Reference(x) = &r { r = (*x.expr).clone() }
                                    self.expand(&f, Some(&r), a)
                                }
                            } else { self.expand(&f, None, a) }
                        }
                        _ => None,
                    }
                } else { None }
            }
            _ => None,
        };
        if let Some(n) = new { *e = n }
    }
}

pub fn inline_calls(cx: &mut Ctx, f: &FnInfo, b: &mut Block, inlined: &mut Vec<String>, calls: &mut BTreeSet<String>, problems: &mut Vec<String>) {
    let mut i = Inliner { cx, caller: f.clone(), inlined, calls, problems, stack: vec![format!("{}:{}", f.file, key(f))], changed: false };
    i.visit_block_mut(b);
}
