//! `for` loops become `while` loops over an index; every loop gets a marker that the
//! driver replaces by the contract's invariant.
use crate::*;
use proc_macro2::Span;
use syn::visit::Visit;

struct D<'a> { loops: &'a mut Vec<Value>, problems: &'a mut Vec<String>, inits: HashMap<String, String> }

/// names assigned in a block and not declared in it
#[derive(Default)]
struct Assigned { set: BTreeSet<String>, decl: BTreeSet<String> }
impl<'x> Visit<'x> for Assigned {
    fn visit_expr_assign(&mut self, a: &'x ExprAssign) {
        if let Expr::Path(p) = &*a.left { if let Some(i) = p.path.get_ident() { self.set.insert(i.to_string()); } }
        syn::visit::visit_expr_assign(self, a)
    }
    fn visit_pat_ident(&mut self, i: &'x PatIdent) { self.decl.insert(i.ident.to_string()); }
}
/// iterators (locals declared outside the block) the block advances by next()
#[derive(Default)]
struct Nexts { set: Vec<String>, decl: BTreeSet<String> }
impl<'x> Visit<'x> for Nexts {
    fn visit_expr_method_call(&mut self, m: &'x ExprMethodCall) {
        if m.method == "next" && m.args.is_empty() {
            if let Expr::Path(p) = &*m.receiver {
                if let Some(i) = p.path.get_ident() { if !self.set.contains(&i.to_string()) { self.set.push(i.to_string()) } }
            }
        }
        syn::visit::visit_expr_method_call(self, m)
    }
    fn visit_pat_ident(&mut self, i: &'x PatIdent) { self.decl.insert(i.ident.to_string()); }
}
fn next_calls(b: &Block, head: Option<&Expr>) -> Vec<String> {
    let mut n = Nexts::default();
    if let Some(h) = head { n.visit_expr(h) }
    n.visit_block(b);
    let d = n.decl;
    n.set.into_iter().filter(|x| !d.contains(x)).collect()
}
/// locals of a function with their first value
struct Inits(HashMap<String, String>);
impl<'x> Visit<'x> for Inits {
    fn visit_local(&mut self, l: &'x Local) {
        let p = match &l.pat { Pat::Type(t) => &*t.pat, p => p };
        if let (Pat::Ident(i), Some(x)) = (p, &l.init) { self.0.insert(i.ident.to_string(), ts(&x.expr)); }
        syn::visit::visit_local(self, l)
    }
}

fn id(s: String) -> Ident { Ident::new(&s, Span::call_site()) }

/// pattern and iterator expression -> (setup statements, condition, per-iteration statements)
struct Lowered { setup: Vec<Stmt>, conds: Vec<Expr>, body: Vec<Stmt>, nexts: Vec<(Ident, Pat)>, hi: Option<Expr>, lo: Option<Expr>, ok: bool }

impl<'a> D<'a> {
    fn lower(&mut self, pat: &Pat, e: &Expr, n: usize, j: &Ident, out: &mut Lowered, off: usize) {
        match e {
            Expr::Paren(p) => return self.lower(pat, &p.expr, n, j, out, off),
            Expr::Reference(r) if crate::norm::is_place(&r.expr) || matches!(*r.expr, Expr::MethodCall(_)) => {
                if !crate::norm::is_place(&r.expr) { out.ok = false; return }
                return self.elems(pat, &r.expr, r.mutability.is_some(), n, j, out, off);
            }
            Expr::Range(r) => {
                if let (Some(lo), Some(hi)) = (&r.start, &r.end) {
                    let closed = matches!(r.limits, RangeLimits::Closed(_));
                    {
                        let hv = id(format!("__hi{}_{}", n, off));
                        let lv = id(format!("__lo{}_{}", n, off));
                        if off == 0 {
                            out.setup.push(parse_quote!(let #lv = #lo;));
                            out.setup.push(parse_quote!(let #hv = #hi;));
                            out.lo = Some(parse_quote!(#lv));
                            if closed { out.conds.push(parse_quote!(__IDX <= #hv)) } else { out.conds.push(parse_quote!(__IDX < #hv)) }
                            out.hi = Some(if closed { parse_quote!((#hv + 1)) } else { parse_quote!(#hv) });
                            out.body.push(parse_quote!(let #pat = #j;));
                            return;
                        }
                    }
                } else if let (Some(lo), None) = (&r.start, &r.end) {
                    if ts(lo) == "0" && off == 0 { out.ok = false; return }
                }
                out.ok = false;
            }
            Expr::MethodCall(m) => {
                let name = m.method.to_string();
                match (name.as_str(), m.args.len()) {
                    ("iter_mut", 0) if crate::norm::is_place(&m.receiver) => self.elems(pat, &m.receiver, true, n, j, out, off),
                    ("iter", 0) if crate::norm::is_place(&m.receiver) => self.elems(pat, &m.receiver, false, n, j, out, off),
                    ("into_iter", 0) => self.lower(pat, &m.receiver, n, j, out, off),
                    ("by_ref", 0) => self.lower(pat, &m.receiver, n, j, out, off),
                    ("enumerate", 0) => {
                        if let Pat::Tuple(t) = pat {
                            if t.elems.len() == 2 {
                                let (a, b) = (&t.elems[0], &t.elems[1]);
                                self.lower(b, &m.receiver, n, j, out, off);
                                if out.lo.is_some() { out.ok = false }
                                out.body.push(parse_quote!(let #a = #j;));
                                return;
                            }
                        }
                        out.ok = false;
                    }
                    ("take", 1) => {
                        self.lower(pat, &m.receiver, n, j, out, off);
                        if out.lo.is_some() || out.conds.is_empty() || !out.nexts.is_empty() { out.ok = false; return }
                        let (tv, k) = (id(format!("__tk{}_{}", n, out.setup.len())), &m.args[0]);
                        out.setup.push(parse_quote!(let #tv: usize = #k;));
                        out.conds.push(parse_quote!(__IDX < #tv));
                    }
                    ("skip", 1) if off == 0 => {
                        self.lower(pat, &m.receiver, n, j, out, off);
                        if out.lo.is_some() || out.conds.len() != 1 || !out.nexts.is_empty() { out.ok = false; return }
                        let (tv, k) = (id(format!("__sk{}", n)), &m.args[0]);
                        out.setup.push(parse_quote!(let #tv: usize = #k;));
                        out.lo = Some(parse_quote!(#tv));
                    }
                    ("zip", 1) => {
                        if let Pat::Tuple(t) = pat {
                            if t.elems.len() == 2 {
                                let (a, b) = (t.elems[0].clone(), t.elems[1].clone());
                                self.lower(&a, &m.receiver, n, j, out, off);
                                if out.lo.is_some() { out.ok = false }
                                self.lower(&b, &m.args[0], n, j, out, off + 1);
                                return;
                            }
                        }
                        out.ok = false;
                    }
                    _ => out.ok = false,
                }
            }
            Expr::Path(_) | Expr::Call(_) | Expr::Block(_) => {
                // an iterator value
                let w = id(format!("__it{}_{}", n, off));
                out.setup.push(parse_quote!(let mut #w = #e;));
                out.nexts.push((w, pat.clone()));
            }
            _ => out.ok = false,
        }
    }

    fn elems(&mut self, pat: &Pat, place: &Expr, mutable: bool, n: usize, j: &Ident, out: &mut Lowered, off: usize) {
        let nv = id(format!("__n{}_{}", n, off));
        out.setup.push(parse_quote!(let #nv: usize = #place.len();));
        out.conds.push(parse_quote!(__IDX < #nv));
        if out.hi.is_none() { out.hi = Some(parse_quote!(#nv)); }
        match pat {
            Pat::Reference(r) => { let p = &r.pat; out.body.push(parse_quote!(let #p = #place[#j];)) }
            Pat::Wild(_) => {}
            _ if mutable => out.body.push(parse_quote!(let #pat = &mut #place[#j];)),
            _ => out.body.push(parse_quote!(let #pat = &#place[#j];)),
        }
    }
}

/// `*..*z` (d stars) replaced by a place; `left` tells whether z occurs otherwise
struct ReplDeref<'x> { z: &'x Ident, d: usize, place: &'x Expr, left: bool }
impl<'x> VisitMut for ReplDeref<'x> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        let (mut k, mut x) = (0, &*e);
        loop {
            match x {
                Expr::Unary(u) if matches!(u.op, UnOp::Deref(_)) && k < self.d => { k += 1; x = &u.expr }
                Expr::Paren(p) => x = &p.expr,
                _ => break,
            }
        }
        if k == self.d && matches!(x, Expr::Path(p) if p.path.is_ident(self.z)) { *e = self.place.clone(); return }
        syn::visit_mut::visit_expr_mut(self, e)
    }
    fn visit_ident_mut(&mut self, i: &mut Ident) { if i == self.z { self.left = true } }
    fn visit_macro_mut(&mut self, m: &mut Macro) { if m.tokens.to_string().contains(&self.z.to_string()) { self.left = true } }
}
#[derive(Default)]
struct Jumps(bool);
impl<'x> Visit<'x> for Jumps {
    fn visit_expr_break(&mut self, _: &'x ExprBreak) { self.0 = true }
    fn visit_expr_continue(&mut self, _: &'x ExprContinue) { self.0 = true }
}
/// a loop over the elements of an array literal, written out
fn unroll(f: &ExprForLoop) -> Option<Expr> {
    fn source(e: &Expr) -> Option<(&ExprArray, usize)> {
        match e {
            Expr::Paren(p) => source(&p.expr),
            Expr::Array(a) => Some((a, 0)),
            Expr::Reference(r) => source(&r.expr).filter(|s| s.1 == 0).map(|s| (s.0, 1)),
            Expr::MethodCall(m) if m.args.is_empty() && (m.method == "iter" || m.method == "iter_mut") => source(&m.receiver).filter(|s| s.1 == 0).map(|s| (s.0, 1)),
            _ => None,
        }
    }
    let (a, depth) = source(&f.expr)?;
    if a.elems.is_empty() || a.elems.len() > 16 || f.label.is_some() { return None }
    let mut jumps = Jumps::default();
    jumps.visit_block(&f.body);
    if jumps.0 { return None }
    let mut out: Vec<Stmt> = vec![];
    let muts = |e: &Expr| matches!(e, Expr::Reference(r) if r.mutability.is_some() && crate::norm::is_place(&r.expr) && !ts(&r.expr).contains('['));
    if a.elems.iter().all(muts) {
        let Pat::Ident(z) = &*f.pat else { return None };
        for e in a.elems.iter() {
            let Expr::Reference(r) = e else { return None };
            let mut b = f.body.clone();
            let mut v = ReplDeref { z: &z.ident, d: 1 + depth, place: &r.expr, left: false };
            v.visit_block_mut(&mut b);
            if v.left { return None }
            let stmts = &b.stmts;
            out.push(parse_quote!({ #(#stmts)* }));
        }
    } else {
        if a.elems.iter().any(|e| matches!(e, Expr::Reference(_))) { return None }
        let pat: &Pat = match (&*f.pat, depth) { (p, 0) => p, (Pat::Reference(r), 1) => &r.pat, _ => return None };
        let vs: Vec<Ident> = (0..a.elems.len()).map(|k| id(format!("__el{}", k))).collect();
        for (v, e) in vs.iter().zip(a.elems.iter()) { out.push(parse_quote!(let #v = #e;)) }
        for v in &vs { let stmts = &f.body.stmts; out.push(parse_quote!({ let #pat = #v; #(#stmts)* })) }
    }
    for s in out.iter_mut() { if let Stmt::Expr(_, semi) = s { *semi = Some(Default::default()) } }
    Some(parse_quote!({ #(#out)* }))
}

struct ReplIdx(Ident);
impl VisitMut for ReplIdx {
    fn visit_ident_mut(&mut self, i: &mut Ident) { if i == "__IDX" { *i = self.0.clone() } }
}

impl<'a> VisitMut for D<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::ForLoop(f) = e { if let Some(x) = unroll(f) { *e = x; syn::visit_mut::visit_expr_mut(self, e); return } }
        let header = match e {
            Expr::ForLoop(f) => Some(format!("for {} in {}", ts(&f.pat), ts(&f.expr))),
            Expr::While(w) => Some(format!("while {}", ts(&w.cond))),
            Expr::Loop(_) => Some("loop".to_string()),
            _ => None,
        };
        let Some(header) = header else { syn::visit_mut::visit_expr_mut(self, e); return };
        let n = self.loops.len();
        self.loops.push(Value::Null);
        let mut asg = Assigned::default();
        match e {
            Expr::ForLoop(f) => asg.visit_block(&f.body),
            Expr::While(w) => asg.visit_block(&w.body),
            Expr::Loop(w) => asg.visit_block(&w.body),
            _ => {}
        }
        let carried: BTreeMap<String, String> = asg.set.difference(&asg.decl)
            .map(|k| (k.clone(), self.inits.get(k).cloned().unwrap_or_default())).collect();
        let nlit = syn::LitInt::new(&n.to_string(), Span::call_site());
        match e {
            Expr::ForLoop(f) => {
                if f.label.is_some() { self.problems.push("labelled loop".into()) }
                let i = id(format!("__i{}", n));
                let j = id(format!("__j{}", n));
                let mut low = Lowered { setup: vec![], conds: vec![], body: vec![], nexts: vec![], hi: None, lo: None, ok: true };
                let (pat, ex) = ((*f.pat).clone(), (*f.expr).clone());
                self.lower(&pat, &ex, n, &j, &mut low, 0);
                if !low.ok || (low.conds.is_empty() && low.nexts.is_empty()) {
                    self.problems.push(format!("loop {}", header));
                    self.loops[n] = json!({"header": header, "kind": "for", "i": Value::Null, "carried": carried});
                    return;
                }
                let outer = next_calls(&f.body, None);
                self.visit_block_mut(&mut f.body);
                let body = f.body.stmts.clone();
                let lo: Expr = low.lo.clone().unwrap_or(parse_quote!(0));
                let mut conds = low.conds.clone();
                for c in conds.iter_mut() { ReplIdx(i.clone()).visit_expr_mut(c) }
                let cond: Expr = if conds.is_empty() { parse_quote!(true) } else {
                    let mut it = conds.iter();
                    let first = it.next().unwrap();
                    let mut acc: Expr = parse_quote!(#first);
                    for c in it { acc = parse_quote!(#acc && #c) }
                    acc
                };
                let setup = &low.setup;
                let per = &low.body;
                let mut inner: Vec<Stmt> = vec![];
                let step: Vec<Stmt> = vec![parse_quote!(let #j = #i;), parse_quote!(#i = #i + 1;)];
                // without an index bound the index advances only once an element is there
                let (first, late) = if conds.is_empty() { (vec![], step) } else { (step, vec![]) };
                inner.extend(late);
                inner.extend(per.iter().cloned());
                inner.extend(body);
                if let Some(Stmt::Expr(_, s)) = inner.last_mut() { if s.is_none() { *s = Some(Default::default()) } }
                // next() of iterator sources, innermost first
                for (w, p) in low.nexts.iter().rev() {
                    let o = id(format!("{}_o", w));
                    inner = vec![
                        parse_quote!(let #o = #w.next();),
                        parse_quote!(match #o { Some(#p) => { #(#inner)* } None => { break; } }),
                    ];
                }
                self.loops[n] = json!({"header": header, "kind": "for", "i": i.to_string(),
                    "hi": low.hi.as_ref().map(|h| ts(h)), "iters": low.nexts.iter().map(|(w, _)| w.to_string()).chain(outer).collect::<Vec<_>>(), "carried": carried});
                let ityped: Stmt = if low.lo.is_some() { parse_quote!(let mut #i = #lo;) } else { parse_quote!(let mut #i: usize = #lo;) };
                *e = parse_quote!({
                    #(#setup)*
                    #ityped
                    while #cond {
                        __loop_spec!(#nlit);
                        #(#first)*
                        #(#inner)*
                        __loop_end!(#nlit);
                    }
                });
            }
            Expr::While(w) => {
                if w.label.is_some() { self.problems.push("labelled loop".into()) }
                let i = if let Expr::Binary(b) = &*w.cond {
                    if let Expr::Path(p) = &*b.left { p.path.get_ident().map(|x| x.to_string()) } else { None }
                } else { None };
                let hi = if let Expr::Binary(b) = &*w.cond { Some(ts(&b.right)) } else { None };
                let op = if let Expr::Binary(b) = &*w.cond { Some(ts(&b.op)) } else { None };
                if let Expr::Let(l) = &*w.cond {
                    // while let P = E { B }  ->  while true { match E { P => { B } _ => break } }
                    let (p, x) = ((*l.pat).clone(), (*l.expr).clone());
                    let iters = next_calls(&w.body, Some(&x));
                    self.visit_block_mut(&mut w.body);
                    let b = &w.body;
                    let arm: Vec<Stmt> = { let mut v = b.stmts.clone(); if let Some(Stmt::Expr(_, s)) = v.last_mut() { if s.is_none() { *s = Some(Default::default()) } } v };
                    self.loops[n] = json!({"header": header, "kind": "while", "i": Value::Null, "hi": Value::Null, "iters": iters, "carried": carried});
                    *e = parse_quote!(while true {
                        __loop_spec!(#nlit);
                        match #x { #p => { #(#arm)* } _ => { break; } }
                        __loop_end!(#nlit);
                    });
                    return;
                }
                let iters = next_calls(&w.body, None);
                self.loops[n] = json!({"header": header, "kind": "while", "i": i, "hi": hi, "op": op, "iters": iters, "carried": carried});
                self.visit_block_mut(&mut w.body);
                w.body.stmts.insert(0, parse_quote!(__loop_spec!(#nlit);));
                if let Some(Stmt::Expr(_, s)) = w.body.stmts.last_mut() { if s.is_none() { *s = Some(Default::default()) } }
                w.body.stmts.push(parse_quote!(__loop_end!(#nlit);));
            }
            Expr::Loop(w) => {
                if w.label.is_some() { self.problems.push("labelled loop".into()) }
                let iters = next_calls(&w.body, None);
                self.loops[n] = json!({"header": header, "kind": "loop", "i": Value::Null, "iters": iters, "carried": carried});
                self.visit_block_mut(&mut w.body);
                w.body.stmts.insert(0, parse_quote!(__loop_spec!(#nlit);));
                if let Some(Stmt::Expr(_, s)) = w.body.stmts.last_mut() { if s.is_none() { *s = Some(Default::default()) } }
                w.body.stmts.push(parse_quote!(__loop_end!(#nlit);));
            }
            _ => {}
        }
    }
}

pub fn loops(b: &mut Block, loops: &mut Vec<Value>, problems: &mut Vec<String>) {
    let mut i = Inits(HashMap::new());
    i.visit_block(b);
    D { loops, problems, inits: i.0 }.visit_block_mut(b);
}
