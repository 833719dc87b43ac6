//! Rewriting of expressions and loops into the subset of Rust which Verus accepts.
use crate::{cfg_on, txt, Ctx};
use proc_macro2::Span;
use serde_json::{json, Value};
use std::collections::BTreeSet;
use syn::visit::Visit;
use syn::visit_mut::VisitMut;
use syn::*;

const PRINTS: [&str; 7] = ["println", "eprintln", "print", "eprint", "debug", "trace", "dbg"];

struct Strip<'a> {
    notes: &'a mut Vec<String>,
}
fn stmt_attrs(s: &Stmt) -> Vec<Attribute> {
    match s {
        Stmt::Local(l) => l.attrs.clone(),
        Stmt::Macro(m) => m.attrs.clone(),
        Stmt::Item(Item::Const(c)) => c.attrs.clone(),
        Stmt::Item(Item::Use(c)) => c.attrs.clone(),
        Stmt::Expr(e, _) => match e {
            Expr::Macro(m) => m.attrs.clone(),
            Expr::Call(m) => m.attrs.clone(),
            Expr::MethodCall(m) => m.attrs.clone(),
            Expr::Block(m) => m.attrs.clone(),
            Expr::If(m) => m.attrs.clone(),
            Expr::Match(m) => m.attrs.clone(),
            Expr::ForLoop(m) => m.attrs.clone(),
            Expr::While(m) => m.attrs.clone(),
            Expr::Return(m) => m.attrs.clone(),
            Expr::Assign(m) => m.attrs.clone(),
            _ => vec![],
        },
        _ => vec![],
    }
}
/// How often a name is in some tokens.
fn named(t: proc_macro2::TokenStream, name: &Ident) -> usize {
    t.into_iter()
        .map(|x| match x {
            proc_macro2::TokenTree::Ident(i) => (i == *name) as usize,
            proc_macro2::TokenTree::Group(g) => named(g.stream(), name),
            _ => 0,
        })
        .sum()
}
/// Is there something in it which leaves the closure it is in?
fn exits(e: &Expr) -> bool {
    struct V(bool);
    impl<'a> Visit<'a> for V {
        fn visit_expr_return(&mut self, _: &'a ExprReturn) {
            self.0 = true;
        }
        fn visit_expr_try(&mut self, _: &'a ExprTry) {
            self.0 = true;
        }
    }
    let mut v = V(false);
    v.visit_expr(e);
    v.0
}
/// `|x| *x == 7` or `|&x| x != 7`: is it equality, and with what
fn compares(c: &ExprClosure) -> Option<(bool, Lit)> {
    let (p, deref) = match &c.inputs[0] {
        Pat::Ident(i) => (&i.ident, true),
        Pat::Reference(r) => match &*r.pat {
            Pat::Ident(i) => (&i.ident, false),
            _ => return None,
        },
        _ => return None,
    };
    let b = match unparen(&c.body) {
        Expr::Binary(b) => b,
        _ => return None,
    };
    let eq = match b.op {
        BinOp::Eq(_) => true,
        BinOp::Ne(_) => false,
        _ => return None,
    };
    let l = match unparen(&b.left) {
        Expr::Unary(u) if deref && matches!(u.op, UnOp::Deref(_)) => unparen(&u.expr),
        e if !deref => e,
        _ => return None,
    };
    match (l, unparen(&b.right)) {
        (Expr::Path(q), Expr::Lit(n)) if q.path.is_ident(p) && matches!(n.lit, Lit::Int(_) | Lit::Byte(_)) => Some((eq, n.lit.clone())),
        _ => None,
    }
}
/// It does nothing but have a value, so that it does not matter when it is evaluated.
fn plain(e: &Expr) -> bool {
    match unparen(e) {
        Expr::Lit(_) | Expr::Path(_) => true,
        Expr::Unary(u) => !matches!(u.op, UnOp::Deref(_)) && plain(&u.expr),
        Expr::Reference(r) => plain(&r.expr),
        Expr::Array(a) => a.elems.iter().all(plain),
        Expr::Tuple(t) => t.elems.iter().all(plain),
        Expr::Repeat(r) => plain(&r.expr),
        Expr::Macro(m) => m.mac.path.is_ident("vec") && m.mac.tokens.clone().into_iter().all(|t| matches!(t, proc_macro2::TokenTree::Literal(_) | proc_macro2::TokenTree::Punct(_))),
        Expr::Call(c) => match unparen(&c.func) {
            Expr::Path(p) => matches!(p.path.segments.last().map(|s| s.ident.to_string()).as_deref(), Some("Ok") | Some("Err") | Some("Some")) && c.args.iter().all(plain),
            _ => false,
        },
        _ => false,
    }
}
/// Is it rather a Result than an Option?
fn outcome(e: &Expr) -> bool {
    const NAMES: [&str; 17] = ["into_serde", "from_serde", "map_err", "ok_or", "ok_or_else", "verify", "from_bytes", "try_from_bytes", "try_from_string", "deserialize", "serialize", "issue", "show", "mac", "obtain_finish", "open", "verify_roster_membership"];
    match unparen(e) {
        Expr::MethodCall(m) => {
            let n = m.method.to_string();
            NAMES.contains(&n.as_str()) || (["map", "and_then", "or_else", "as_ref", "clone"].contains(&n.as_str()) && outcome(&m.receiver))
        }
        Expr::Call(c) => match unparen(&c.func) {
            Expr::Path(p) => p.path.segments.last().map_or(false, |s| NAMES.contains(&s.ident.to_string().as_str())),
            _ => false,
        },
        Expr::Match(m) => m.arms.iter().any(|a| match &a.pat {
            Pat::TupleStruct(t) => t.path.is_ident("Ok") || t.path.is_ident("Err"),
            _ => false,
        }),
        _ => false,
    }
}
fn certain(p: &Pat) -> bool {
    match p {
        Pat::Ident(i) => i.subpat.is_none() && !i.ident.to_string().starts_with(char::is_uppercase),
        Pat::Wild(_) => true,
        Pat::Reference(r) => certain(&r.pat),
        Pat::Tuple(t) => t.elems.iter().all(certain),
        Pat::Paren(q) => certain(&q.pat),
        _ => false,
    }
}
/// With `let f = |a| e;`, each call of `f` is the expression; if there is nothing else of `f`, and what is named in the
/// expression is the same thing at each call, the closure is not needed.
fn call_by_hand(stmts: &mut Vec<Stmt>, at: usize) -> bool {
    let (name, c) = match &stmts[at] {
        Stmt::Local(l) => match (&l.pat, &l.init) {
            (Pat::Ident(p), Some(i)) if p.by_ref.is_none() && p.subpat.is_none() && i.diverge.is_none() => match unparen(&i.expr) {
                Expr::Closure(c) if c.capture.is_none() && c.asyncness.is_none() && c.constness.is_none() => (p.ident.clone(), c.clone()),
                _ => return false,
            },
            _ => return false,
        },
        _ => return false,
    };
    if exits(&c.body) {
        return false;
    }
    let mut params = vec![];
    for p in &c.inputs {
        match p {
            Pat::Type(t) if certain(&t.pat) => params.push((&*t.pat, Some(&*t.ty))),
            p if certain(p) => params.push((p, None)),
            _ => return false,
        }
    }
    struct Bound(BTreeSet<String>);
    impl<'a> Visit<'a> for Bound {
        fn visit_pat_ident(&mut self, p: &'a PatIdent) {
            self.0.insert(p.ident.to_string());
            visit::visit_pat_ident(self, p);
        }
    }
    struct Calls<'a> {
        name: &'a Ident,
        arity: usize,
        found: usize,
    }
    impl<'a, 'b> Visit<'b> for Calls<'a> {
        fn visit_expr_call(&mut self, e: &'b ExprCall) {
            if matches!(unparen(&e.func), Expr::Path(p) if p.path.is_ident(self.name)) && e.args.len() == self.arity {
                self.found += 1;
            }
            visit::visit_expr_call(self, e);
        }
    }
    let mut bound = Bound(BTreeSet::new());
    let mut calls = Calls { name: &name, arity: params.len(), found: 0 };
    let mut times = 0;
    for s in &stmts[at + 1..] {
        bound.visit_stmt(s);
        calls.visit_stmt(s);
        times += named(quote::ToTokens::to_token_stream(s), &name);
    }
    if calls.found != times || bound.0.iter().any(|n| named(quote::ToTokens::to_token_stream(&c.body), &id(n)) > 0 && !params.iter().any(|p| named(quote::ToTokens::to_token_stream(p.0), &id(n)) > 0)) {
        return false;
    }
    struct Put<'a> {
        name: &'a Ident,
        params: Vec<(&'a Pat, Option<&'a Type>)>,
        body: &'a Expr,
    }
    impl<'a> VisitMut for Put<'a> {
        fn visit_expr_mut(&mut self, e: &mut Expr) {
            visit_mut::visit_expr_mut(self, e);
            if let Expr::Call(k) = e {
                if matches!(unparen(&k.func), Expr::Path(p) if p.path.is_ident(self.name)) {
                    let names: Vec<Ident> = (0..self.params.len()).map(|i| id(&format!("__p{}", i))).collect();
                    let args: Vec<Stmt> = k.args.iter().zip(self.params.iter().zip(&names)).map(|(x, ((_, t), n))| match t {
                        Some(t) => parse_quote!(let #n: #t = #x;),
                        None => parse_quote!(let #n = #x;),
                    }).collect();
                    let lets: Vec<Stmt> = self.params.iter().zip(&names).map(|((p, _), n)| parse_quote!(let #p = #n;)).collect();
                    let body = self.body;
                    *e = parse_quote!({ #(#args)* #(#lets)* #body });
                }
            }
        }
    }
    let mut put = Put { name: &name, params: params.clone(), body: &c.body };
    let mut rest: Vec<Stmt> = stmts[at + 1..].to_vec();
    for s in rest.iter_mut() {
        put.visit_stmt_mut(s);
    }
    stmts.truncate(at + 1);
    stmts.extend(rest);
    true
}
/// How many closures are left: nothing is said of what they do.
pub fn closures(b: &Block) -> usize {
    struct V(usize);
    impl<'a> Visit<'a> for V {
        fn visit_expr_closure(&mut self, c: &'a ExprClosure) {
            self.0 += 1;
            visit::visit_expr_closure(self, c);
        }
    }
    let mut v = V(0);
    v.visit_block(b);
    v.0
}
/// `let mut it = x; while let Some(p) = it.next() { .. }`, with no more of `it`, is `for p in x { .. }`
fn loop_over(rest: &[Stmt]) -> Option<Stmt> {
    let l = match &rest[0] {
        Stmt::Local(l) => l,
        _ => return None,
    };
    let init = l.init.as_ref()?;
    let name = match &l.pat {
        Pat::Ident(i) if i.by_ref.is_none() && i.subpat.is_none() => &i.ident,
        _ => return None,
    };
    let w = match &rest[1] {
        Stmt::Expr(Expr::While(w), _) if init.diverge.is_none() => w,
        _ => return None,
    };
    let c = match unparen(&w.cond) {
        Expr::Let(c) => c,
        _ => return None,
    };
    let m = match unparen(&c.expr) {
        Expr::MethodCall(m) if m.method == "next" && m.args.is_empty() => m,
        _ => return None,
    };
    match unparen(&m.receiver) {
        Expr::Path(p) if p.path.is_ident(name) => (),
        _ => return None,
    }
    let pat = match &*c.pat {
        Pat::TupleStruct(t) if t.path.is_ident("Some") && t.elems.len() == 1 && certain(&t.elems[0]) => &t.elems[0],
        _ => return None,
    };
    if named(quote::ToTokens::to_token_stream(&w.body), name) + rest[2..].iter().map(|s| named(quote::ToTokens::to_token_stream(s), name)).sum::<usize>() > 0 {
        return None;
    }
    let (x, body, label) = (&init.expr, &w.body, &w.label);
    Some(parse_quote!(#label for #pat in #x #body))
}
impl<'a> VisitMut for Strip<'a> {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let notes = &mut *self.notes;
        b.stmts.retain(|s| {
            if !cfg_on(&stmt_attrs(s)) {
                return false;
            }
            let mac = match s {
                Stmt::Macro(m) => Some(&m.mac),
                Stmt::Expr(Expr::Macro(m), _) => Some(&m.mac),
                _ => None,
            };
            if let Some(m) = mac {
                let n = m.path.segments.last().unwrap().ident.to_string();
                if PRINTS.contains(&n.as_str()) {
                    notes.push(format!("dropped {}!", n));
                    return false;
                }
            }
            true
        });
        // closures which are only there to be called
        let mut i = 0;
        while i < b.stmts.len() {
            if call_by_hand(&mut b.stmts, i) {
                b.stmts.remove(i);
            } else {
                i += 1;
            }
        }
        // an iterator which is only there for the loop after it
        let mut i = 0;
        while i + 1 < b.stmts.len() {
            if let Some(l) = loop_over(&b.stmts[i..]) {
                b.stmts[i] = l;
                b.stmts.remove(i + 1);
            }
            i += 1;
        }
        // local constants become variables, attributes go
        for s in b.stmts.iter_mut() {
            // a block after a loop reads as part of it
            if let Stmt::Expr(Expr::While(_), semi @ None) = s {
                *semi = Some(Default::default());
            }
            if let Stmt::Item(Item::Const(c)) = s {
                let (i, t, e) = (&c.ident, &c.ty, &c.expr);
                *s = parse_quote!(let #i: #t = #e;);
            }
        }
        visit_mut::visit_block_mut(self, b);
    }
    fn visit_expr_match_mut(&mut self, m: &mut ExprMatch) {
        m.arms.retain(|a| cfg_on(&a.attrs));
        visit_mut::visit_expr_match_mut(self, m);
    }
    fn visit_attributes_mut(&mut self, a: &mut Vec<Attribute>) {
        a.clear();
    }
}

pub fn strip_cfg(b: &mut Block, notes: &mut Vec<String>) {
    Strip { notes }.visit_block_mut(b);
}

pub struct LoopInfo {
    pub id: usize,
    pub kind: String,
    pub idx: String,
    pub end: String,
    pub its: Vec<String>,
    pub muts: Vec<String>,
    pub body: String,
}

pub struct Norm<'a> {
    ctx: &'a mut Ctx,
    pub notes: Vec<String>,
    loops: Vec<LoopInfo>,
    nloop: usize,
    ret_option: bool,
    local_ints: BTreeSet<String>,
    params: BTreeSet<String>,
}

enum Src {
    Range(Expr, Expr),
    Rev(Box<Src>),
    Iter(Expr),
    IterMut(Expr),
    Chunks(Expr, Expr),
    ChunksExact(Expr, Expr),
    Zip(Box<Src>, Box<Src>),
    Enum(Box<Src>),
    Copied(Box<Src>),
    Skip(Box<Src>, Expr),
    Take(Box<Src>, Expr),
    Map(Box<Src>, ExprClosure),
}

impl Src {
    fn desc(&self) -> String {
        match self {
            Src::Range(..) => "range".into(),
            Src::Rev(s) => format!("rev({})", s.desc()),
            Src::Iter(_) => "iter".into(),
            Src::IterMut(_) => "iter_mut".into(),
            Src::Chunks(..) | Src::ChunksExact(..) => "chunks".into(),
            Src::Zip(a, b) => format!("zip({},{})", a.desc(), b.desc()),
            Src::Enum(a) => format!("enumerate({})", a.desc()),
            Src::Copied(a) => a.desc(),
            Src::Skip(a, _) => format!("skip({})", a.desc()),
            Src::Take(a, _) => format!("take({})", a.desc()),
            Src::Map(a, _) => format!("map({})", a.desc()),
        }
    }
}

fn unparen(e: &Expr) -> &Expr {
    match e {
        Expr::Paren(p) => unparen(&p.expr),
        Expr::Group(p) => unparen(&p.expr),
        e => e,
    }
}

fn id(s: &str) -> Ident {
    Ident::new(s, Span::call_site())
}

/// Binds a pattern to a value by plain `let`s.
fn bind(p: &Pat, item: Expr, out: &mut Vec<Stmt>) {
    match p {
        Pat::Wild(_) => {}
        Pat::Reference(r) => bind(&r.pat, parse_quote!(*(#item)), out),
        Pat::Tuple(t) => {
            if let Expr::Tuple(x) = unparen(&item) {
                if x.elems.len() == t.elems.len() {
                    for (a, b) in t.elems.iter().zip(x.elems.iter()) {
                        bind(a, b.clone(), out);
                    }
                    return;
                }
            }
            out.push(parse_quote!(let #p = #item;));
        }
        Pat::Paren(q) => bind(&q.pat, item, out),
        Pat::Type(t) => {
            if let Pat::Ident(_) = &*t.pat {
                let (q, ty) = (&t.pat, &t.ty);
                out.push(parse_quote!(let #q: #ty = #item;));
            } else {
                bind(&t.pat, item, out)
            }
        }
        p => out.push(parse_quote!(let #p = #item;)),
    }
}

struct Muts {
    declared: BTreeSet<String>,
    found: Vec<String>,
}
fn base_ident(e: &Expr) -> Option<String> {
    match e {
        Expr::Path(p) if p.path.segments.len() == 1 => Some(p.path.segments[0].ident.to_string()),
        Expr::Field(f) => base_ident(&f.base),
        Expr::Index(i) => base_ident(&i.expr),
        Expr::Unary(u) => base_ident(&u.expr),
        Expr::Paren(p) => base_ident(&p.expr),
        Expr::Reference(r) => base_ident(&r.expr),
        Expr::MethodCall(m) if m.method == "as_mut" || m.method == "unwrap" => base_ident(&m.receiver),
        _ => None,
    }
}
impl Muts {
    fn add(&mut self, e: &Expr) {
        if let Some(s) = base_ident(e) {
            if !self.declared.contains(&s) && !self.found.contains(&s) {
                self.found.push(s);
            }
        }
    }
}
impl<'a> Visit<'a> for Muts {
    fn visit_pat_ident(&mut self, p: &'a PatIdent) {
        self.declared.insert(p.ident.to_string());
    }
    fn visit_expr_assign(&mut self, e: &'a ExprAssign) {
        self.add(&e.left);
        visit::visit_expr_assign(self, e);
    }
    fn visit_expr_binary(&mut self, e: &'a ExprBinary) {
        if is_assign_op(&e.op) {
            self.add(&e.left);
        }
        visit::visit_expr_binary(self, e);
    }
    fn visit_expr_reference(&mut self, e: &'a ExprReference) {
        if e.mutability.is_some() {
            self.add(&e.expr);
        }
        visit::visit_expr_reference(self, e);
    }
    fn visit_expr_method_call(&mut self, e: &'a ExprMethodCall) {
        let m = e.method.to_string();
        if matches!(
            m.as_str(),
            "push" | "push_str" | "vextend" | "extend" | "extend_from_slice" | "copy_from_slice" | "clear" | "pop" | "insert" | "append"
        ) {
            self.add(&e.receiver);
        }
        visit::visit_expr_method_call(self, e);
    }
}

fn is_assign_op(o: &BinOp) -> bool {
    matches!(
        o,
        BinOp::AddAssign(_)
            | BinOp::SubAssign(_)
            | BinOp::MulAssign(_)
            | BinOp::DivAssign(_)
            | BinOp::RemAssign(_)
            | BinOp::BitAndAssign(_)
            | BinOp::BitOrAssign(_)
            | BinOp::BitXorAssign(_)
            | BinOp::ShlAssign(_)
            | BinOp::ShrAssign(_)
    )
}

impl<'a> Norm<'a> {
    pub fn new(ctx: &'a mut Ctx, _in_trait: bool) -> Norm<'a> {
        Norm { ctx, notes: vec![], loops: vec![], nloop: 0, ret_option: false, local_ints: BTreeSet::new(), params: BTreeSet::new() }
    }

    pub fn loops_json(&self) -> Value {
        let mut l: Vec<&LoopInfo> = self.loops.iter().collect();
        l.sort_by_key(|x| x.id);
        json!(l
            .iter()
            .map(|l| json!({"id": l.id, "kind": l.kind, "idx": l.idx, "end": l.end, "its": l.its, "muts": l.muts, "body": l.body}))
            .collect::<Vec<_>>())
    }

    pub fn run(&mut self, sig: &Signature, b: &mut Block) {
        if let ReturnType::Type(_, t) = &sig.output {
            self.ret_option = txt(t).starts_with("Option");
        }
        for a in &sig.inputs {
            if let FnArg::Typed(t) = a {
                if let Pat::Ident(i) = &*t.pat {
                    let ty = txt(&t.ty);
                    if matches!(ty.as_str(), "usize" | "u8" | "u32" | "u64") {
                        self.local_ints.insert(i.ident.to_string());
                    }
                    self.params.insert(i.ident.to_string());
                }
            }
        }
        self.visit_block_mut(b);
        // number the loops in the order of their text
        let order = marker_order(&txt(b));
        let mut map = std::collections::BTreeMap::new();
        for (new, old) in order.iter().enumerate() {
            map.insert(*old, new);
        }
        struct Ren(std::collections::BTreeMap<usize, usize>);
        impl VisitMut for Ren {
            fn visit_macro_mut(&mut self, m: &mut Macro) {
                if m.path.is_ident("__loop_marker") {
                    let n: usize = m.tokens.to_string().parse().unwrap();
                    let k = Literal(self.0[&n]);
                    m.tokens = k;
                }
            }
        }
        #[allow(non_snake_case)]
        fn Literal(n: usize) -> proc_macro2::TokenStream {
            let l = proc_macro2::Literal::usize_unsuffixed(n);
            quote::quote!(#l)
        }
        Ren(map.clone()).visit_block_mut(b);
        for l in self.loops.iter_mut() {
            if let Some(n) = map.get(&l.id) {
                l.id = *n;
            }
        }
    }

    fn lit(&mut self, b: Vec<u8>) -> Expr {
        let n = self.ctx.lits.len();
        let k = *self.ctx.lits.entry(b).or_insert(n);
        let l = proc_macro2::Literal::usize_unsuffixed(k);
        parse_quote!(crate::rt::lit(#l))
    }

    fn int_like(&self, e: &Expr) -> bool {
        match unparen(e) {
            Expr::Lit(l) => matches!(l.lit, Lit::Int(_) | Lit::Byte(_)),
            Expr::Cast(_) => true,
            Expr::MethodCall(m) => matches!(m.method.to_string().as_str(), "len" | "vlen"),
            Expr::Path(p) => {
                let s = p.path.segments.last().unwrap().ident.to_string();
                let gen = s.len() > 3 && s.starts_with("__") && s[3..4].chars().all(|c| c.is_ascii_digit()) && "knabrs".contains(&s[2..3]);
                gen || self.ctx.int_consts.contains(&s) || (p.path.segments.len() == 1 && self.local_ints.contains(&s))
            }
            Expr::Binary(b) => self.int_like(&b.left) || self.int_like(&b.right),
            _ => false,
        }
    }

    fn src(&mut self, e: &Expr, for_loop: bool) -> Option<Src> {
        let e = unparen(e);
        match e {
            Expr::Range(r) => {
                let a = (**r.start.as_ref()?).clone();
                let b = (**r.end.as_ref()?).clone();
                match r.limits {
                    RangeLimits::HalfOpen(_) => Some(Src::Range(a, b)),
                    RangeLimits::Closed(_) => Some(Src::Range(a, parse_quote!((#b) + 1))),
                }
            }
            Expr::Reference(r) if for_loop => {
                let x = (*r.expr).clone();
                if r.mutability.is_some() {
                    Some(Src::IterMut(x))
                } else {
                    Some(Src::Iter(x))
                }
            }
            Expr::MethodCall(m) => {
                let r = &m.receiver;
                let a0 = m.args.first().cloned();
                match (m.method.to_string().as_str(), m.args.len()) {
                    ("iter", 0) => Some(Src::Iter((**r).clone())),
                    ("iter_mut", 0) => Some(Src::IterMut((**r).clone())),
                    ("into_iter", 0) => {
                        if let Some(s) = self.src(r, false) {
                            return Some(s);
                        }
                        match unparen(r) {
                            Expr::Reference(x) if x.mutability.is_none() => Some(Src::Iter((*x.expr).clone())),
                            _ => None,
                        }
                    }
                    ("chunks", 1) => Some(Src::Chunks((**r).clone(), a0?)),
                    ("chunks_exact", 1) => Some(Src::ChunksExact((**r).clone(), a0?)),
                    ("rev", 0) => Some(Src::Rev(Box::new(self.src(r, false)?))),
                    ("enumerate", 0) => Some(Src::Enum(Box::new(self.src(r, false)?))),
                    ("cloned", 0) | ("copied", 0) => Some(Src::Copied(Box::new(self.src(r, false)?))),
                    ("skip", 1) => Some(Src::Skip(Box::new(self.src(r, false)?), a0?)),
                    ("take", 1) => Some(Src::Take(Box::new(self.src(r, false)?), a0?)),
                    ("zip", 1) => {
                        let x = self.src(r, false)?;
                        let y = self.src(&a0?, true)?;
                        Some(Src::Zip(Box::new(x), Box::new(y)))
                    }
                    ("map", 1) => match a0? {
                        Expr::Closure(c) if c.inputs.len() == 1 => Some(Src::Map(Box::new(self.src(r, false)?), c)),
                        _ => None,
                    },
                    _ => None,
                }
            }
            _ => None,
        }
    }

    /// Set-up statements, the number of items, and the item at the given index.
    fn lower(&mut self, s: &Src, n: usize, its: &mut Vec<String>, pre: &mut Vec<Stmt>, i: &Expr) -> (Expr, Expr) {
        match s {
            Src::Range(a, b) => {
                let (sa, sb) = (id(&format!("__a{}_{}", n, its.len())), id(&format!("__b{}_{}", n, its.len())));
                its.push(sa.to_string());
                pre.push(parse_quote!(let #sa: usize = #a;));
                pre.push(parse_quote!(let #sb: usize = #b;));
                (parse_quote!(crate::rt::range_len(#sa, #sb)), parse_quote!((#sa + (#i))))
            }
            Src::Iter(e) => {
                let it = id(&format!("__it{}_{}", n, its.len()));
                its.push(it.to_string());
                pre.push(parse_quote!(let #it = &(#e);));
                (parse_quote!(crate::rt::Iterable::vlen(#it)), parse_quote!(crate::rt::Iterable::vat(#it, #i)))
            }
            Src::IterMut(e) => {
                its.push(txt(e));
                (parse_quote!((#e).len()), parse_quote!(&mut (#e)[#i]))
            }
            Src::Chunks(e, k) => {
                let it = id(&format!("__it{}_{}", n, its.len()));
                its.push(it.to_string());
                pre.push(parse_quote!(let #it: &[u8] = &(#e);));
                (parse_quote!(crate::rt::nchunks(#it, #k)), parse_quote!(crate::rt::chunk_at(#it, #k, #i)))
            }
            Src::ChunksExact(e, k) => {
                let it = id(&format!("__it{}_{}", n, its.len()));
                its.push(it.to_string());
                pre.push(parse_quote!(let #it: &[u8] = &(#e);));
                (parse_quote!(crate::rt::nchunks_exact(#it, #k)), parse_quote!(crate::rt::chunk_at(#it, #k, #i)))
            }
            Src::Zip(a, b) => {
                let (la, ia) = self.lower(a, n, its, pre, i);
                let (lb, ib) = self.lower(b, n, its, pre, i);
                (parse_quote!(crate::rt::umin(#la, #lb)), parse_quote!((#ia, #ib)))
            }
            Src::Enum(a) => {
                let (l, x) = self.lower(a, n, its, pre, i);
                (l, parse_quote!((#i, #x)))
            }
            Src::Copied(a) => {
                let (l, x) = self.lower(a, n, its, pre, i);
                (l, parse_quote!(*(#x)))
            }
            Src::Rev(a) => {
                // the number of items first, to mirror the index
                let nm = id(&format!("__r{}_{}", n, its.len()));
                let mirrored: Expr = parse_quote!((#nm - 1 - (#i)));
                let (l, x) = self.lower(a, n, its, pre, &mirrored);
                pre.push(parse_quote!(let #nm: usize = #l;));
                (parse_quote!(#nm), x)
            }
            Src::Skip(a, k) => {
                let nm = id(&format!("__s{}_{}", n, its.len()));
                pre.push(parse_quote!(let #nm: usize = #k;));
                let sh: Expr = parse_quote!((#nm + (#i)));
                let (l, x) = self.lower(a, n, its, pre, &sh);
                (parse_quote!(crate::rt::usub(#l, #nm)), x)
            }
            Src::Take(a, k) => {
                let nm = id(&format!("__s{}_{}", n, its.len()));
                pre.push(parse_quote!(let #nm: usize = #k;));
                let (l, x) = self.lower(a, n, its, pre, i);
                (parse_quote!(crate::rt::umin(#l, #nm)), x)
            }
            Src::Map(a, c) => {
                let (l, x) = self.lower(a, n, its, pre, i);
                let mut b = vec![];
                bind(&c.inputs[0], x, &mut b);
                let body = &c.body;
                (l, parse_quote!({ #(#b)* #body }))
            }
        }
    }

    fn record(&mut self, n: usize, kind: String, idx: String, end: String, its: Vec<String>, body: &Block, idx_decl: &[String]) {
        let mut m = Muts { declared: idx_decl.iter().cloned().collect(), found: vec![] };
        for x in &its {
            if kind.contains("iter_mut") {
                let e: Option<Expr> = parse_str(x).ok();
                if let Some(e) = e {
                    m.add(&e);
                }
            }
        }
        m.visit_block(body);
        let found = m.found.into_iter().filter(|x| x != &idx).collect();
        self.loops.push(LoopInfo { id: n, kind, idx, end, its, muts: found, body: txt(body) });
    }

    /// A loop over `s` as a `while`; `stmts` is the (already normalised) body.
    fn make_loop(&mut self, s: Src, pat: &Pat, stmts: Vec<Stmt>, label: Option<Label>) -> Vec<Stmt> {
        let n = self.nloop;
        self.nloop += 1;
        let nl = proc_macro2::Literal::usize_unsuffixed(n);
        let k = id(&format!("__k{}", n));
        let end = id(&format!("__n{}", n));
        let kind = s.desc();
        let mut pre: Vec<Stmt> = vec![];
        let mut its = vec![];
        let mut b: Vec<Stmt> = vec![];
        let r = match &s {
            Src::Range(lo, hi) => {
                bind(pat, parse_quote!(#k), &mut b);
                let body: Block = parse_quote!({ __loop_marker!(#nl); #(#b)* #k += 1; #(#stmts)* });
                self.record(n, kind, k.to_string(), end.to_string(), its, &body, &[k.to_string()]);
                let st = &body.stmts;
                parse_quote!({ let #end: usize = #hi; let mut #k: usize = #lo; #label while #k < #end { #(#st)* } })
            }
            Src::Rev(inner) if matches!(**inner, Src::Range(..)) => {
                if let Src::Range(lo, hi) = &**inner {
                    bind(pat, parse_quote!(#k), &mut b);
                    let body: Block = parse_quote!({ __loop_marker!(#nl); #k -= 1; #(#b)* #(#stmts)* });
                    self.record(n, kind, k.to_string(), end.to_string(), its, &body, &[k.to_string()]);
                    let st = &body.stmts;
                    parse_quote!({ let #end: usize = #lo; let mut #k: usize = #hi; #label while #k > #end { #(#st)* } })
                } else {
                    unreachable!()
                }
            }
            s => {
                let ke: Expr = parse_quote!(#k);
                let (len, item) = self.lower(s, n, &mut its, &mut pre, &ke);
                bind(pat, item, &mut b);
                let body: Block = parse_quote!({ __loop_marker!(#nl); #(#b)* #k += 1; #(#stmts)* });
                self.record(n, kind, k.to_string(), end.to_string(), its, &body, &[k.to_string()]);
                let st = &body.stmts;
                parse_quote!({ #(#pre)* let #end: usize = #len; let mut #k: usize = 0; #label while #k < #end { #(#st)* } })
            }
        };
        let blk: Block = r;
        blk.stmts
    }

    /// A function or constructor, and not a variable.
    fn named_fn(&self, p: &ExprPath) -> bool {
        p.qself.is_none() && (p.path.segments.len() > 1 || p.path.segments[0].ident.to_string().starts_with(char::is_uppercase))
    }

    fn consumer(&mut self, m: &ExprMethodCall) -> Option<Expr> {
        let name = m.method.to_string();
        let nargs = m.args.len();
        match (name.as_str(), nargs) {
            ("fold", 2) => {
                let s = self.src(&m.receiver, false)?;
                let c = match &m.args[1] {
                    Expr::Closure(c) if c.inputs.len() == 2 => c.clone(),
                    _ => return None,
                };
                let acc = id(&format!("__acc{}", self.nloop));
                let init = &m.args[0];
                let mut b = vec![];
                bind(&c.inputs[0], parse_quote!(#acc), &mut b);
                let body = &c.body;
                let stmts: Vec<Stmt> = vec![parse_quote!(#acc = { #(#b)* #body };)];
                let l = self.make_loop(s, &c.inputs[1], stmts, None);
                Some(parse_quote!({ let mut #acc = #init; #(#l)* #acc }))
            }
            ("for_each", 1) => {
                let s = self.src(&m.receiver, false)?;
                let c = match &m.args[0] {
                    Expr::Closure(c) if c.inputs.len() == 1 => c.clone(),
                    _ => return None,
                };
                let body = &c.body;
                let l = self.make_loop(s, &c.inputs[0], vec![parse_quote!({ #body };)], None);
                Some(parse_quote!({ #(#l)* }))
            }
            ("collect", 0) => {
                let s = self.src(&m.receiver, false)?;
                let acc = id(&format!("__acc{}", self.nloop));
                let x = id(&format!("__x{}", self.nloop));
                let p: Pat = Pat::Ident(PatIdent { attrs: vec![], by_ref: None, mutability: None, ident: x.clone(), subpat: None });
                let l = self.make_loop(s, &p, vec![parse_quote!(#acc.push(#x);)], None);
                match made(&m.receiver) {
                    // what is collected is said by the function which makes it: what is said of it before the first is in may need it
                    Some(t) => Some(parse_quote!({ let mut #acc: Vec<#t> = Vec::new(); #(#l)* #acc })),
                    None => Some(parse_quote!({ let mut #acc = Vec::new(); #(#l)* #acc })),
                }
            }
            ("all", 1) | ("any", 1) => {
                let s = self.src(&m.receiver, false)?;
                let c = match &m.args[0] {
                    Expr::Closure(c) if c.inputs.len() == 1 => c.clone(),
                    _ => return None,
                };
                if let (Src::Iter(x), Some((eq, l))) = (&s, compares(&c)) {
                    // bytes which all are, or of which some is not, one given
                    if eq == (name == "all") {
                        let r: Expr = parse_quote!(crate::rt::bytes_all(&(#x), #l));
                        return Some(if eq { r } else { parse_quote!((!#r)) });
                    }
                }
                let acc = id(&format!("__acc{}", self.nloop));
                let body = &c.body;
                let (init, upd): (Expr, Stmt) = if name == "all" {
                    (parse_quote!(true), parse_quote!(if !(#body) { #acc = false; break; }))
                } else {
                    (parse_quote!(false), parse_quote!(if #body { #acc = true; break; }))
                };
                let l = self.make_loop(s, &c.inputs[0], vec![upd], None);
                Some(parse_quote!({ let mut #acc = #init; #(#l)* #acc }))
            }
            ("extend", 1) => {
                let v = &m.receiver;
                let a = unparen(&m.args[0]);
                match self.src(a, true) {
                    Some(Src::Iter(e)) => Some(parse_quote!(#v.vextend(&(#e)))),
                    Some(Src::Copied(b)) => match *b {
                        Src::Iter(e) => Some(parse_quote!(#v.vextend(&(#e)))),
                        _ => None,
                    },
                    Some(s) => {
                        let x = id(&format!("__x{}", self.nloop));
                        let p: Pat = Pat::Ident(PatIdent { attrs: vec![], by_ref: None, mutability: None, ident: x.clone(), subpat: None });
                        let l = self.make_loop(s, &p, vec![parse_quote!(#v.push(#x);)], None);
                        Some(parse_quote!({ #(#l)* }))
                    }
                    None => Some(parse_quote!(#v.vextend(&(#a)))),
                }
            }
            // what the value is, and so what it is matched with, is a guess here which the types must bear out
            ("map", 1) | ("and_then", 1) | ("map_or", 2) => {
                let c: ExprClosure = match m.args.last() {
                    Some(Expr::Closure(c)) if c.inputs.len() == 1 && !exits(&c.body) => c.clone(),
                    Some(Expr::Path(f)) if self.named_fn(f) => parse_quote!(|__v| #f(__v)),
                    _ => return None,
                };
                if self.src(&m.receiver, false).is_some() {
                    return None;
                }
                let p = match &c.inputs[0] {
                    Pat::Type(t) => (*t.pat).clone(),
                    p => p.clone(),
                };
                let (r, b) = (&m.receiver, &c.body);
                Some(match (name.as_str(), outcome(r)) {
                    ("map", false) => parse_quote!(match #r { Some(#p) => Some(#b), None => None }),
                    ("map", true) => parse_quote!(match #r { Ok(#p) => Ok(#b), Err(__e) => Err(__e) }),
                    ("and_then", false) => parse_quote!(match #r { Some(#p) => #b, None => None }),
                    ("and_then", true) => parse_quote!(match #r { Ok(#p) => #b, Err(__e) => Err(__e) }),
                    (_, result) => {
                        let d = &m.args[0];
                        if !plain(d) {
                            return None;
                        }
                        if result {
                            parse_quote!(match #r { Ok(#p) => #b, Err(_) => #d })
                        } else {
                            parse_quote!(match #r { Some(#p) => #b, None => #d })
                        }
                    }
                })
            }
            ("first", 0) => {
                let r = &m.receiver;
                Some(parse_quote!(#r.get(0)))
            }
            ("cloned", 0) => match unparen(&m.receiver) {
                Expr::MethodCall(g) if g.method == "get" || g.method == "first" => {
                    let r = &m.receiver;
                    Some(parse_quote!(match #r { Some(__v) => Some((*__v).clone()), None => None }))
                }
                _ => None,
            },
            ("map_err", 1) => {
                let r = &m.receiver;
                match &m.args[0] {
                    Expr::Closure(c) if c.inputs.len() == 1 && exits(&c.body) => None,
                    Expr::Closure(c) if c.inputs.len() == 1 => {
                        let p = &c.inputs[0];
                        let p: Pat = match p {
                            Pat::Type(t) => (*t.pat).clone(),
                            p => p.clone(),
                        };
                        let b = &c.body;
                        Some(parse_quote!(match #r { Ok(__v) => Ok(__v), Err(#p) => Err(#b) }))
                    }
                    f => Some(parse_quote!(match #r { Ok(__v) => Ok(__v), Err(__e) => Err(#f(__e)) })),
                }
            }
            ("ok_or_else", 1) => {
                let r = &m.receiver;
                match &m.args[0] {
                    Expr::Closure(c) if c.inputs.is_empty() && !exits(&c.body) => {
                        let b = &c.body;
                        Some(parse_quote!(match #r { Some(__v) => Ok(__v), None => Err(#b) }))
                    }
                    _ => None,
                }
            }
            _ => None,
        }
    }

    /// The elements of `&[a, b]`, or of `(&[a, b]).into_iter().chain(iter::once(x))`, by value.
    fn array_elems(&self, e: &Expr) -> Option<Vec<Expr>> {
        match unparen(e) {
            Expr::Reference(r) => match unparen(&r.expr) {
                Expr::Array(a) => Some(a.elems.iter().cloned().collect()),
                _ => None,
            },
            Expr::Array(a) => Some(a.elems.iter().cloned().collect()),
            Expr::MethodCall(m) => match m.method.to_string().as_str() {
                "into_iter" | "iter" => self.array_elems(&m.receiver),
                "cloned" => self.array_elems(&m.receiver),
                "chain" => {
                    let mut v = self.array_elems(&m.receiver)?;
                    match unparen(&m.args[0]) {
                        Expr::Call(c) if txt(&c.func).replace(' ', "").ends_with("once") => {
                            let x = unparen(&c.args[0]);
                            let x: Expr = match x {
                                Expr::Reference(r) => (*r.expr).clone(),
                                x => parse_quote!(*(#x)),
                            };
                            v.push(x);
                        }
                        other => v.extend(self.array_elems(other)?),
                    }
                    Some(v)
                }
                _ => None,
            },
            _ => None,
        }
    }

    fn ufcs(&mut self, b: &ExprBinary) -> Option<Expr> {
        let (l, r) = (&b.left, &b.right);
        if self.int_like(l) || self.int_like(r) {
            return None;
        }
        Some(match b.op {
            BinOp::Add(_) => parse_quote!(core::ops::Add::add(#l, #r)),
            BinOp::Sub(_) => parse_quote!(core::ops::Sub::sub(#l, #r)),
            BinOp::Mul(_) => parse_quote!(core::ops::Mul::mul(#l, #r)),
            BinOp::AddAssign(_) => parse_quote!({ let __r = #r; core::ops::AddAssign::add_assign(&mut #l, __r); }),
            BinOp::SubAssign(_) => parse_quote!({ let __r = #r; core::ops::SubAssign::sub_assign(&mut #l, __r); }),
            BinOp::MulAssign(_) => parse_quote!({ let __r = #r; core::ops::MulAssign::mul_assign(&mut #l, __r); }),
            _ => return None,
        })
    }
}

/// `for p in s { v.push(b?) }` for `s.map(|p| b).collect::<Result<Vec<_>, _>>()?`
fn collect_results(e: &Expr, n: usize) -> Option<Expr> {
    struct Leaves(bool);
    impl<'a> syn::visit::Visit<'a> for Leaves {
        fn visit_expr_try(&mut self, _: &'a ExprTry) {
            self.0 = true;
        }
        fn visit_expr_return(&mut self, _: &'a ExprReturn) {
            self.0 = true;
        }
    }
    let (c, ty) = match unparen(e) {
        Expr::MethodCall(m) if m.method == "collect" => match m.turbofish.as_ref()?.args.first()? {
            GenericArgument::Type(Type::Path(p)) => (m, p.path.segments.last()?.clone()),
            _ => return None,
        },
        _ => return None,
    };
    let inner = match &ty.arguments {
        PathArguments::AngleBracketed(a) if ty.ident == "Result" || ty.ident == "Option" => match a.args.first()? {
            GenericArgument::Type(t) => t.clone(),
            _ => return None,
        },
        _ => return None,
    };
    match &inner {
        Type::Infer(_) => {}
        Type::Path(p) if p.path.segments.last()?.ident == "Vec" => {}
        _ => return None,
    }
    let (src, clo) = match unparen(&c.receiver) {
        Expr::MethodCall(m) if m.method == "map" && m.args.len() == 1 => match &m.args[0] {
            Expr::Closure(c) if c.inputs.len() == 1 => (&m.receiver, c),
            _ => return None,
        },
        _ => return None,
    };
    let mut l = Leaves(false);
    syn::visit::Visit::visit_expr(&mut l, &clo.body);
    if l.0 {
        return None;
    }
    let p = match &clo.inputs[0] {
        Pat::Type(t) => (*t.pat).clone(),
        p => p.clone(),
    };
    let b = &clo.body;
    let acc = id(&format!("__acc{}", n));
    Some(parse_quote!({ let mut #acc = Vec::new(); for #p in #src { #acc.push((#b)?); } #acc }))
}

/// `T` of `s.map(|_| T::new(..))`
fn made(e: &Expr) -> Option<Path> {
    let c = match unparen(e) {
        Expr::MethodCall(m) if m.method == "map" && m.args.len() == 1 => match &m.args[0] {
            Expr::Closure(c) => c,
            _ => return None,
        },
        _ => return None,
    };
    let p = match unparen(&c.body) {
        Expr::Call(c) => match &*c.func {
            Expr::Path(p) if p.qself.is_none() && p.path.segments.len() >= 2 => p.path.clone(),
            _ => return None,
        },
        _ => return None,
    };
    let f = p.segments.last()?.ident.to_string();
    if !["new", "random", "zero", "one", "identity", "default", "generate"].contains(&f.as_str()) {
        return None;
    }
    let n = p.segments.len() - 1;
    let mut q = p.clone();
    q.segments = p.segments.into_iter().take(n).collect();
    Some(q)
}

/// `x` of `x[..]`
fn whole(e: &Expr) -> Option<Expr> {
    if let Expr::Index(i) = unparen(e) {
        if let Expr::Range(r) = unparen(&i.index) {
            if r.start.is_none() && r.end.is_none() {
                return Some((*i.expr).clone());
            }
        }
    }
    None
}

/// `&x[a..b]` or `x[a..b]`
fn slicing(e: &Expr) -> bool {
    match unparen(e) {
        Expr::Reference(r) => slicing(&r.expr),
        Expr::Index(i) => matches!(unparen(&i.index), Expr::Range(_)),
        _ => false,
    }
}
fn as_ref(e: &Expr) -> Expr {
    match unparen(e) {
        Expr::Index(_) => parse_quote!(&#e),
        Expr::Unary(u) if matches!(u.op, UnOp::Deref(_)) => (*u.expr).clone(),
        _ => e.clone(),
    }
}

fn marker_order(s: &str) -> Vec<usize> {
    let mut out = vec![];
    let mut rest = s;
    while let Some(p) = rest.find("__loop_marker") {
        rest = &rest[p + "__loop_marker".len()..];
        let d: String = rest.chars().skip_while(|c| !c.is_ascii_digit()).take_while(|c| c.is_ascii_digit()).collect();
        if let Ok(n) = d.parse() {
            out.push(n);
        }
    }
    out
}

impl<'a> VisitMut for Norm<'a> {
    fn visit_item_mut(&mut self, _: &mut Item) {}

    fn visit_local_mut(&mut self, l: &mut Local) {
        // remember which variables are integers
        if let Pat::Type(t) = &l.pat {
            if let Pat::Ident(i) = &*t.pat {
                if matches!(txt(&t.ty).as_str(), "usize" | "u8" | "u32" | "u64") {
                    self.local_ints.insert(i.ident.to_string());
                }
            }
        }
        if let (Pat::Ident(i), Some(init)) = (&l.pat, &l.init) {
            if self.int_like(&init.expr) && !matches!(unparen(&init.expr), Expr::Path(_)) {
                self.local_ints.insert(i.ident.to_string());
            }
        }
        visit_mut::visit_local_mut(self, l);
    }

    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // shapes which must be seen before their parts are rewritten
        match e {
            Expr::Call(c) => {
                let f = txt(&c.func).replace(' ', "");
                if f.ends_with("multiscalar_mul") && c.args.len() == 2 {
                    let a = self.array_elems(&c.args[0]);
                    let b = self.array_elems(&c.args[1]);
                    if let (Some(a), Some(b)) = (a, b) {
                        if a.len() != b.len() {
                            *e = parse_quote!(crate::rt::msm_mismatch());
                        } else if a.len() >= 1 && a.len() <= 4 {
                            let nm = id(&format!("msm{}", a.len()));
                            let mut args: Vec<Expr> = a;
                            args.extend(b);
                            *e = parse_quote!(crate::rt::#nm(#(#args),*));
                        } else {
                            *e = parse_quote!(crate::rt::msm(&[#(#a),*], &[#(#b),*]));
                        }
                    }
                }
            }
            Expr::MethodCall(m) => {
                if m.method == "as_bytes" {
                    if let Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) = unparen(&m.receiver) {
                        let b = s.value().into_bytes();
                        *e = self.lit(b);
                        return;
                    }
                }
            }
            Expr::Lit(ExprLit { lit: Lit::ByteStr(s), .. }) => {
                let b = s.value();
                *e = self.lit(b);
                return;
            }
            Expr::Try(t) => {
                // the first item that fails is returned, and the others are not looked at
                if let Some(x) = collect_results(&t.expr, self.nloop) {
                    *e = x;
                    self.visit_expr_mut(e);
                    return;
                }
            }
            Expr::ForLoop(f) => {
                let f2 = f.clone();
                // range loops bind an integer
                if let (Pat::Ident(i), Expr::Range(_)) = (&*f2.pat, unparen(&f2.expr)) {
                    self.local_ints.insert(i.ident.to_string());
                }
                if let Pat::Tuple(t) = &*f2.pat {
                    if txt(&f2.expr).contains("enumerate") {
                        if let Some(Pat::Ident(i)) = t.elems.first() {
                            self.local_ints.insert(i.ident.to_string());
                        }
                    }
                }
                if let Some(s) = self.src(&f2.expr, true) {
                    let l = self.make_loop(s, &f2.pat, f2.body.stmts.clone(), f2.label.clone());
                    *e = parse_quote!({ #(#l)* });
                    visit_mut::visit_expr_mut(self, e);
                    return;
                }
                self.notes.push("for loop kept".into());
            }
            _ => {}
        }
        // chains which consume an iterator
        if let Expr::MethodCall(m) = e {
            let m2 = m.clone();
            if let Some(x) = self.consumer(&m2) {
                *e = x;
                self.visit_expr_mut(e);
                return;
            }
        }
        // `while let P = x { .. }` is `loop { match x { P => { .. } _ => break } }`
        if let Expr::While(w) = e {
            if let Expr::Let(l) = unparen(&w.cond) {
                let (pat, x, body, label) = (&l.pat, &l.expr, &w.body, &w.label);
                *e = parse_quote!(#label loop { match #x { #pat => #body _ => break, } });
            }
        }
        let was_while = matches!(e, Expr::While(_));
        visit_mut::visit_expr_mut(self, e);
        if was_while {
            if let Expr::While(w) = e {
                let first_is_marker = matches!(w.body.stmts.first(), Some(Stmt::Macro(m)) if m.mac.path.is_ident("__loop_marker"));
                if !first_is_marker {
                    let n = self.nloop;
                    self.nloop += 1;
                    let nl = proc_macro2::Literal::usize_unsuffixed(n);
                    // `while i < n { .. i += 1; .. }`
                    let (mut idx, mut end) = (String::new(), String::new());
                    let mut cond = unparen(&w.cond);
                    while let Expr::Binary(b) = cond {
                        if !matches!(b.op, BinOp::And(_)) {
                            break;
                        }
                        cond = unparen(&b.left);
                    }
                    if let Expr::Binary(b) = cond {
                        if let (BinOp::Lt(_), Expr::Path(p)) = (&b.op, unparen(&b.left)) {
                            let v = txt(p);
                            if txt(&w.body).contains(&format!("{} += ", v)) {
                                idx = v;
                                end = txt(&b.right);
                            }
                        }
                        // `while v.len() < n { .. v.push(x); .. }`
                        if let (BinOp::Lt(_), Expr::MethodCall(m)) = (&b.op, unparen(&b.left)) {
                            if m.method == "len" && m.args.is_empty() && matches!(unparen(&m.receiver), Expr::Path(_)) {
                                idx = txt(&b.left);
                                end = txt(&b.right);
                            }
                        }
                    }
                    let body = w.body.clone();
                    let ix = idx.clone();
                    self.record(n, "while".into(), idx, end, vec![], &body, &[ix]);
                    w.body.stmts.insert(0, parse_quote!(__loop_marker!(#nl);));
                }
            }
            return;
        }
        let new: Option<Expr> = match e {
            Expr::Loop(l) => {
                let n = self.nloop;
                self.nloop += 1;
                let nl = proc_macro2::Literal::usize_unsuffixed(n);
                let body = l.body.clone();
                self.record(n, "loop".into(), String::new(), String::new(), vec![], &body, &[]);
                l.body.stmts.insert(0, parse_quote!(__loop_marker!(#nl);));
                None
            }
            Expr::Try(t) => {
                let x = &t.expr;
                Some(if self.ret_option {
                    parse_quote!(match crate::rt::Branch::branch(#x) { Ok(__v) => __v, Err(__e) => return None })
                } else {
                    parse_quote!(match crate::rt::Branch::branch(#x) { Ok(__v) => __v, Err(__e) => return Err(From::from(__e)) })
                })
            }
            Expr::Binary(b) if matches!(b.op, BinOp::Eq(_) | BinOp::Ne(_)) && (slicing(&b.left) || slicing(&b.right)) => {
                let (l, r) = (as_ref(&b.left), as_ref(&b.right));
                Some(if matches!(b.op, BinOp::Eq(_)) { parse_quote!(crate::rt::bytes_eq(#l, #r)) } else { parse_quote!((!crate::rt::bytes_eq(#l, #r))) })
            }
            Expr::Binary(b) => {
                let b2 = b.clone();
                self.ufcs(&b2)
            }
            // `&x[..]`: all of it
            Expr::Reference(r) if r.mutability.is_none() && whole(&r.expr).is_some() => {
                let x = whole(&r.expr).unwrap();
                Some(parse_quote!(crate::rt::Whole::whole(&#x)))
            }
            Expr::Unary(u) if matches!(u.op, UnOp::Neg(_)) => {
                let x = &u.expr;
                if self.int_like(x) {
                    None
                } else {
                    Some(parse_quote!(core::ops::Neg::neg(#x)))
                }
            }
            // pointers exist in the crate for C only
            Expr::Unsafe(u) => {
                let b = &u.block;
                Some(parse_quote!(#b))
            }
            Expr::Cast(c) if matches!(&*c.ty, Type::Ptr(_)) => {
                let (x, t) = (&c.expr, &c.ty);
                Some(parse_quote!(crate::rt::PtrCast::<#t>::ptr_cast(#x)))
            }
            Expr::MethodCall(m) if m.method == "is_null" && m.args.is_empty() => {
                let x = &m.receiver;
                Some(parse_quote!(crate::rt::is_null(#x)))
            }
            Expr::Call(c) if c.args.len() == 1 && txt(&c.func).replace(' ', "") == "Vec::from" => {
                let x = &c.args[0];
                Some(parse_quote!(crate::rt::IntoBytes::into_vec(#x)))
            }
            Expr::MethodCall(m) => {
                let name = m.method.to_string();
                let n = match (name.as_str(), m.args.len()) {
                    ("into_boxed_slice", 0) => Some("vinto_boxed_slice"),
                    ("clone", 0) => Some("vclone"),
                    ("to_vec", 0) => Some("vto_vec"),
                    ("extend_from_slice", 1) => Some("vextend"),
                    _ => None,
                };
                if let Some(n) = n {
                    m.method = id(n);
                }
                None
            }
            Expr::Macro(m) => {
                let n = m.mac.path.segments.last().unwrap().ident.to_string();
                match n.as_str() {
                    "debug_assert" | "assert" => {
                        let args = m.mac.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated).ok();
                        args.and_then(|a| a.first().cloned()).map(|mut c| {
                            self.visit_expr_mut(&mut c);
                            parse_quote!({ if !(#c) { panic!() } })
                        })
                    }
                    "debug_assert_eq" | "assert_eq" => {
                        let args = m.mac.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated).ok();
                        args.and_then(|a| if a.len() >= 2 { Some((a[0].clone(), a[1].clone())) } else { None }).map(|(mut a, mut b)| {
                            self.visit_expr_mut(&mut a);
                            self.visit_expr_mut(&mut b);
                            parse_quote!({ if !(#a == #b) { panic!() } })
                        })
                    }
                    "panic" | "unreachable" => Some(parse_quote!(panic!())),
                    // the elements in order, each pushed: what `vec!` does
                    "vec" => {
                        let args = m.mac.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated).ok();
                        args.map(|a| {
                            let es: Vec<Expr> = a.into_iter().map(|mut x| { self.visit_expr_mut(&mut x); x }).collect();
                            parse_quote!({ let mut __v = Vec::new(); #( __v.push(#es); )* __v })
                        })
                    }
                    _ => None,
                }
            }
            _ => None,
        };
        if let Some(n) = new {
            *e = n;
        }
    }

    fn visit_stmt_mut(&mut self, s: &mut Stmt) {
        if let Stmt::Macro(m) = s {
            if m.mac.path.is_ident("__loop_marker") {
                return;
            }
            let mut e = Expr::Macro(ExprMacro { attrs: vec![], mac: m.mac.clone() });
            self.visit_expr_mut(&mut e);
            *s = Stmt::Expr(e, Some(Default::default()));
            return;
        }
        visit_mut::visit_stmt_mut(self, s);
    }
}
