//! Inlining of functions which have no contract of their own, so that extracting a helper changes no obligation.
use crate::{cfg_on, txt, Ctx};
use std::collections::{BTreeMap, BTreeSet};
use syn::visit::Visit;
use syn::visit_mut::VisitMut;
use syn::*;

#[derive(Clone)]
pub struct Helper {
    pub sig: Signature,
    pub block: Block,
    pub modpath: String,
    pub owner: String,
    pub converted: Option<Block>,
}

#[derive(Default)]
pub struct Helpers {
    pub map: BTreeMap<String, Helper>,
    pub counter: usize,
    /// all method names which some contracted function has
    pub contracted_names: BTreeSet<String>,
}

impl Helpers {
    pub fn collect(&mut self, modpath: &str, items: &[Item], contracted: &BTreeSet<String>) {
        for c in contracted {
            if let Some(n) = c.rsplit("::").next() {
                self.contracted_names.insert(n.to_string());
            }
        }
        for it in items {
            match it {
                Item::Fn(f) if cfg_on(&f.attrs) => self.add(modpath, "", &f.sig, &f.block, contracted),
                Item::Impl(im) if cfg_on(&im.attrs) && im.trait_.is_none() => {
                    let owner: String = txt(&im.self_ty).split_whitespace().collect();
                    for x in &im.items {
                        if let ImplItem::Fn(f) = x {
                            if cfg_on(&f.attrs) {
                                self.add(modpath, &owner, &f.sig, &f.block, contracted);
                            }
                        }
                    }
                }
                Item::Mod(m) if cfg_on(&m.attrs) => {
                    if let Some((_, its)) = &m.content {
                        self.collect(&format!("{}::{}", modpath, m.ident), its, contracted);
                    }
                }
                _ => {}
            }
        }
    }

    fn add(&mut self, modpath: &str, owner: &str, sig: &Signature, block: &Block, contracted: &BTreeSet<String>) {
        let id = if owner.is_empty() { format!("{}::{}", modpath, sig.ident) } else { format!("{}::{}::{}", modpath, owner, sig.ident) };
        if contracted.contains(&id) {
            return;
        }
        let mut b = block.clone();
        let mut notes = vec![];
        crate::norm::strip_cfg(&mut b, &mut notes);
        let mut n = 0;
        let converted = single_exit(b.stmts.clone(), &mut n, 0).map(|stmts| Block { brace_token: Default::default(), stmts });
        self.map.insert(id, Helper { sig: sig.clone(), block: b, modpath: modpath.into(), owner: owner.into(), converted });
    }

    pub fn all_inlined(&self, id: &str) -> bool {
        self.map.get(id).map(|h| h.converted.is_some() && h.inlinable()).unwrap_or(false)
    }
}

impl Helper {
    fn inlinable(&self) -> bool {
        let t = txt(&self.sig.output);
        !t.contains("impl ")
    }
}

struct HasExit(bool);
impl<'a> Visit<'a> for HasExit {
    fn visit_expr_return(&mut self, _: &'a ExprReturn) {
        self.0 = true;
    }
    fn visit_expr_try(&mut self, _: &'a ExprTry) {
        self.0 = true;
    }
    fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
    fn visit_item(&mut self, _: &'a Item) {}
}
fn stmt_exits(s: &Stmt) -> bool {
    let mut h = HasExit(false);
    h.visit_stmt(s);
    h.0
}
fn expr_exits(e: &Expr) -> bool {
    let mut h = HasExit(false);
    h.visit_expr(e);
    h.0
}

fn arm_stmts(e: &Expr) -> Vec<Stmt> {
    match e {
        Expr::Block(b) if b.label.is_none() => b.block.stmts.clone(),
        e => vec![Stmt::Expr(e.clone(), None)],
    }
}

fn strip_paren(e: &Expr) -> &Expr {
    match e {
        Expr::Paren(p) => strip_paren(&p.expr),
        e => e,
    }
}

/// Where the branch taken by `s` goes on: the statements of the branch, then what follows `s`.
fn continue_with(branch: Vec<Stmt>, local: Option<&Local>, rest: &[Stmt]) -> Option<Vec<Stmt>> {
    let mut b = branch;
    if let Some(Stmt::Expr(Expr::Return(_), _)) = b.last() {
        return Some(b);
    }
    match local {
        Some(l) => match b.pop() {
            Some(Stmt::Expr(e, None)) => {
                let mut l2 = l.clone();
                l2.init = Some(LocalInit { eq_token: Default::default(), expr: Box::new(e), diverge: None });
                b.push(Stmt::Local(l2));
                b.extend_from_slice(rest);
                Some(b)
            }
            _ => None,
        },
        None => {
            if rest.is_empty() {
                return Some(b);
            }
            if let Some(Stmt::Expr(e, semi)) = b.last_mut() {
                let _ = e;
                if semi.is_none() {
                    *semi = Some(Default::default());
                }
            }
            b.extend_from_slice(rest);
            Some(b)
        }
    }
}

struct HoistTry {
    found: Option<Expr>,
    name: Ident,
    blocked: bool,
}
impl VisitMut for HoistTry {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if self.found.is_some() || self.blocked {
            return;
        }
        match e {
            Expr::Closure(_) => return,
            Expr::If(_) | Expr::Match(_) | Expr::Block(_) | Expr::While(_) | Expr::ForLoop(_) | Expr::Loop(_) => {
                if expr_exits(e) {
                    self.blocked = true;
                }
                return;
            }
            Expr::Return(_) => {
                self.blocked = true;
                return;
            }
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
        if self.found.is_some() || self.blocked {
            return;
        }
        if let Expr::Try(t) = e {
            self.found = Some((*t.expr).clone());
            let n = &self.name;
            *e = parse_quote!(#n);
        }
    }
    fn visit_item_mut(&mut self, _: &mut Item) {}
}

/// Rewrites statements so that control leaves them at the end only: `return` and `?` become nested branches.
pub fn single_exit(stmts: Vec<Stmt>, n: &mut usize, depth: usize) -> Option<Vec<Stmt>> {
    if depth > 24 {
        return None;
    }
    let i = match stmts.iter().position(stmt_exits) {
        None => return Some(stmts),
        Some(i) => i,
    };
    let mut pre: Vec<Stmt> = stmts[..i].to_vec();
    let s = stmts[i].clone();
    let rest: Vec<Stmt> = stmts[i + 1..].to_vec();
    let (e, local): (Expr, Option<Local>) = match &s {
        Stmt::Expr(e, _) => (strip_paren(e).clone(), None),
        Stmt::Local(l) => match &l.init {
            Some(init) if init.diverge.is_none() => (strip_paren(&init.expr).clone(), Some(l.clone())),
            _ => return None,
        },
        _ => return None,
    };
    if local.is_none() {
        if let Expr::Return(r) = &e {
            match &r.expr {
                Some(v) => {
                    pre.push(Stmt::Expr((**v).clone(), None));
                    // the value itself may hold a `?`
                    return if expr_exits(v) { single_exit(pre, n, depth + 1) } else { Some(pre) };
                }
                None => {
                    return Some(pre);
                }
            }
        }
    }
    match &e {
        Expr::If(x) if !expr_exits(&x.cond) => {
            let t = continue_with(x.then_branch.stmts.clone(), local.as_ref(), &rest)?;
            let t = single_exit(t, n, depth + 1)?;
            let f = match &x.else_branch {
                Some((_, e)) => continue_with(arm_stmts(e), local.as_ref(), &rest)?,
                None => rest.clone(),
            };
            let f = single_exit(f, n, depth + 1)?;
            let c = &x.cond;
            let e2: Expr = parse_quote!(if #c { #(#t)* } else { #(#f)* });
            pre.push(Stmt::Expr(e2, None));
            Some(pre)
        }
        Expr::Match(x) if !expr_exits(&x.expr) => {
            let mut m = x.clone();
            for a in m.arms.iter_mut() {
                if let Some((_, g)) = &a.guard {
                    if expr_exits(g) {
                        return None;
                    }
                }
                let b = continue_with(arm_stmts(&a.body), local.as_ref(), &rest)?;
                let b = single_exit(b, n, depth + 1)?;
                a.body = Box::new(parse_quote!({ #(#b)* }));
            }
            pre.push(Stmt::Expr(Expr::Match(m), None));
            Some(pre)
        }
        Expr::Block(x) if x.label.is_none() => {
            // the block's own variables would be visible in what follows, which no extracted helper minds
            let b = continue_with(x.block.stmts.clone(), local.as_ref(), &rest)?;
            let b = single_exit(b, n, depth + 1)?;
            pre.extend(b);
            Some(pre)
        }
        _ => {
            *n += 1;
            let name = Ident::new(&format!("__q{}", n), proc_macro2::Span::call_site());
            let mut h = HoistTry { found: None, name: name.clone(), blocked: false };
            let mut s2 = s.clone();
            h.visit_stmt_mut(&mut s2);
            let inner = h.found?;
            if h.blocked {
                return None;
            }
            let mut tail = vec![s2];
            tail.extend(rest);
            let tail = single_exit(tail, n, depth + 1)?;
            let e2: Expr = parse_quote!(match crate::rt::Branch::branch(#inner) {
                Ok(#name) => { #(#tail)* }
                Err(__e) => Err(From::from(__e)),
            });
            pre.push(Stmt::Expr(e2, None));
            // `inner` may itself hold a `?` inside a branch
            Some(pre)
        }
    }
}

struct Rename<'a> {
    map: &'a BTreeMap<String, Expr>,
    idents: &'a BTreeMap<String, Ident>,
    self_name: Option<Expr>,
    self_ty: Option<Ident>,
}
impl<'a> VisitMut for Rename<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Path(p) = e {
            if p.qself.is_none() && p.path.segments.len() == 1 {
                let s = p.path.segments[0].ident.to_string();
                if s == "self" {
                    if let Some(x) = &self.self_name {
                        *e = x.clone();
                    }
                    return;
                }
                if let Some(x) = self.map.get(&s) {
                    *e = x.clone();
                    return;
                }
                if let Some(i) = self.idents.get(&s) {
                    *e = parse_quote!(#i);
                    return;
                }
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_pat_ident_mut(&mut self, p: &mut PatIdent) {
        if let Some(i) = self.idents.get(&p.ident.to_string()) {
            p.ident = i.clone();
        }
        visit_mut::visit_pat_ident_mut(self, p);
    }
    fn visit_field_value_mut(&mut self, f: &mut FieldValue) {
        if f.colon_token.is_none() {
            f.colon_token = Some(Default::default());
        }
        self.visit_expr_mut(&mut f.expr);
    }
    fn visit_path_mut(&mut self, p: &mut Path) {
        if let Some(t) = &self.self_ty {
            if p.segments.first().map(|s| s.ident == "Self").unwrap_or(false) {
                p.segments[0].ident = t.clone();
            }
        }
        visit_mut::visit_path_mut(self, p);
    }
    fn visit_item_mut(&mut self, _: &mut Item) {}
}

struct EraseLifetimes;
impl VisitMut for EraseLifetimes {
    fn visit_type_reference_mut(&mut self, t: &mut TypeReference) {
        t.lifetime = None;
        visit_mut::visit_type_reference_mut(self, t);
    }
}

fn is_simple(e: &Expr) -> bool {
    match e {
        Expr::Path(_) => true,
        Expr::Field(f) => is_simple(&f.base),
        Expr::Reference(r) => is_simple(&r.expr),
        Expr::Paren(p) => is_simple(&p.expr),
        Expr::Unary(u) => matches!(u.op, UnOp::Deref(_)) && is_simple(&u.expr),
        _ => false,
    }
}

struct Inliner<'a> {
    ctx: &'a mut Ctx,
    modpath: String,
    owner: String,
    depth: usize,
    inlined: Vec<String>,
}

impl<'a> Inliner<'a> {
    fn lookup_call(&self, p: &Path) -> Option<String> {
        let segs: Vec<String> = p.segments.iter().map(|s| s.ident.to_string()).collect();
        let h = &self.ctx.helpers.map;
        let mut cands = vec![];
        match segs.len() {
            1 => {
                cands.push(format!("{}::{}", self.modpath, segs[0]));
                // a helper beside the module, as `use super::*` makes visible
                if let Some((up, _)) = self.modpath.rsplit_once("::") {
                    cands.push(format!("{}::{}", up, segs[0]));
                }
            }
            _ => {
                let last2 = &segs[segs.len() - 2..];
                let o = if last2[0] == "Self" { self.owner.clone() } else { last2[0].clone() };
                cands.push(format!("{}::{}::{}", self.modpath, o, last2[1]));
                cands.push(format!("{}::{}::{}", self.ctx.krate, o, last2[1]));
                if last2[0] == "self" {
                    cands.push(format!("{}::{}", self.modpath, last2[1]));
                }
                if last2[0] == "super" {
                    if let Some((up, _)) = self.modpath.rsplit_once("::") {
                        cands.push(format!("{}::{}", up, last2[1]));
                    }
                }
            }
        }
        for c in cands {
            if h.contains_key(&c) {
                return Some(c);
            }
            if self.ctx.contracted.contains(&c) {
                return None;
            }
        }
        // imported from elsewhere: by its name, when that is unique
        let n = segs.last().unwrap();
        let suffix = if segs.len() == 1 { format!("::{}", n) } else { format!("::{}::{}", segs[segs.len() - 2], n) };
        if self.ctx.contracted.iter().any(|k| k.ends_with(&suffix)) {
            return None;
        }
        let m: Vec<&String> = h
            .iter()
            .filter(|(k, v)| k.ends_with(&suffix) && (segs.len() > 1 || v.owner.is_empty()))
            .map(|(k, _)| k)
            .collect();
        if m.len() == 1 {
            return Some(m[0].clone());
        }
        None
    }

    fn lookup_method(&self, name: &str) -> Option<String> {
        if self.ctx.helpers.contracted_names.contains(name) {
            return None;
        }
        let m: Vec<&String> = self
            .ctx
            .helpers
            .map
            .iter()
            .filter(|(_, v)| v.sig.ident == name && v.sig.receiver().is_some())
            .map(|(k, _)| k)
            .collect();
        if m.len() == 1 {
            Some(m[0].clone())
        } else {
            None
        }
    }

    fn expand(&mut self, id: &str, recv: Option<Expr>, args: Vec<Expr>) -> Option<Expr> {
        let h = self.ctx.helpers.map.get(id)?.clone();
        let conv = h.converted.clone()?;
        if !h.inlinable() {
            return None;
        }
        self.ctx.helpers.counter += 1;
        let k = self.ctx.helpers.counter;
        let mut lets: Vec<Stmt> = vec![];
        let mut map = BTreeMap::new();
        let mut idents = BTreeMap::new();
        let generics: BTreeSet<String> = h.sig.generics.type_params().map(|t| t.ident.to_string()).collect();
        let mut args = args.into_iter();
        let mut self_name = None;
        let self_ty = if h.owner.is_empty() { None } else { Some(Ident::new(&h.owner, proc_macro2::Span::call_site())) };
        for a in &h.sig.inputs {
            match a {
                FnArg::Receiver(r) => {
                    let v = match &recv {
                        Some(v) => v.clone(),
                        None => args.next()?,
                    };
                    if r.reference.is_some() && is_simple(&v) {
                        let v2 = match &v {
                            Expr::Reference(r) => (*r.expr).clone(),
                            v => v.clone(),
                        };
                        self_name = Some(if matches!(v2, Expr::Path(_)) { v2 } else { parse_quote!((#v2)) });
                    } else {
                        let nm = Ident::new(&format!("__h{}_self", k), proc_macro2::Span::call_site());
                        if r.reference.is_some() && r.mutability.is_some() {
                            lets.push(parse_quote!(let #nm = &mut (#v);));
                        } else if r.reference.is_some() {
                            lets.push(parse_quote!(let #nm = &(#v);));
                        } else {
                            lets.push(parse_quote!(let #nm = #v;));
                        }
                        self_name = Some(parse_quote!(#nm));
                    }
                }
                FnArg::Typed(t) => {
                    let v = args.next()?;
                    let (pname, pmut) = match &*t.pat {
                        Pat::Ident(i) => (i.ident.to_string(), i.mutability.is_some()),
                        _ => return None,
                    };
                    let is_mut_ref = matches!(&*t.ty, Type::Reference(r) if r.mutability.is_some());
                    if is_mut_ref && is_simple(&v) {
                        let v2: Expr = if matches!(v, Expr::Path(_)) { v } else { parse_quote!((#v)) };
                        map.insert(pname, v2);
                        continue;
                    }
                    let nm = Ident::new(&format!("__h{}_{}", k, pname), proc_macro2::Span::call_site());
                    let mut ty = (*t.ty).clone();
                    EraseLifetimes.visit_type_mut(&mut ty);
                    if let Some(st) = &self_ty {
                        let e = BTreeMap::new();
                        let e2 = BTreeMap::new();
                        Rename { map: &e, idents: &e2, self_name: None, self_ty: Some(st.clone()) }.visit_type_mut(&mut ty);
                    }
                    let tt = txt(&ty);
                    let generic = tt.contains("impl ") || tt.split(|c: char| !c.is_alphanumeric() && c != '_').any(|w| generics.contains(w));
                    let m: Option<Token![mut]> = if pmut { Some(Default::default()) } else { None };
                    if generic {
                        lets.push(parse_quote!(let #m #nm = #v;));
                    } else {
                        lets.push(parse_quote!(let #m #nm: #ty = #v;));
                    }
                    idents.insert(pname, nm);
                }
            }
        }
        let mut body = conv;
        Rename { map: &map, idents: &idents, self_name, self_ty: self_ty.clone() }.visit_block_mut(&mut body);
        // helpers of helpers
        if self.depth < 6 {
            let (m0, o0) = (self.modpath.clone(), self.owner.clone());
            self.modpath = h.modpath.clone();
            self.owner = h.owner.clone();
            self.depth += 1;
            self.visit_block_mut(&mut body);
            self.depth -= 1;
            self.modpath = m0;
            self.owner = o0;
        } else {
            return None;
        }
        self.inlined.push(id.to_string());
        let stmts = &body.stmts;
        let foreign: Vec<Stmt> = if h.modpath != self.modpath && !self.modpath.starts_with(&format!("{}::", h.modpath)) {
            let mp: Path = parse_str(&format!("crate::{}", h.modpath)).ok()?;
            vec![parse_quote!(use #mp::*;)]
        } else {
            vec![]
        };
        let rt = match &h.sig.output {
            ReturnType::Default => None,
            ReturnType::Type(_, t) => {
                let mut ty = (**t).clone();
                EraseLifetimes.visit_type_mut(&mut ty);
                if let Some(st) = &self_ty {
                    let e = BTreeMap::new();
                    let e2 = BTreeMap::new();
                    Rename { map: &e, idents: &e2, self_name: None, self_ty: Some(st.clone()) }.visit_type_mut(&mut ty);
                }
                let tt = txt(&ty);
                let generic = tt.contains('\'') || tt.split(|c: char| !c.is_alphanumeric() && c != '_').any(|w| generics.contains(w));
                if generic || matches!(ty, Type::Never(_)) { None } else { Some(ty) }
            }
        };
        Some(match rt {
            Some(ty) => {
                let nm = Ident::new(&format!("__h{}_ret", k), proc_macro2::Span::call_site());
                parse_quote!({ #(#foreign)* #(#lets)* let #nm: #ty = { #(#stmts)* }; #nm })
            }
            None => parse_quote!({ #(#foreign)* #(#lets)* #(#stmts)* }),
        })
    }
}

impl<'a> VisitMut for Inliner<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        let new = match e {
            Expr::Call(c) => match &*c.func {
                Expr::Path(p) if p.qself.is_none() => {
                    self.lookup_call(&p.path).and_then(|id| self.expand(&id, None, c.args.iter().cloned().collect()))
                }
                _ => None,
            },
            Expr::MethodCall(m) => self
                .lookup_method(&m.method.to_string())
                .and_then(|id| self.expand(&id, Some((*m.receiver).clone()), m.args.iter().cloned().collect())),
            _ => None,
        };
        if let Some(n) = new {
            *e = n;
        }
    }
    fn visit_item_mut(&mut self, _: &mut Item) {}
}

pub fn inline_calls(ctx: &mut Ctx, modpath: &str, owner: &str, block: &mut Block, inlined: &mut Vec<String>, _notes: &mut Vec<String>) {
    let mut i = Inliner { ctx, modpath: modpath.into(), owner: owner.into(), depth: 0, inlined: vec![] };
    i.visit_block_mut(block);
    inlined.extend(i.inlined);
}
