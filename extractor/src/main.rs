//! Mechanical extraction of /repo's source text into a form Verus accepts.
//!
//! Usage: extractor REPO CONTRACTED_IDS OUT.json
//!
//! What is rewritten, and what is dropped, is described in /verif/DESIGN.md ("Extraction").  Nothing in here knows
//! about a particular property; every function of the two crates goes through the same rewriting rules.
mod expand;
mod inline;
mod norm;

use proc_macro2::TokenStream;
use quote::{quote, ToTokens};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use syn::*;

pub struct Ctx {
    pub krate: String,
    pub modules: BTreeSet<String>,
    pub int_consts: BTreeSet<String>,
    pub contracted: BTreeSet<String>,
    pub lits: BTreeMap<Vec<u8>, usize>,
    pub dropped: Vec<String>,
    pub helpers: inline::Helpers,
}

fn cfg_true(m: &Meta) -> bool {
    match m {
        Meta::Path(p) => p.is_ident("debug_assertions"),
        Meta::NameValue(nv) => {
            if !nv.path.is_ident("feature") {
                return false;
            }
            if let Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) = &nv.value {
                matches!(s.value().as_str(), "std" | "u64_backend" | "default")
            } else {
                false
            }
        }
        Meta::List(l) => {
            let inner: Vec<Meta> = l
                .parse_args_with(punctuated::Punctuated::<Meta, Token![,]>::parse_terminated)
                .map(|p| p.into_iter().collect())
                .unwrap_or_default();
            if l.path.is_ident("not") {
                !inner.iter().all(cfg_true)
            } else if l.path.is_ident("all") {
                inner.iter().all(cfg_true)
            } else if l.path.is_ident("any") {
                inner.iter().any(cfg_true)
            } else {
                false
            }
        }
    }
}

pub fn cfg_on(attrs: &[Attribute]) -> bool {
    attrs.iter().all(|a| {
        if a.path().is_ident("cfg") {
            a.parse_args::<Meta>().map(|m| cfg_true(&m)).unwrap_or(true)
        } else {
            true
        }
    })
}

pub fn derives(attrs: &[Attribute]) -> Vec<String> {
    let mut r = vec![];
    for a in attrs {
        if a.path().is_ident("derive") {
            if let Ok(l) = a.parse_args_with(punctuated::Punctuated::<Path, Token![,]>::parse_terminated) {
                for p in l {
                    r.push(p.segments.last().unwrap().ident.to_string());
                }
            }
        }
    }
    r
}

pub fn txt<T: ToTokens>(t: &T) -> String {
    t.to_token_stream().to_string()
}

/// Text with all white space and lifetimes dropped: used in the ids of functions.
fn squash(s: &str) -> String {
    let mut out = String::new();
    let b: Vec<char> = s.chars().collect();
    let mut i = 0;
    while i < b.len() {
        if b[i] == '\'' {
            i += 1;
            while i < b.len() && (b[i].is_alphanumeric() || b[i] == '_') {
                i += 1;
            }
            // a lifetime followed by a comma in a list
            while i < b.len() && b[i] == ' ' {
                i += 1;
            }
            if i < b.len() && b[i] == ',' {
                i += 1;
            }
            continue;
        }
        if !b[i].is_whitespace() {
            out.push(b[i]);
        }
        i += 1;
    }
    out.replace("<>", "")
}

fn rewrite_use(tree: &UseTree, ctx: &Ctx) -> Option<String> {
    fn go(t: &UseTree) -> String {
        match t {
            UseTree::Path(p) => format!("{}::{}", p.ident, go(&p.tree)),
            UseTree::Name(n) => n.ident.to_string(),
            UseTree::Rename(r) => format!("{} as {}", r.ident, r.rename),
            UseTree::Glob(_) => "*".into(),
            UseTree::Group(g) => format!("{{{}}}", g.items.iter().map(go).collect::<Vec<_>>().join(", ")),
        }
    }
    let s = go(tree);
    let first = s.split(|c: char| !(c.is_alphanumeric() || c == '_')).next().unwrap_or("").to_string();
    Some(match first.as_str() {
        "std" | "core" | "alloc" => {
            if s.contains("NoneError") {
                "crate::ext::NoneError".into()
            } else if s.contains("::fmt") || s.contains("::iter") {
                return None;
            } else if ctx.krate == "ffi" && (s.contains("::ptr") || s.contains("::slice") || s.contains("::boxed")) {
                // memory shared with C
                format!("crate::ext::mem{}", &s[first.len()..])
            } else {
                s.replacen("alloc::", "std::", 1)
            }
        }
        "serde_derive" | "failure" => return None,
        "super" | "self" => s,
        "crate" => s.replacen("crate", &format!("crate::{}", ctx.krate), 1),
        "aeonflux" | "signal_credential" => format!("crate::{}", s),
        f if ctx.modules.contains(f) => format!("crate::{}::{}", ctx.krate, s),
        _ => format!("crate::ext::{}", s),
    })
}

/// Paths from the root of a crate, `::errors::f` and `crate::errors::f`, to where they are in the one file the verifier is
/// given. Items of `use` are `rewrite_use`'s.
struct Roots<'a> {
    krate: &'a str,
    modules: &'a BTreeSet<String>,
}

impl<'a> Roots<'a> {
    fn path(&self, p: &mut Path) {
        let first = p.segments[0].ident.to_string();
        let sp = p.segments[0].ident.span();
        let mut pre: Vec<&str> = vec![];
        if p.leading_colon.is_some() {
            if matches!(first.as_str(), "std" | "core" | "alloc") {
                return;
            }
            pre.push("crate");
            if self.modules.contains(&first) {
                pre.push(self.krate);
            } else if first != "aeonflux" && first != "signal_credential" {
                pre.push("ext");
            }
        } else if first == "crate" {
            pre.extend(["crate", self.krate]);
        } else {
            return;
        }
        let rest = p.segments.iter().skip((first == "crate") as usize).cloned().collect::<Vec<_>>();
        p.leading_colon = None;
        p.segments = pre.iter().map(|s| PathSegment::from(Ident::new(s, sp))).chain(rest).collect();
    }
}

impl<'a> syn::visit_mut::VisitMut for Roots<'a> {
    fn visit_attribute_mut(&mut self, _: &mut Attribute) {}
    fn visit_item_use_mut(&mut self, _: &mut ItemUse) {}
    fn visit_vis_restricted_mut(&mut self, _: &mut VisRestricted) {}
    fn visit_macro_mut(&mut self, _: &mut Macro) {}
    fn visit_path_mut(&mut self, p: &mut Path) {
        syn::visit_mut::visit_path_mut(self, p);
        self.path(p);
    }
}

/// The constants that name a string of bytes, which are put where they are used.
struct Named(BTreeMap<String, Option<ExprLit>>);

impl Named {
    fn collect(&mut self, items: &[Item]) {
        for it in items {
            match it {
                Item::Const(ItemConst { ident, expr, .. }) | Item::Static(ItemStatic { ident, expr, .. }) => {
                    let v = match &**expr {
                        Expr::Lit(l) if matches!(l.lit, Lit::ByteStr(_) | Lit::Str(_)) => Some(l.clone()),
                        _ => None,
                    };
                    // a name that stands for two things is left alone
                    self.0.entry(ident.to_string()).and_modify(|x| *x = None).or_insert(v);
                }
                Item::Mod(m) => {
                    if let Some((_, its)) = &m.content {
                        self.collect(its);
                    }
                }
                _ => {}
            }
        }
    }
    fn is(&self, i: &Ident) -> bool {
        self.0.get(&i.to_string()).map_or(false, |x| x.is_some())
    }
}

impl syn::visit_mut::VisitMut for Named {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        syn::visit_mut::visit_expr_mut(self, e);
        if let Expr::Path(p) = e {
            if let Some(Some(l)) = self.0.get(&p.path.segments.last().unwrap().ident.to_string()) {
                *e = Expr::Lit(l.clone());
            }
        }
    }
    /// Nothing is left of the constant itself but its name, which a `use` may mention.
    fn visit_item_mut(&mut self, i: &mut Item) {
        match i {
            Item::Const(ItemConst { ident, ty, expr, .. }) | Item::Static(ItemStatic { ident, ty, expr, .. }) if self.is(ident) => {
                *ty = parse_quote!(());
                *expr = parse_quote!(());
            }
            _ => syn::visit_mut::visit_item_mut(self, i),
        }
    }
}

fn impl_text(t: &Type) -> String {
    squash(&txt(t))
}

fn fn_json(
    ctx: &mut Ctx,
    modpath: &str,
    owner: &str,
    sig: &Signature,
    block: &Block,
    file: &str,
    self_ty: Option<&Type>,
    in_trait: bool,
) -> Value {
    let name = sig.ident.to_string();
    let id = if owner.is_empty() { format!("{}::{}", modpath, name) } else { format!("{}::{}::{}", modpath, owner, name) };
    let mut block = block.clone();
    let orig = txt(&block);
    let line = sig.ident.span().start().line;
    let mut notes: Vec<String> = vec![];
    let mut inlined: Vec<String> = vec![];
    norm::strip_cfg(&mut block, &mut notes);
    inline::inline_calls(ctx, modpath, owner, &mut block, &mut inlined, &mut notes);
    let mut n = norm::Norm::new(ctx, in_trait);
    n.run(sig, &mut block);
    let loops = n.loops_json();
    notes.extend(n.notes.drain(..));
    let mut params = vec![];
    let mut self_kind = Value::Null;
    for a in &sig.inputs {
        match a {
            FnArg::Receiver(r) => {
                let mut s = String::new();
                if r.reference.is_some() {
                    s.push('&');
                    if r.mutability.is_some() {
                        s.push_str("mut ");
                    }
                } else if r.mutability.is_some() {
                    s.push_str("mut ");
                }
                s.push_str("self");
                self_kind = json!(s);
            }
            FnArg::Typed(t) => {
                let (nm, m) = match &*t.pat {
                    Pat::Ident(i) => (i.ident.to_string(), i.mutability.is_some()),
                    p => (txt(p), false),
                };
                params.push(json!({"name": nm, "mut": m, "ty": txt(&t.ty)}));
            }
        }
    }
    let ret = match &sig.output {
        ReturnType::Default => Value::Null,
        ReturnType::Type(_, t) => json!(txt(t)),
    };
    let body = txt(&block);
    json!({
        "kind": "fn", "id": id, "name": name, "file": file, "line": line,
        "generics": txt(&sig.generics),
        "where": sig.generics.where_clause.as_ref().map(|w| txt(w)).unwrap_or_default(),
        "self": self_kind, "params": params, "ret": ret, "body": body, "orig": orig,
        "loops": loops, "notes": notes, "inlined": inlined, "closures": norm::closures(&block),
        "self_ty": self_ty.map(|t| txt(t)),
    })
}

fn fields_json(f: &Fields) -> Value {
    if matches!(f, Fields::Unit) {
        return Value::Null;
    }
    let mut v = vec![];
    for (i, x) in f.iter().enumerate() {
        let n = x.ident.as_ref().map(|i| i.to_string()).unwrap_or_else(|| i.to_string());
        v.push(json!({"name": n, "ty": txt(&x.ty)}));
    }
    json!({"named": matches!(f, Fields::Named(_)), "list": v})
}

fn items_json(ctx: &mut Ctx, modpath: &str, items: &[Item], file: &str) -> Vec<Value> {
    let mut out = vec![];
    for it in items {
        match it {
            Item::Use(u) if cfg_on(&u.attrs) => {
                if let Some(s) = rewrite_use(&u.tree, ctx) {
                    out.push(json!({"kind": "use", "text": s, "pub": matches!(u.vis, Visibility::Public(_))}));
                }
            }
            Item::Const(c) if cfg_on(&c.attrs) => {
                out.push(json!({"kind": "const", "name": c.ident.to_string(), "ty": txt(&c.ty), "expr": txt(&c.expr)}));
            }
            Item::Type(t) if cfg_on(&t.attrs) => {
                out.push(json!({"kind": "type", "name": t.ident.to_string(), "generics": txt(&t.generics), "ty": txt(&t.ty)}));
            }
            Item::Struct(s) if cfg_on(&s.attrs) => {
                out.push(json!({"kind": "struct", "name": s.ident.to_string(), "generics": txt(&s.generics),
                    "fields": fields_json(&s.fields), "derives": derives(&s.attrs), "path": format!("{}::{}", modpath, s.ident)}));
            }
            Item::Enum(e) if cfg_on(&e.attrs) => {
                let mut e2 = e.clone();
                e2.attrs.clear();
                for v in e2.variants.iter_mut() {
                    v.attrs.clear();
                }
                out.push(json!({"kind": "enum", "name": e.ident.to_string(),
                    "body": txt(&e2.variants), "derives": derives(&e.attrs), "path": format!("{}::{}", modpath, e.ident)}));
            }
            Item::Fn(f) if cfg_on(&f.attrs) => {
                let id = format!("{}::{}", modpath, f.sig.ident);
                if ctx.contracted.contains(&id) || !ctx.helpers.all_inlined(&id) {
                    out.push(fn_json(ctx, modpath, "", &f.sig, &f.block, file, None, false));
                }
            }
            Item::Impl(im) if cfg_on(&im.attrs) => {
                let self_s = impl_text(&im.self_ty);
                let (tr, owner, tr_txt) = match &im.trait_ {
                    Some((_, p, _)) => {
                        let ps = squash(&txt(p));
                        (p.segments.last().unwrap().ident.to_string(), format!("<{}for {}>", ps.clone() + " ", self_s), txt(p))
                    }
                    None => (String::new(), self_s.clone(), String::new()),
                };
                if matches!(tr.as_str(), "Display" | "Fail" | "Debug") {
                    ctx.dropped.push(format!("{}::{} (formatting and error glue)", modpath, owner));
                    continue;
                }
                let mut fns = vec![];
                let mut assoc = vec![];
                for x in &im.items {
                    match x {
                        ImplItem::Fn(f) if cfg_on(&f.attrs) => {
                            let id = format!("{}::{}::{}", modpath, owner, f.sig.ident);
                            // what a visitor says it expects, in the text of an error
                            if tr == "Visitor" && f.sig.ident == "expecting" {
                                ctx.dropped.push(format!("{} (formatting)", id));
                                continue;
                            }
                            if ctx.contracted.contains(&id) || !tr.is_empty() || !ctx.helpers.all_inlined(&id) {
                                fns.push(fn_json(ctx, modpath, &owner, &f.sig, &f.block, file, Some(&im.self_ty), !tr.is_empty()));
                            }
                        }
                        ImplItem::Type(t) => assoc.push(json!({"name": t.ident.to_string(), "ty": txt(&t.ty)})),
                        ImplItem::Const(c) => assoc.push(json!({"const": c.ident.to_string(), "ty": txt(&c.ty), "expr": txt(&c.expr)})),
                        _ => {}
                    }
                }
                let targs = im.trait_.as_ref().map(|(_, p, _)| match &p.segments.last().unwrap().arguments {
                    PathArguments::AngleBracketed(a) => txt(&a.args),
                    _ => String::new(),
                }).unwrap_or_default();
                out.push(json!({"kind": "impl", "trait": tr, "trait_txt": tr_txt, "trait_args": targs, "owner": owner,
                    "generics": txt(&im.generics), "where": im.generics.where_clause.as_ref().map(|w| txt(w)).unwrap_or_default(),
                    "self_ty": txt(&im.self_ty), "fns": fns, "assoc": assoc, "path": modpath}));
            }
            Item::Mod(m) if cfg_on(&m.attrs) => {
                if let Some((_, its)) = &m.content {
                    let p = format!("{}::{}", modpath, m.ident);
                    let sub = items_json(ctx, &p, its, file);
                    out.push(json!({"kind": "mod", "name": m.ident.to_string(), "items": sub}));
                }
            }
            Item::Macro(m) => {
                let nm = m.mac.path.segments.last().unwrap().ident.to_string();
                ctx.dropped.push(format!("{}: macro {}!({})", modpath, nm, txt(&m.mac.tokens).chars().take(40).collect::<String>()));
            }
            Item::Static(s) if cfg_on(&s.attrs) => {
                out.push(json!({"kind": "const", "name": s.ident.to_string(), "ty": txt(&s.ty), "expr": txt(&s.expr)}));
            }
            Item::Trait(t) if cfg_on(&t.attrs) => {
                ctx.dropped.push(format!("{}::trait {}", modpath, t.ident));
            }
            _ => {}
        }
    }
    out
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let repo = &a[1];
    let contracted: BTreeSet<String> =
        std::fs::read_to_string(&a[2]).unwrap_or_default().lines().map(|l| l.trim().to_string()).filter(|l| !l.is_empty()).collect();
    let mut out = vec![];
    let mut lits = BTreeMap::new();
    let mut dropped = vec![];
    // constants of every crate, since they are used across crates
    let mut parsed: Vec<(String, Vec<(String, String, File)>, File, BTreeSet<String>)> = vec![];
    let mut int_consts = BTreeSet::new();
    for (krate, dir) in [("aeonflux", "aeonflux/src"), ("signal_credential", "signal-credential/src"), ("ffi", "ffi/src"), ("wasm", "wasm/src")] {
        let lib = parse_file(&std::fs::read_to_string(format!("{}/{}/lib.rs", repo, dir)).expect("lib.rs")).expect("parse lib.rs");
        let mut mods = vec![];
        let mut names = BTreeSet::new();
        for it in &lib.items {
            if let Item::Mod(m) = it {
                if !cfg_on(&m.attrs) {
                    continue;
                }
                names.insert(m.ident.to_string());
                if m.content.is_none() {
                    let p = [format!("{}/{}.rs", dir, m.ident), format!("{}/{}/mod.rs", dir, m.ident)]
                        .into_iter()
                        .find(|p| std::path::Path::new(&format!("{}/{}", repo, p)).exists());
                    let p = match p {
                        Some(p) => p,
                        None => continue,
                    };
                    let src = std::fs::read_to_string(format!("{}/{}", repo, p)).unwrap();
                    match parse_file(&src) {
                        Ok(f) => mods.push((m.ident.to_string(), p, f)),
                        Err(e) => {
                            eprintln!("cannot parse {}: {}", p, e);
                            std::process::exit(3);
                        }
                    }
                }
            }
        }
        for (_, _, f) in &mods {
            for it in &f.items {
                if let Item::Const(c) = it {
                    if matches!(txt(&c.ty).as_str(), "usize" | "u8" | "u16" | "u32" | "u64" | "i32" | "i64") {
                        int_consts.insert(c.ident.to_string());
                    }
                }
            }
        }
        parsed.push((krate.to_string(), mods, lib, names));
    }
    // what the repository's own macros expand to is checked, not the macros
    let mut all = expand::Rules::new();
    let mut own: Vec<expand::Rules> = vec![];
    for (_, mods, lib, _) in &parsed {
        let mut r = expand::Rules::new();
        expand::rules(&lib.items, &mut r);
        for (_, _, f) in mods {
            expand::rules(&f.items, &mut r);
        }
        for (k, v) in &r {
            all.insert(k.clone(), v.clone());
        }
        own.push(r);
    }
    let mut expanded = vec![];
    for ((_, mods, lib, _), r) in parsed.iter_mut().zip(own.into_iter()) {
        // a crate's own macros come before those of the others
        let mut rules = all.clone();
        rules.extend(r);
        lib.items = expand::expand(&lib.items, &rules, &mut expanded);
        for (_, _, f) in mods.iter_mut() {
            f.items = expand::expand(&f.items, &rules, &mut expanded);
            for it in f.items.iter_mut() {
                // an expansion in one function does not number those in another
                let mut x = expand::InBodies { rules: &rules, n: 0, depth: 0, expanded: vec![] };
                syn::visit_mut::VisitMut::visit_item_mut(&mut x, it);
            }
        }
    }
    let mut named = Named(BTreeMap::new());
    for (_, mods, lib, _) in &parsed {
        for f in mods.iter().map(|(_, _, f)| f).chain(std::iter::once(lib)) {
            named.collect(&f.items);
        }
    }
    for (krate, mut mods, mut lib, names) in parsed {
        let mut roots = Roots { krate: &krate, modules: &names };
        for f in mods.iter_mut().map(|(_, _, f)| f).chain(std::iter::once(&mut lib)) {
            syn::visit_mut::VisitMut::visit_file_mut(&mut roots, f);
            syn::visit_mut::VisitMut::visit_file_mut(&mut named, f);
        }
        let mut ctx = Ctx {
            krate: krate.clone(),
            modules: names.clone(),
            int_consts: int_consts.clone(),
            contracted: contracted.clone(),
            lits: std::mem::take(&mut lits),
            dropped: vec![],
            helpers: Default::default(),
        };
        for (m, _, f) in &mods {
            ctx.helpers.collect(&format!("{}::{}", krate, m), &f.items, &contracted);
        }
        let mut ms = vec![];
        for (m, p, f) in &mods {
            if m == "macros" {
                continue;
            }
            let modpath = format!("{}::{}", krate, m);
            let items = items_json(&mut ctx, &modpath, &f.items, p);
            ms.push(json!({"name": m, "file": p, "items": items}));
        }
        let root: Vec<Item> = lib.items.iter().filter(|i| !matches!(i, Item::Mod(m) if m.content.is_none())).cloned().collect();
        let root_items = items_json(&mut ctx, &krate, &root, "lib.rs");
        out.push(json!({"name": krate, "modules": ms, "root": root_items}));
        lits = ctx.lits;
        dropped.extend(ctx.dropped);
    }
    let mut lit_list: Vec<(usize, String, Vec<u8>)> =
        lits.iter().map(|(k, v)| (*v, String::from_utf8_lossy(k).to_string(), k.clone())).collect();
    lit_list.sort();
    let v = json!({"crates": out, "dropped": dropped,
        "lits": lit_list.iter().map(|(i, s, b)| json!({"id": i, "text": s, "bytes": b})).collect::<Vec<_>>()});
    std::fs::write(&a[3], serde_json::to_string(&v).unwrap()).unwrap();
    let _: TokenStream = quote!();
}
