//! Expansion of the repository's own `macro_rules!` which make items, and hoisting of items nested in functions.
use crate::cfg_on;
use proc_macro2::{Delimiter, Group, TokenStream, TokenTree};
use std::collections::BTreeMap;
use syn::visit_mut::VisitMut;
use syn::*;

pub type Rules = BTreeMap<String, Vec<(Vec<TokenTree>, TokenStream)>>;

/// Every `macro_rules!` among the items.
pub fn rules(items: &[Item], out: &mut Rules) {
    for it in items {
        match it {
            Item::Macro(m) if m.mac.path.is_ident("macro_rules") => {
                if let Some(n) = &m.ident {
                    let ts: Vec<TokenTree> = m.mac.tokens.clone().into_iter().collect();
                    let mut arms = vec![];
                    let mut i = 0;
                    // ( pattern ) => { body } ;
                    while i + 3 < ts.len() {
                        match (&ts[i], &ts[i + 3]) {
                            (TokenTree::Group(p), TokenTree::Group(b)) => arms.push((p.stream().into_iter().collect(), b.stream())),
                            _ => break,
                        }
                        i += 4;
                        if let Some(TokenTree::Punct(p)) = ts.get(i) {
                            if p.as_char() == ';' {
                                i += 1;
                            }
                        }
                    }
                    out.insert(n.to_string(), arms);
                }
            }
            _ => {}
        }
    }
}

/// Binds `$name:frag` of a pattern without repetitions to the tokens given, up to the token which follows in the pattern.
fn bind(pat: &[TokenTree], args: &[TokenTree]) -> Option<BTreeMap<String, TokenStream>> {
    let mut out = BTreeMap::new();
    let (mut i, mut j) = (0, 0);
    while i < pat.len() {
        if let (TokenTree::Punct(d), Some(TokenTree::Ident(n)), Some(TokenTree::Punct(c)), Some(TokenTree::Ident(frag))) =
            (&pat[i], pat.get(i + 1), pat.get(i + 2), pat.get(i + 3))
        {
            if d.as_char() == '$' && c.as_char() == ':' {
                i += 4;
                let stop = pat.get(i).map(|t| t.to_string());
                let mut got = vec![];
                while j < args.len() && Some(args[j].to_string()) != stop {
                    got.push(args[j].clone());
                    j += 1;
                }
                if got.is_empty() || (frag == "tt" && got.len() != 1) || (frag == "ident" && !matches!(&got[..], [TokenTree::Ident(_)])) {
                    return None;
                }
                let ts: TokenStream = got.iter().cloned().collect();
                let ts = if frag == "expr" && got.len() > 1 && parse2::<Expr>(ts.clone()).is_ok() {
                    TokenStream::from(TokenTree::Group(Group::new(Delimiter::Parenthesis, ts)))
                } else {
                    ts
                };
                out.insert(n.to_string(), ts);
                continue;
            }
        }
        if let TokenTree::Punct(d) = &pat[i] {
            // repetitions
            if d.as_char() == '$' {
                return None;
            }
        }
        if j >= args.len() || args[j].to_string() != pat[i].to_string() {
            // a trailing comma may be there or not
            return None;
        }
        i += 1;
        j += 1;
    }
    if j < args.len() && !(j + 1 == args.len() && args[j].to_string() == ",") {
        return None;
    }
    Some(out)
}

fn subst(ts: TokenStream, map: &BTreeMap<String, TokenStream>) -> TokenStream {
    let v: Vec<TokenTree> = ts.into_iter().collect();
    let mut out: Vec<TokenTree> = vec![];
    let mut i = 0;
    while i < v.len() {
        if let (TokenTree::Punct(p), Some(TokenTree::Ident(n))) = (&v[i], v.get(i + 1)) {
            if p.as_char() == '$' {
                if let Some(t) = map.get(&n.to_string()) {
                    out.extend(t.clone());
                    i += 2;
                    continue;
                }
                if n == "crate" {
                    out.push(TokenTree::Ident(n.clone()));
                    i += 2;
                    continue;
                }
            }
        }
        match &v[i] {
            TokenTree::Group(g) => {
                let inner = subst(g.stream(), map);
                // a substituted fragment keeps to itself, as in the compiler
                let mut g2 = Group::new(if g.delimiter() == Delimiter::None { Delimiter::None } else { g.delimiter() }, inner);
                g2.set_span(g.span());
                out.push(TokenTree::Group(g2));
            }
            t => out.push(t.clone()),
        }
        i += 1;
    }
    out.into_iter().collect()
}

/// The items, with every invocation of a known rule replaced by what it expands to.
pub fn expand(items: &[Item], rules: &Rules, expanded: &mut Vec<String>) -> Vec<Item> {
    let mut out = vec![];
    for it in items {
        match it {
            Item::Macro(m) if cfg_on(&m.attrs) && !m.mac.path.is_ident("macro_rules") => {
                let n = m.mac.path.segments.last().unwrap().ident.to_string();
                let args: Vec<TokenTree> = m.mac.tokens.clone().into_iter().collect();
                if n == "cfg_if" {
                    if let Some(f) = cfg_if(&args) {
                        expanded.push(n);
                        out.extend(expand(&f.items, rules, expanded));
                        continue;
                    }
                }
                let got = rules.get(&n).and_then(|arms| {
                    arms.iter().find_map(|(p, b)| bind(p, &args).map(|map| subst(b.clone(), &map))).and_then(|ts| parse2::<File>(ts).ok())
                });
                match got {
                    Some(f) => {
                        expanded.push(n);
                        for i in f.items {
                            hoist(i, &mut out);
                        }
                    }
                    None => out.push(it.clone()),
                }
            }
            Item::Mod(m) => {
                let mut m2 = m.clone();
                if let Some((b, its)) = &m.content {
                    m2.content = Some((*b, expand(its, rules, expanded)));
                }
                out.push(Item::Mod(m2));
            }
            Item::Impl(_) => hoist(it.clone(), &mut out),
            _ => out.push(it.clone()),
        }
    }
    out
}

struct RenameType<'a>(&'a BTreeMap<String, String>);
impl<'a> VisitMut for RenameType<'a> {
    fn visit_ident_mut(&mut self, i: &mut Ident) {
        if let Some(n) = self.0.get(&i.to_string()) {
            *i = Ident::new(n, i.span());
        }
    }
}

/// Structures and implementations nested in the functions of an implementation go beside it, the structures under
/// names of their own: `Local0__T` is the first of those in the implementations of `T`.
fn hoist(it: Item, out: &mut Vec<Item>) {
    let mut im = match it {
        Item::Impl(im) => im,
        it => {
            out.push(it);
            return;
        }
    };
    let owner: String = match &*im.self_ty {
        Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(),
        _ => {
            out.push(Item::Impl(im));
            return;
        }
    };
    let mut names = BTreeMap::new();
    let mut nested: Vec<Item> = vec![];
    for x in im.items.iter_mut() {
        if let ImplItem::Fn(f) = x {
            let mut keep = vec![];
            for s in f.block.stmts.drain(..) {
                match s {
                    Stmt::Item(Item::Struct(st)) => {
                        names.insert(st.ident.to_string(), format!("Local{}__{}", names.len(), owner));
                        nested.push(Item::Struct(st));
                    }
                    Stmt::Item(Item::Impl(i)) => nested.push(Item::Impl(i)),
                    s => keep.push(s),
                }
            }
            f.block.stmts = keep;
        }
    }
    let mut r = RenameType(&names);
    for n in nested.iter_mut() {
        r.visit_item_mut(n);
    }
    if !names.is_empty() {
        r.visit_item_impl_mut(&mut im);
    }
    out.extend(nested);
    out.push(Item::Impl(im));
}

/// The branch of `cfg_if! { if #[cfg(..)] { .. } else if .. else { .. } }` which is compiled.
fn cfg_if(ts: &[TokenTree]) -> Option<File> {
    let mut i = 0;
    while i < ts.len() {
        match &ts[i] {
            TokenTree::Ident(w) if w == "else" => i += 1,
            TokenTree::Ident(w) if w == "if" => {
                let attr: TokenStream = ts.get(i + 1..i + 3)?.iter().cloned().collect();
                let a = parse::Parser::parse2(Attribute::parse_outer, attr).ok()?;
                if let TokenTree::Group(g) = ts.get(i + 3)? {
                    if cfg_on(&a) {
                        return parse2(g.stream()).ok();
                    }
                }
                i += 4;
            }
            TokenTree::Group(g) => return parse2(g.stream()).ok(),
            _ => return None,
        }
    }
    parse2(TokenStream::new()).ok()
}

/// The variables a macro's own text binds get names of their own in every expansion, as they do in the compiler.
fn fresh(ts: TokenStream, n: usize) -> TokenStream {
    fn find(ts: TokenStream, out: &mut Vec<String>) {
        let v: Vec<TokenTree> = ts.into_iter().collect();
        for (i, t) in v.iter().enumerate() {
            match t {
                TokenTree::Group(g) => {
                    // `Some(x) =>`
                    if let (Some(TokenTree::Punct(a)), Some(TokenTree::Punct(b))) = (v.get(i + 1), v.get(i + 2)) {
                        if a.as_char() == '=' && b.as_char() == '>' {
                            let mut prev = String::new();
                            for x in g.stream() {
                                if let TokenTree::Ident(n) = &x {
                                    let s = n.to_string();
                                    if prev != "$" && s != "_" && s != "ref" && s != "mut" && s.starts_with(|c: char| c.is_lowercase() || c == '_') {
                                        out.push(s);
                                    }
                                }
                                prev = x.to_string();
                            }
                        }
                    }
                    find(g.stream(), out);
                }
                TokenTree::Ident(w) if w == "let" => {
                    let mut k = i + 1;
                    if matches!(v.get(k), Some(TokenTree::Ident(m)) if m == "mut") {
                        k += 1;
                    }
                    if let Some(TokenTree::Ident(n)) = v.get(k) {
                        out.push(n.to_string());
                    }
                }
                _ => {}
            }
        }
    }
    fn ren(ts: TokenStream, names: &[String], n: usize) -> TokenStream {
        let mut prev = String::new();
        ts.into_iter()
            .map(|t| {
                let r = match &t {
                    TokenTree::Group(g) => {
                        let mut g2 = Group::new(g.delimiter(), ren(g.stream(), names, n));
                        g2.set_span(g.span());
                        TokenTree::Group(g2)
                    }
                    TokenTree::Ident(i) if prev != "$" && prev != "." && names.contains(&i.to_string()) => {
                        TokenTree::Ident(Ident::new(&format!("{}__{}", i, n), i.span()))
                    }
                    t => t.clone(),
                };
                prev = t.to_string();
                r
            })
            .collect()
    }
    let mut names = vec![];
    find(ts.clone(), &mut names);
    ren(ts, &names, n)
}

/// Expands the repository's macros where they stand for expressions and statements.
pub struct InBodies<'a> {
    pub rules: &'a Rules,
    pub n: usize,
    pub depth: usize,
    pub expanded: Vec<String>,
}
impl<'a> InBodies<'a> {
    fn get(&mut self, m: &Macro) -> Option<Expr> {
        if self.depth > 32 {
            return None;
        }
        let name = m.path.segments.last()?.ident.to_string();
        let args: Vec<TokenTree> = m.tokens.clone().into_iter().collect();
        let arms = self.rules.get(&name)?;
        let n = self.n;
        let got = arms.iter().find_map(|(p, b)| bind(p, &args).map(|map| subst(fresh(b.clone(), n), &map)))?;
        self.n += 1;
        let e = match parse2::<Expr>(got.clone()) {
            Ok(e) => e,
            Err(_) => {
                // statements, the last of which may be a value
                let b: Block = parse2(TokenStream::from(TokenTree::Group(Group::new(Delimiter::Brace, got)))).ok()?;
                match &b.stmts[..] {
                    // `match x { .. };` stands for the match where a value is asked for
                    [Stmt::Expr(e, _)] => e.clone(),
                    _ => Expr::Block(ExprBlock { attrs: vec![], label: None, block: b }),
                }
            }
        };
        self.expanded.push(name);
        Some(e)
    }
}
impl<'a> VisitMut for InBodies<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Macro(m) = e {
            if let Some(x) = self.get(&m.mac) {
                *e = x;
                self.depth += 1;
                self.visit_expr_mut(e);
                self.depth -= 1;
                return;
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_block_mut(&mut self, b: &mut Block) {
        let last = b.stmts.len();
        for (i, s) in b.stmts.iter_mut().enumerate() {
            if let Stmt::Macro(m) = s {
                if let Some(x) = self.get(&m.mac) {
                    let semi = if i + 1 == last && m.semi_token.is_none() { None } else { Some(Default::default()) };
                    *s = Stmt::Expr(x, semi);
                    self.depth += 1;
                    self.visit_stmt_mut(s);
                    self.depth -= 1;
                    continue;
                }
            }
            self.visit_stmt_mut(s);
        }
    }
}
