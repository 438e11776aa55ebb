use crate::engine::*;
use std::collections::{BTreeMap, BTreeSet};
use std::ops::Range;
use syn::spanned::Spanned;
use syn::visit::{self, Visit};

pub type Counts = BTreeMap<String, usize>;
pub fn bump(c: &mut Counts, k: &str) {
    *c.entry(k.to_string()).or_default() += 1;
}

pub struct Module {
    pub name: String,
    pub file: String,
    pub src: String,
}

pub fn rg<T: Spanned>(x: &T) -> Range<usize> {
    x.span().byte_range()
}

pub fn is_cfg_test(attrs: &[syn::Attribute]) -> bool {
    attrs.iter().any(|a| {
        a.path().is_ident("cfg") && quote::quote!(#a).to_string().replace(' ', "").contains("cfg(test)")
    })
}

/// Range of a whole item including attributes.
fn item_range(i: &syn::Item) -> Range<usize> {
    rg(i)
}

// ---------------------------------------------------------------------------------------------
// P00: macro_rules expansion

pub fn expand_macros(src: &str, counts: &mut Counts) -> Result<String, String> {
    let mut cur = src.to_string();
    for _ in 0..4 {
        let f = syn::parse_file(&cur).map_err(|e| e.to_string())?;
        let mut ed = Editor::new(&cur);
        // name -> (frag names, body text)
        let mut defs: BTreeMap<String, (Vec<String>, String)> = BTreeMap::new();
        for it in &f.items {
            if let syn::Item::Macro(m) = it {
                if m.mac.path.is_ident("macro_rules") {
                    let name = m.ident.as_ref().map(|i| i.to_string()).unwrap_or_default();
                    if let Some(d) = macro_def(&m.mac.tokens, &cur) {
                        defs.insert(name, d);
                    }
                    ed.push(item_range(it), vec![]);
                }
            }
        }
        let mut any = false;
        for it in &f.items {
            if let syn::Item::Macro(m) = it {
                if let Some(id) = m.mac.path.get_ident() {
                    if let Some((frags, body)) = defs.get(&id.to_string()) {
                        let args = split_commas(m.mac.tokens.clone());
                        if args.len() != frags.len() {
                            return Err(format!("macro {id}: arity"));
                        }
                        let mut b = body.clone();
                        for (n, a) in frags.iter().zip(&args) {
                            b = b.replace(&format!("${n}"), a);
                        }
                        any = true;
                        bump(counts, "macro_rules_expansion");
                        ed.push(item_range(it), vec![t(b)]);
                    }
                }
            }
        }
        let next = ed.render_all();
        if !any {
            return Ok(next);
        }
        cur = next;
    }
    Ok(cur)
}

fn split_commas(ts: proc_macro2::TokenStream) -> Vec<String> {
    let mut out = vec![];
    let mut cur = proc_macro2::TokenStream::new();
    for tk in ts {
        if matches!(&tk, proc_macro2::TokenTree::Punct(p) if p.as_char() == ',') {
            out.push(cur.to_string());
            cur = proc_macro2::TokenStream::new();
        } else {
            cur.extend([tk]);
        }
    }
    if !cur.is_empty() {
        out.push(cur.to_string());
    }
    out
}

fn macro_def(ts: &proc_macro2::TokenStream, src: &str) -> Option<(Vec<String>, String)> {
    use proc_macro2::TokenTree as TT;
    let v: Vec<TT> = ts.clone().into_iter().filter(|x| !matches!(x, TT::Punct(p) if p.as_char()==';')).collect();
    if v.len() != 4 {
        return None;
    }
    let (TT::Group(pat), TT::Group(body)) = (&v[0], &v[3]) else { return None };
    let p: Vec<TT> = pat.stream().into_iter().collect();
    let mut frags = vec![];
    let mut i = 0;
    while i < p.len() {
        match (&p[i], p.get(i + 1)) {
            (TT::Punct(d), Some(TT::Ident(n))) if d.as_char() == '$' => {
                frags.push(n.to_string());
                i += 4;
            }
            (TT::Punct(d), _) if d.as_char() == ',' => i += 1,
            _ => return None,
        }
    }
    let r = body.span().byte_range();
    Some((frags, src[r.start + 1..r.end - 1].to_string()))
}

// ---------------------------------------------------------------------------------------------
// P0: items

pub struct Derives {
    pub clone_types: Vec<(String, String, String)>, // module, generics params text, type text
}

struct P0<'a, 'b> {
    ed: Editor<'a>,
    counts: &'b mut Counts,
}

impl<'a, 'b, 'ast> Visit<'ast> for P0<'a, 'b> {
    fn visit_attribute(&mut self, a: &'ast syn::Attribute) {
        self.ed.push(rg(a), vec![]);
    }
    fn visit_visibility(&mut self, v: &'ast syn::Visibility) {
        if let syn::Visibility::Restricted(_) = v {
            self.ed.push(rg(v), vec![t("pub")]);
        }
    }
    fn visit_path(&mut self, p: &'ast syn::Path) {
        let segs: Vec<String> = p.segments.iter().map(|s| s.ident.to_string()).collect();
        if p.leading_colon.is_none() && segs.len() > 1 {
            let root = segs[0].as_str();
            if root == "proc_macro2" {
                let r = rg(&p.segments[0].ident);
                self.ed.push(r, vec![t("crate::proc_macro2")]);
                bump(self.counts, "path_to_model");
            } else if root == "quote" {
                let r = rg(&p.segments[0].ident).start..rg(&p.segments[segs.len() - 1].ident).start;
                self.ed.push(r, vec![t("crate::proc_macro2::")]);
                bump(self.counts, "path_to_model");
            } else if (root == "std" || root == "core" || root == "fmt") && segs.iter().any(|s| s == "fmt") && segs.last().map(|s| s == "Formatter" || s == "Result") == Some(true) {
                let r = rg(&p.segments[0].ident).start..rg(&p.segments[segs.len() - 1].ident).start;
                self.ed.push(r, vec![t("crate::proc_macro2::fmt::")]);
                bump(self.counts, "path_to_model");
            } else if root == "std" && segs.last().map(|s| s == "Peekable") == Some(true) {
                let r = rg(&p.segments[0].ident).start..rg(&p.segments[segs.len() - 1].ident).start;
                self.ed.push(r, vec![t("crate::proc_macro2::")]);
                bump(self.counts, "path_to_model");
            }
        }
        visit::visit_path(self, p);
    }
}

fn use_root(u: &syn::UseTree) -> String {
    match u {
        syn::UseTree::Path(p) => p.ident.to_string(),
        syn::UseTree::Name(n) => n.ident.to_string(),
        _ => String::new(),
    }
}

pub fn last_seg(p: &syn::Path) -> String {
    p.segments.last().map(|s| s.ident.to_string()).unwrap_or_default()
}

fn pubify(ed: &mut Editor, vis: &syn::Visibility, at: usize) {
    if let syn::Visibility::Inherited = vis {
        ed.push(at..at, vec![t("pub ")]);
    }
}

pub fn pass_items(
    m: &Module,
    counts: &mut Counts,
    dropped: &mut Vec<String>,
    clone_types: &mut Vec<(String, String)>,
) -> Result<String, String> {
    let f = syn::parse_file(&m.src).map_err(|e| format!("{}: {e}", m.name))?;
    let mut v = P0 { ed: Editor::new(&m.src), counts };
    for a in &f.attrs {
        v.ed.push(rg(a), vec![]);
    }
    let mut clones = String::new();
    for it in &f.items {
        let attrs: &[syn::Attribute] = match it {
            syn::Item::Mod(x) => &x.attrs,
            syn::Item::Fn(x) => &x.attrs,
            syn::Item::Impl(x) => &x.attrs,
            syn::Item::Struct(x) => &x.attrs,
            syn::Item::Enum(x) => &x.attrs,
            syn::Item::Use(x) => &x.attrs,
            _ => &[],
        };
        if is_cfg_test(attrs) {
            v.ed.push(item_range(it), vec![]);
            continue;
        }
        match it {
            syn::Item::Mod(x) if x.content.is_none() => {
                v.ed.push(item_range(it), vec![]);
                continue;
            }
            syn::Item::Use(u) => {
                let root = use_root(&u.tree);
                if ["proc_macro2", "quote", "std", "core", "alloc"].contains(&root.as_str()) {
                    v.ed.push(item_range(it), vec![]);
                    bump(v.counts, "use_dropped");
                    continue;
                }
            }
            syn::Item::Impl(i) => {
                if let Some((_, tr, _)) = &i.trait_ {
                    let n = last_seg(tr);
                    let ty = &i.self_ty;
                    // the bodies of Deref and DerefMut become methods with a contract
                    if n == "Deref" || n == "DerefMut" {
                        let target = f.items.iter().find_map(|o| match o {
                            syn::Item::Impl(d) if d.self_ty == *ty => d.items.iter().find_map(|x| match x {
                                syn::ImplItem::Type(a) if a.ident == "Target" => Some(m.src[rg(&a.ty)].to_string()),
                                _ => None,
                            }),
                            _ => None,
                        });
                        let body = i.items.iter().find_map(|x| match x {
                            syn::ImplItem::Fn(x) => Some(x),
                            _ => None,
                        });
                        if let (Some(target), Some(body)) = (target, body) {
                            bump(v.counts, "deref_as_method");
                            let (ig, _, wc) = i.generics.split_for_impl();
                            let name = if n == "Deref" { "v_deref" } else { "v_deref_mut" };
                            let recv = if n == "Deref" { "&" } else { "&mut " };
                            v.ed.push(
                                item_range(it),
                                vec![
                                    t(format!("impl{} {}{} {{ pub fn {name}({recv}self) -> {recv}{target} ", quote::quote!(#ig), quote::quote!(#ty), quote::quote!(#wc))),
                                    crate::engine::Seg::S(rg(&body.block).start, rg(&body.block).end),
                                    t(" }"),
                                ],
                            );
                            v.visit_item(it);
                            continue;
                        }
                    }
                    let shown = n == "Display" && quote::quote!(#ty).to_string() == "Error";
                    if shown {
                        if let Some((_, p, f)) = &i.trait_ {
                            v.ed.push(rg(p).start..rg(f).end, vec![]);
                        }
                        for x in &i.items {
                            if let syn::ImplItem::Fn(f) = x {
                                v.ed.push(rg(&f.sig.ident), vec![t("v_fmt")]);
                                v.ed.push(rg(&f.sig).start..rg(&f.sig).start, vec![t("pub ")]);
                            }
                        }
                        bump(v.counts, "display_impl");
                    } else if ["Debug", "Display", "Error", "Deref", "DerefMut"].contains(&n.as_str()) {
                        dropped.push(format!("impl {} for {}", n, quote::quote!(#ty)));
                        v.ed.push(item_range(it), vec![]);
                        continue;
                    }
                    // a hand-written Clone is held to the contract of a derived one
                    if n == "Clone" {
                        v.ed.push(rg(tr), vec![t("VClone")]);
                        for ii in &i.items {
                            match ii {
                                syn::ImplItem::Fn(f) if f.sig.ident == "clone" => v.ed.push(rg(&f.sig.ident), vec![t("vclone")]),
                                o => v.ed.push(rg(o), vec![]),
                            }
                        }
                    }
                }
            }
            syn::Item::Fn(x) => {
                let s = &x.sig;
                if quote::quote!(#s).to_string().contains("Formatter") {
                    dropped.push(format!("fn {}", s.ident));
                    v.ed.push(item_range(it), vec![]);
                    continue;
                }
            }
            _ => {}
        }
        // derives
        let mut derive = |attrs: &[syn::Attribute], id: &syn::Ident, g: &syn::Generics, copy: &dyn Fn() -> String| {
            for a in attrs {
                if a.path().is_ident("derive") {
                    let s = quote::quote!(#a).to_string();
                    for d in s.trim_start_matches("# [derive (").trim_end_matches(")]").split(',') {
                        let d = d.trim().trim_end_matches(|c| c == ')' || c == ']' || c == ' ');
                        if d == "Clone" {
                            // the expansion of the derive, in the words of the language reference
                            let ps: Vec<String> = g.type_params().map(|p| p.ident.to_string()).collect();
                            let (gp, ta) = if ps.is_empty() {
                                (String::new(), String::new())
                            } else {
                                (
                                    format!("<{}>", ps.iter().map(|p| format!("{p}: VClone")).collect::<Vec<_>>().join(", ")),
                                    format!("<{}>", ps.join(", ")),
                                )
                            };
                            clones.push_str(&format!(
                                "\nimpl{gp} VClone for {id}{ta} {{ fn vclone(&self) -> Self {{ {} }} }}",
                                copy()
                            ));
                            clone_types.push((m.name.clone(), format!("{id}{ta}")));
                        } else if !d.is_empty() {
                            dropped.push(format!("derive({d}) on {id}"));
                        }
                    }
                }
            }
        };
        match it {
            syn::Item::Struct(x) => {
                derive(&x.attrs, &x.ident, &x.generics, &|| copy_of(&x.ident.to_string(), &x.fields, "self."));
                pubify(&mut v.ed, &x.vis, rg(&x.struct_token).start);
                for f in &x.fields {
                    let at = match &f.ident {
                        Some(i) => rg(i).start,
                        None => rg(&f.ty).start,
                    };
                    pubify(&mut v.ed, &f.vis, at);
                }
            }
            syn::Item::Enum(x) => {
                derive(&x.attrs, &x.ident, &x.generics, &|| {
                    let arms: Vec<String> = x
                        .variants
                        .iter()
                        .map(|v| {
                            let p = format!("{}::{}", x.ident, v.ident);
                            let pat = match &v.fields {
                                syn::Fields::Unit => p.clone(),
                                syn::Fields::Named(f) => format!("{p} {{ {} }}", f.named.iter().filter_map(|f| f.ident.as_ref()).map(|i| format!("{i}: __{i}")).collect::<Vec<_>>().join(", ")),
                                syn::Fields::Unnamed(f) => format!("{p}({})", (0..f.unnamed.len()).map(|i| format!("__{i}")).collect::<Vec<_>>().join(", ")),
                            };
                            format!("{pat} => {},", copy_of(&p, &v.fields, "__"))
                        })
                        .collect();
                    format!("match self {{ {} }}", arms.join(" "))
                });
                pubify(&mut v.ed, &x.vis, rg(&x.enum_token).start);
            }
            syn::Item::Fn(x) => {
                pubify(&mut v.ed, &x.vis, rg(&x.sig).start);
            }
            syn::Item::Impl(x) if x.trait_.is_none() => {
                for ii in &x.items {
                    if let syn::ImplItem::Fn(f) = ii {
                        pubify(&mut v.ed, &f.vis, rg(&f.sig).start);
                    }
                }
            }
            _ => {}
        }
        v.visit_item(it);
    }
    Ok(v.ed.render_all() + &clones)
}

/// `Name { a: <from>a.clone(), .. }`
fn copy_of(name: &str, f: &syn::Fields, from: &str) -> String {
    match f {
        syn::Fields::Unit => name.to_string(),
        syn::Fields::Named(f) => format!("{name} {{ {} }}", f.named.iter().filter_map(|f| f.ident.as_ref()).map(|i| format!("{i}: {from}{i}.clone()")).collect::<Vec<_>>().join(", ")),
        syn::Fields::Unnamed(f) => format!("{name}({})", (0..f.unnamed.len()).map(|i| format!("{from}{i}.clone()")).collect::<Vec<_>>().join(", ")),
    }
}

// ---------------------------------------------------------------------------------------------
// function index

#[derive(Clone, Debug)]
pub struct FnInfo {
    pub key: String,
    pub module: String,
    pub self_ty: Option<String>,
    pub params: Vec<(String, String)>, // name, type text
    pub ret: String,
    pub body: String, // text with braces
    pub inlinable: bool,
    pub generic: bool,
    pub is_method: bool,
    pub muts: BTreeSet<String>,
}

pub fn ty_name(t: &syn::Type) -> String {
    match t {
        syn::Type::Path(p) => last_seg(&p.path),
        syn::Type::Reference(r) => ty_name(&r.elem),
        _ => quote::quote!(#t).to_string(),
    }
}

pub fn fn_key(self_ty: Option<&str>, trait_: Option<&str>, name: &str) -> String {
    match (trait_, self_ty) {
        (Some(tr), Some(ty)) => format!("<{ty} as {tr}>::{name}"),
        (None, Some(ty)) => format!("{ty}::{name}"),
        _ => name.to_string(),
    }
}

pub fn each_fn<'x>(
    f: &'x syn::File,
    cb: &mut dyn FnMut(String, Option<String>, Option<String>, &'x syn::Signature, &'x syn::Block),
) {
    fn items<'x>(
        its: &'x [syn::Item],
        cb: &mut dyn FnMut(String, Option<String>, Option<String>, &'x syn::Signature, &'x syn::Block),
    ) {
        for it in its {
            match it {
                syn::Item::Fn(x) => cb(x.sig.ident.to_string(), None, None, &x.sig, &x.block),
                syn::Item::Impl(i) => {
                    let ty = ty_name(&i.self_ty);
                    let tr = i.trait_.as_ref().map(|(_, p, _)| last_seg(p));
                    for ii in &i.items {
                        if let syn::ImplItem::Fn(f) = ii {
                            let k = fn_key(Some(&ty), tr.as_deref(), &f.sig.ident.to_string());
                            cb(k, Some(ty.clone()), tr.clone(), &f.sig, &f.block);
                        }
                    }
                }
                syn::Item::Mod(m) => {
                    if let Some((_, its)) = &m.content {
                        items(its, cb);
                    }
                }
                _ => {}
            }
        }
    }
    items(&f.items, cb)
}

pub fn index_fns(mods: &[Module]) -> Result<BTreeMap<String, FnInfo>, String> {
    let mut out = BTreeMap::new();
    for m in mods {
        let f = syn::parse_file(&m.src).map_err(|e| format!("{}: {e}", m.name))?;
        each_fn(&f, &mut |key, self_ty, _tr, sig, block| {
            let mut params = vec![];
            let mut simple = true;
            let mut is_method = false;
            let mut muts = BTreeSet::new();
            for i in &sig.inputs {
                match i {
                    syn::FnArg::Receiver(_) => is_method = true,
                    syn::FnArg::Typed(p) => {
                        let n = match &*p.pat {
                            syn::Pat::Ident(i) if i.mutability.is_none() => i.ident.to_string(),
                            syn::Pat::Ident(i) => {
                                muts.insert(i.ident.to_string());
                                i.ident.to_string()
                            }
                            _ => {
                                simple = false;
                                String::new()
                            }
                        };
                        params.push((n, m.src[rg(&p.ty)].to_string()));
                    }
                }
            }
            let ret = match &sig.output {
                syn::ReturnType::Default => "()".to_string(),
                syn::ReturnType::Type(_, t) => m.src[rg(t)].to_string(),
            };
            let text = m.src[rg(block)].to_string();
            let body = crate::deret::deret(&text, &ret);
            out.insert(
                key.clone(),
                FnInfo {
                    key,
                    module: m.name.clone(),
                    self_ty,
                    params,
                    ret,
                    inlinable: simple && body.is_some(),
                    body: body.unwrap_or(text),
                    muts,
                    generic: !sig.generics.params.is_empty(),
                    is_method,
                },
            );
        });
    }
    Ok(out)
}

// ---------------------------------------------------------------------------------------------
// P1: inlining of functions without a contract

/// Substitute parameters in a (text) block.
enum Sub {
    Text(String),             // replace the identifier by this text
    MutRef(String),           // `&mut X`: receiver position -> X, otherwise -> &mut X
    Closure(Vec<String>, String), // closure parameter names and body text
}

struct Substituter<'a> {
    ed: Editor<'a>,
    map: &'a BTreeMap<String, Sub>,
    err: Option<String>,
}
impl<'a, 'ast> Visit<'ast> for Substituter<'a> {
    fn visit_macro(&mut self, m: &'ast syn::Macro) {
        // format arguments of panics are dropped later anyway; other macros: only matches!/vec!/assert!
        if let Some((e, _p, g)) = parse_matches(m) {
            self.visit_expr(&e);
            if let Some(g) = &g {
                self.visit_expr(g);
            }
        } else if let Ok(args) = m.parse_body_with(
            syn::punctuated::Punctuated::<syn::Expr, syn::Token![,]>::parse_terminated,
        ) {
            for a in &args {
                self.visit_expr(a);
            }
        }
    }
    fn visit_expr(&mut self, e: &'ast syn::Expr) {
        match e {
            syn::Expr::Call(c) => {
                if let syn::Expr::Path(p) = &*c.func {
                    if let Some(id) = p.path.get_ident() {
                        if let Some(Sub::Closure(ps, body)) = self.map.get(&id.to_string()) {
                            if ps.len() != c.args.len() {
                                self.err = Some("closure arity".into());
                                return;
                            }
                            let mut b = body.clone();
                            let mut pre = String::new();
                            for (p, a) in ps.iter().zip(&c.args) {
                                let atext = self.ed.src[rg(a)].to_string();
                                if let syn::Expr::Reference(r) = a {
                                    if r.mutability.is_some() {
                                        if let syn::Expr::Path(x) = &*r.expr {
                                            if let Some(x) = x.path.get_ident() {
                                                let mut mp = BTreeMap::new();
                                                mp.insert(p.clone(), Sub::MutRef(x.to_string()));
                                                match substitute(&b, &mp) {
                                                    Ok(nb) => b = nb,
                                                    Err(e) => self.err = Some(e),
                                                }
                                                continue;
                                            }
                                        }
                                    }
                                }
                                pre.push_str(&format!("let {p} = {atext}; "));
                            }
                            self.ed.push(rg(e), vec![t(format!("{{ {pre} {b} }}"))]);
                            return;
                        }
                    }
                }
                visit::visit_expr(self, e);
            }
            syn::Expr::MethodCall(mc) => {
                if let syn::Expr::Path(p) = &*mc.receiver {
                    if let Some(id) = p.path.get_ident() {
                        if let Some(Sub::MutRef(x)) = self.map.get(&id.to_string()) {
                            self.ed.push(rg(id), vec![t(x.clone())]);
                            for a in &mc.args {
                                self.visit_expr(a);
                            }
                            return;
                        }
                    }
                }
                visit::visit_expr(self, e);
            }
            syn::Expr::Path(p) => {
                if let Some(id) = p.path.get_ident() {
                    match self.map.get(&id.to_string()) {
                        Some(Sub::Text(s)) => self.ed.push(rg(e), vec![t(s.clone())]),
                        Some(Sub::MutRef(x)) => self.ed.push(rg(e), vec![t(format!("&mut {x}"))]),
                        Some(Sub::Closure(ps, b)) => {
                            self.ed.push(rg(e), vec![t(format!("|{}| {{ {} }}", ps.join(", "), b))])
                        }
                        None => {}
                    }
                }
            }
            syn::Expr::Struct(s) => {
                for f in &s.fields {
                    if f.colon_token.is_none() {
                        if let syn::Member::Named(n) = &f.member {
                            if let Some(Sub::Text(x)) = self.map.get(&n.to_string()) {
                                self.ed.push(rg(f), vec![t(format!("{n}: {x}"))]);
                                continue;
                            }
                        }
                    }
                    self.visit_expr(&f.expr);
                }
            }
            _ => visit::visit_expr(self, e),
        }
    }
}

fn substitute(block_or_expr: &str, map: &BTreeMap<String, Sub>) -> Result<String, String> {
    let wrapped = format!("{{ {block_or_expr} }}");
    let b: syn::Block = syn::parse_str(&wrapped).map_err(|e| format!("subst: {e}"))?;
    let mut s = Substituter { ed: Editor::new(&wrapped), map, err: None };
    s.visit_block(&b);
    if let Some(e) = s.err {
        return Err(e);
    }
    Ok(s.ed.render_all())
}

/// names bound by patterns in a block
fn pat_idents(block: &str) -> BTreeSet<String> {
    struct V(BTreeSet<String>);
    impl<'ast> Visit<'ast> for V {
        fn visit_pat_ident(&mut self, p: &'ast syn::PatIdent) {
            self.0.insert(p.ident.to_string());
            visit::visit_pat_ident(self, p);
        }
    }
    let mut v = V(BTreeSet::new());
    if let Ok(b) = syn::parse_str::<syn::Block>(block) {
        v.visit_block(&b);
    }
    v.0
}

struct Inliner<'a, 'b> {
    ed: Editor<'a>,
    fns: &'b BTreeMap<String, FnInfo>,
    contracted: &'b BTreeSet<String>,
    counts: &'b mut Counts,
    used: &'b mut BTreeSet<String>,
    missing: &'b mut BTreeSet<(String, String)>,
    cur: String,
    locals: BTreeSet<String>,
    n: usize,
}

impl<'a, 'b> Inliner<'a, 'b> {
    /// the key of the function that a path names
    fn resolve(&self, p: &syn::Path) -> String {
        let n = last_seg(p);
        if p.segments.len() < 2 {
            return n;
        }
        let mut q = p.segments[p.segments.len() - 2].ident.to_string();
        if q == "Self" {
            let c = self.cur.strip_prefix('<').unwrap_or(&self.cur);
            q = c.split(|c: char| !(c.is_alphanumeric() || c == '_')).next().unwrap_or("").to_string();
        }
        let k = format!("{q}::{n}");
        if self.fns.contains_key(&k) { k } else { n }
    }
    fn try_inline(
        &mut self,
        info: &FnInfo,
        recv: Option<Range<usize>>,
        args: Vec<&syn::Expr>,
        whole: Range<usize>,
    ) -> bool {
        if !info.inlinable || info.params.len() != args.len() || info.key == self.cur {
            return false;
        }
        let mut map = BTreeMap::new();
        let mut pre = String::new();
        if info.is_method {
            let Some(r) = recv else { return false };
            map.insert("self".to_string(), Sub::Text(format!("({})", &self.ed.src[r])));
        }
        for ((n, ty), a) in info.params.iter().zip(args) {
            let text = self.ed.src[rg(a)].to_string();
            match a {
                _ if info.muts.contains(n) => {
                    pre.push_str(&format!("let mut {n}: {ty} = {text}; "));
                }
                syn::Expr::Closure(c) => {
                    let mut ps = vec![];
                    for p in &c.inputs {
                        match p {
                            syn::Pat::Ident(i) => ps.push(i.ident.to_string()),
                            syn::Pat::Type(t) => match &*t.pat {
                                syn::Pat::Ident(i) => ps.push(i.ident.to_string()),
                                _ => return false,
                            },
                            _ => return false,
                        }
                    }
                    map.insert(n.clone(), Sub::Closure(ps, self.ed.src[rg(&*c.body)].to_string()));
                }
                syn::Expr::Path(p) if p.path.get_ident().is_some() => {
                    if text != *n {
                        map.insert(n.clone(), Sub::Text(text));
                    }
                }
                syn::Expr::Reference(r) if r.mutability.is_some() => match &*r.expr {
                    syn::Expr::Path(p) if p.path.get_ident().is_some() => {
                        map.insert(n.clone(), Sub::MutRef(self.ed.src[rg(&*r.expr)].to_string()));
                    }
                    _ => return false,
                },
                syn::Expr::Lit(_) => {
                    map.insert(n.clone(), Sub::Text(text));
                }
                _ => {
                    if ty.contains("impl ") {
                        pre.push_str(&format!("let {n} = {text}; "));
                    } else {
                        pre.push_str(&format!("let {n}: {ty} = {text}; "));
                    }
                }
            }
        }
        // a local of the helper must not capture a name used in an argument
        let locals = pat_idents(&info.body);
        for v in map.values() {
            let txt = match v {
                Sub::Text(s) | Sub::MutRef(s) => s.clone(),
                Sub::Closure(_, b) => b.clone(),
            };
            for w in txt.split(|c: char| !(c.is_alphanumeric() || c == '_')) {
                if locals.contains(w) {
                    return false;
                }
            }
        }
        let mut body = info.body.clone();
        if let Some(ty) = &info.self_ty {
            body = replace_word(&body, "Self", ty);
        }
        match substitute(&body, &map) {
            Ok(b) => {
                let ret = info.self_ty.as_ref().map(|t| replace_word(&info.ret, "Self", t)).unwrap_or(info.ret.clone());
                if info.generic || ret == "()" || ret.contains('&') || ret.contains("impl ") || ret.contains('<') && ret.contains('\'') {
                    self.ed.push(whole, vec![t(format!("({{ {pre}{b} }})"))]);
                } else {
                    self.ed.push(whole, vec![t(format!("({{ {pre}let __inl: {ret} = {b}; __inl }})"))]);
                }
                bump(self.counts, "inlined_call");
                self.used.insert(info.key.clone());
                self.n += 1;
                true
            }
            Err(_) => false,
        }
    }
}

impl<'a, 'b, 'ast> Visit<'ast> for Inliner<'a, 'b> {
    fn visit_macro(&mut self, m: &'ast syn::Macro) {
        if let Some((e, _p, g)) = parse_matches(m) {
            self.visit_expr(&e);
            if let Some(g) = &g {
                self.visit_expr(g);
            }
        } else if let Ok(args) = m.parse_body_with(
            syn::punctuated::Punctuated::<syn::Expr, syn::Token![,]>::parse_terminated,
        ) {
            let n = m.path.get_ident().map(|i| i.to_string()).unwrap_or_default();
            if ["assert", "vec", "assert_eq", "debug_assert"].contains(&n.as_str()) {
                for a in &args {
                    self.visit_expr(a);
                }
            }
        }
    }
    fn visit_expr(&mut self, e: &'ast syn::Expr) {
        match e {
            syn::Expr::Call(c) => {
                if let syn::Expr::Path(p) = &*c.func {
                    let k = self.resolve(&p.path);
                    if let Some(info) = self.fns.get(&k) {
                        if !self.contracted.contains(&info.key) {
                            let info = info.clone();
                            if !(info.self_ty.is_some() && info.is_method)
                                && self.try_inline(&info, None, c.args.iter().collect(), rg(e))
                            {
                                return;
                            }
                            self.missing.insert((self.cur.clone(), info.key.clone()));
                        }
                    }
                }
            }
            syn::Expr::MethodCall(mc) => {
                let n = mc.method.to_string();
                let suffix = format!("::{n}");
                let c: Vec<FnInfo> = self
                    .fns
                    .values()
                    .filter(|i| i.is_method && i.key.ends_with(&suffix) && !i.key.starts_with('<'))
                    .cloned()
                    .collect();
                if c.len() == 1 && !self.contracted.contains(&c[0].key) && !STD_METHODS.contains(&n.as_str()) {
                    if self.try_inline(&c[0], Some(rg(&*mc.receiver)), mc.args.iter().collect(), rg(e)) {
                        return;
                    }
                    self.missing.insert((self.cur.clone(), c[0].key.clone()));
                }
            }
            _ => {}
        }
        // a helper without contract given as a value: `f` to `|a| f(a)`
        let args: Vec<&syn::Expr> = match e {
            syn::Expr::Call(c) => c.args.iter().collect(),
            syn::Expr::MethodCall(c) => c.args.iter().collect(),
            _ => vec![],
        };
        for a in args {
            if let syn::Expr::Path(p) = a {
                let k = self.resolve(&p.path);
                let local = p.path.get_ident().map_or(false, |i| self.locals.contains(&i.to_string()));
                if let Some(info) = self.fns.get(&k) {
                    if !local && !self.contracted.contains(&info.key) && info.inlinable {
                        let n = info.params.len();
                        let ps: Vec<String> = (0..n).map(|i| format!("__a{i}")).collect();
                        let f = &self.ed.src[rg(a)];
                        let name = last_seg(&p.path);
                        let text = if info.is_method {
                            let all: Vec<String> = std::iter::once("__s".to_string()).chain(ps.clone()).collect();
                            format!("|{}| __s.{name}({})", all.join(", "), ps.join(", "))
                        } else {
                            format!("|{}| {f}({})", ps.join(", "), ps.join(", "))
                        };
                        self.ed.push(rg(a), vec![t(text)]);
                        bump(self.counts, "eta_expanded");
                        self.n += 1;
                    }
                }
            }
        }
        visit::visit_expr(self, e);
    }
}

pub const STD_METHODS: &[&str] = &[
    "len", "is_empty", "push", "insert", "iter", "clone", "next", "peek", "last", "span", "name", "parse",
    "punct", "combine", "take", "map", "filter", "new",
];

pub fn pass_inline(
    mods: &mut [Module],
    contracted: &BTreeSet<String>,
    counts: &mut Counts,
    used: &mut BTreeSet<String>,
    missing: &mut BTreeSet<(String, String)>,
) -> Result<(), String> {
    for _round in 0..4 {
        let fns = index_fns(mods)?;
        let mut n = 0;
        missing.clear();
        for m in mods.iter_mut() {
            let src = m.src.clone();
            let f = syn::parse_file(&src).map_err(|e| format!("{}: {e}", m.name))?;
            let mut inl = Inliner {
                ed: Editor::new(&src),
                fns: &fns,
                contracted,
                counts,
                used,
                missing,
                cur: String::new(),
                locals: BTreeSet::new(),
                n: 0,
            };
            each_fn(&f, &mut |key, _, _, _, block| {
                inl.cur = key;
                inl.locals = pat_idents(&src[rg(block)]);
                inl.visit_block(block);
            });
            n += inl.n;
            m.src = inl.ed.render_all();
        }
        if n == 0 {
            return Ok(());
        }
    }
    Ok(())
}

pub fn parse_matches(m: &syn::Macro) -> Option<(syn::Expr, syn::Pat, Option<syn::Expr>)> {
    if !m.path.is_ident("matches") {
        return None;
    }
    m.parse_body_with(|i: syn::parse::ParseStream| {
        let e: syn::Expr = i.parse()?;
        i.parse::<syn::Token![,]>()?;
        let p = syn::Pat::parse_multi_with_leading_vert(i)?;
        let g = if i.peek(syn::Token![if]) {
            i.parse::<syn::Token![if]>()?;
            Some(i.parse::<syn::Expr>()?)
        } else {
            None
        };
        let _: Option<syn::Token![,]> = i.parse()?;
        Ok((e, p, g))
    })
    .ok()
}

pub fn replace_word(s: &str, w: &str, by: &str) -> String {
    let mut out = String::new();
    let mut cur = String::new();
    for c in s.chars() {
        if c.is_alphanumeric() || c == '_' {
            cur.push(c);
        } else {
            out.push_str(if cur == w { by } else { &cur });
            cur.clear();
            out.push(c);
        }
    }
    out.push_str(if cur == w { by } else { &cur });
    out
}
