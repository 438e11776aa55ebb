//! Well-formedness of whatever was parsed, also from malformed input: slots (C04), segmentation
//! (C05), attributes and visibility (C06).
use crate::toks::*;
use proc_macro2::*;
use venial::*;

pub type Bad = Vec<(&'static str, String)>;
pub fn is_p(t: &TokenTree, c: char) -> bool {
    matches!(t, TokenTree::Punct(p) if p.as_char() == c)
}
pub fn is_i(t: &TokenTree, s: &str) -> bool {
    matches!(t, TokenTree::Ident(i) if i == s)
}
fn is_b(t: &TokenTree) -> bool {
    matches!(t, TokenTree::Group(g) if g.delimiter() == Delimiter::Brace)
}
/// Reference scan: index of the first separator outside of angle brackets, the first unmatched
/// `>` or the end.
pub fn scan(s: &[TokenTree], p: impl Fn(&TokenTree) -> bool) -> usize {
    let mut depth = 0i64;
    let mut dash = false;
    for (i, t) in s.iter().enumerate() {
        let was_dash = std::mem::replace(&mut dash, false);
        if is_p(t, '<') {
            depth += 1;
        } else if is_p(t, '>') {
            if !was_dash {
                depth -= 1;
                if depth < 0 {
                    return i;
                }
            }
        } else if is_p(t, '-') {
            dash = true;
        } else if depth == 0 && p(t) {
            return i;
        }
    }
    s.len()
}
fn colon2(s: &[TokenTree]) -> bool {
    s.len() >= 2 && matches!(&s[0], TokenTree::Punct(p) if p.as_char() == ':' && p.spacing() == Spacing::Joint) && is_p(&s[1], ':')
}
pub fn lhs_len(s: &[TokenTree]) -> usize {
    let k = scan(s, |t| is_p(t, ':'));
    if colon2(&s[k..]) {
        k + 2 + lhs_len(&s[k + 2..])
    } else {
        k
    }
}
fn restr(g: &Group) -> bool {
    let v: Vec<TokenTree> = g.stream().into_iter().collect();
    g.delimiter() == Delimiter::Parenthesis && !v.is_empty() && (is_i(&v[0], "in") || (v.len() == 1 && ["crate", "self", "super"].iter().any(|k| is_i(&v[0], k))))
}
pub struct W {
    pub bad: Bad,
}
impl W {
    fn ck(&mut self, tag: &'static str, ok: bool, what: &str) {
        if !ok {
            self.bad.push((tag, what.to_string()));
        }
    }
    fn attrs(&mut self, v: &[Attribute], inner: bool) {
        for a in v {
            self.ck("C06", a.tk_hash.as_char() == '#', "attribute does not start with #");
            self.ck("C06", a.tk_brackets.delimiter == Delimiter::Bracket, "attribute brackets");
            self.ck("C06", a.tk_bang.is_some() == inner && a.tk_bang.as_ref().map_or(true, |b| b.as_char() == '!'), "inner/outer attribute in the wrong list");
            self.ck("C06", a.path.iter().all(|t| matches!(t, TokenTree::Ident(_)) || is_p(t, ':')), "attribute path has other tokens");
            if let AttributeValue::Equals(e, _) = &a.value {
                self.ck("C06", e.as_char() == '=', "attribute value without =");
            }
        }
    }
    fn vis(&mut self, v: &Option<VisMarker>) {
        if let Some(v) = v {
            let ok = (is_i(&v.tk_token1, "pub") && v.tk_token2.as_ref().map_or(true, |t| matches!(t, TokenTree::Group(g) if restr(g)))) || (is_i(&v.tk_token1, "crate") && v.tk_token2.is_none());
            self.ck("C06", ok, "not a visibility marker");
        }
    }
    fn commas<T>(&mut self, p: &Punctuated<T>, what: &str) {
        self.ck("C04", p.inner.iter().all(|x| x.1.as_char() == ','), &format!("{what}: separator is not a comma"));
    }
    fn kw(&mut self, i: &Ident, s: &str) {
        self.ck("C04", i == s, &format!("keyword slot of `{s}` has `{i}`"));
    }
    fn okw(&mut self, i: &Option<Ident>, s: &str) {
        if let Some(i) = i {
            self.kw(i, s)
        }
    }
    fn pu(&mut self, p: &Punct, c: char) {
        self.ck("C04", p.as_char() == c, &format!("slot of `{c}` has `{}`", p.as_char()));
    }
    fn opu(&mut self, p: &Option<Punct>, c: char) {
        if let Some(p) = p {
            self.pu(p, c)
        }
    }
    fn grp(&mut self, g: &GroupSpan, d: Delimiter, what: &str) {
        self.ck("C04", g.delimiter == d, &format!("{what}: wrong delimiter"));
    }
    fn seg(&mut self, t: &[TokenTree], p: impl Fn(&TokenTree) -> bool, what: &str) {
        let k = scan(t, p);
        self.ck("C05", k == t.len(), &format!("{what} `{}` contains its own end at token {k}", show(&render(t.iter().cloned()))));
    }
    fn ty(&mut self, t: &TypeExpr, what: &str) {
        self.ck("C05", !t.tokens.is_empty(), &format!("{what}: empty type"));
        self.seg(&t.tokens, |t| is_p(t, ','), what);
    }
    fn generics(&mut self, g: &Option<GenericParamList>) {
        let Some(g) = g else { return };
        self.pu(&g.tk_l_bracket, '<');
        self.pu(&g.tk_r_bracket, '>');
        self.commas(&g.params, "generic params");
        for (x, _) in &g.params.inner {
            self.ck("C04", x.tk_prefix.as_ref().map_or(true, |t| is_p(t, '\'') || is_i(t, "const")), "generic param prefix");
            if let Some(b) = &x.bound {
                self.pu(&b.tk_colon, ':');
                self.seg(&b.tokens, |t| is_p(t, ',') || is_p(t, '>'), "generic bound");
            }
        }
    }
    fn wher(&mut self, w: &Option<WhereClause>) {
        let Some(w) = w else { return };
        self.kw(&w.tk_where, "where");
        self.commas(&w.items, "where clause");
        for (x, _) in &w.items.inner {
            self.pu(&x.bound.tk_colon, ':');
            self.ck("C05", lhs_len(&x.left_side) == x.left_side.len(), "left side of a predicate contains its own end");
            self.seg(&x.bound.tokens, |t| is_p(t, ',') || is_p(t, ';') || is_b(t), "where bound");
        }
    }
    fn named(&mut self, f: &NamedFields) {
        self.grp(&f.tk_braces, Delimiter::Brace, "fields");
        self.commas(&f.fields, "fields");
        for (x, _) in &f.fields.inner {
            self.attrs(&x.attributes, false);
            self.vis(&x.vis_marker);
            self.pu(&x.tk_colon, ':');
            self.ty(&x.ty, "field type");
        }
    }
    fn fields(&mut self, f: &Fields) {
        match f {
            Fields::Unit => (),
            Fields::Named(f) => self.named(f),
            Fields::Tuple(f) => {
                self.grp(&f.tk_parens, Delimiter::Parenthesis, "fields");
                self.commas(&f.fields, "fields");
                for (x, _) in &f.fields.inner {
                    self.attrs(&x.attributes, false);
                    self.vis(&x.vis_marker);
                    self.ty(&x.ty, "field type");
                }
            }
        }
    }
    fn func(&mut self, x: &Function) {
        self.attrs(&x.attributes, false);
        self.vis(&x.vis_marker);
        let q = &x.qualifiers;
        self.okw(&q.tk_default, "default");
        self.okw(&q.tk_const, "const");
        self.okw(&q.tk_async, "async");
        self.okw(&q.tk_unsafe, "unsafe");
        self.okw(&q.tk_extern, "extern");
        self.ck("C04", q.extern_abi.is_none() || q.tk_extern.is_some(), "abi without extern");
        self.kw(&x.tk_fn_keyword, "fn");
        self.generics(&x.generic_params);
        self.grp(&x.tk_params_parens, Delimiter::Parenthesis, "params");
        self.commas(&x.params, "params");
        for (p, _) in &x.params.inner {
            match p {
                FnParam::Receiver(r) => {
                    self.attrs(&r.attributes, false);
                    self.opu(&r.tk_ref, '&');
                    if let Some(l) = &r.lifetime {
                        self.pu(&l.tk_apostrophe, '\'');
                    }
                    self.okw(&r.tk_mut, "mut");
                    self.kw(&r.tk_self, "self");
                }
                FnParam::Typed(r) => {
                    self.attrs(&r.attributes, false);
                    self.okw(&r.tk_mut, "mut");
                    self.pu(&r.tk_colon, ':');
                    self.ty(&r.ty, "param type");
                }
            }
        }
        self.ck("C04", x.return_ty.is_some() == x.tk_return_arrow.is_some(), "return type without arrow");
        if let Some([a, b]) = &x.tk_return_arrow {
            self.pu(a, '-');
            self.pu(b, '>');
        }
        if let Some(t) = &x.return_ty {
            self.seg(&t.tokens, |t| is_b(t) || is_i(t, "where") || is_p(t, ';'), "return type");
        }
        self.wher(&x.where_clause);
        self.ck("C04", x.body.is_some() != x.tk_semicolon.is_some(), "body xor semicolon");
        if let Some(g) = &x.body {
            self.ck("C04", g.delimiter() == Delimiter::Brace, "fn body delimiter");
        }
        self.opu(&x.tk_semicolon, ';');
    }
    fn constant(&mut self, x: &Constant, stat: bool) {
        self.attrs(&x.attributes, false);
        self.vis(&x.vis_marker);
        let st = x.tk_const_or_static == "static";
        self.ck("C04", st || x.tk_const_or_static == "const", "const/static keyword");
        self.ck("C04", stat || !st, "static member outside of an extern block");
        self.okw(&x.tk_mut, "mut");
        self.ck("C04", x.tk_mut.is_none() || st, "const mut");
        self.pu(&x.tk_colon, ':');
        self.opu(&x.tk_equals, '=');
        self.pu(&x.tk_semicolon, ';');
        self.seg(&x.ty.tokens, |t| is_p(t, '=') || is_p(t, ';'), "const type");
        self.ck("C04", x.initializer.is_none() || x.tk_equals.is_some(), "initializer without =");
        if let Some(v) = &x.initializer {
            self.ck("C05", !v.tokens.iter().any(|t| is_p(t, ';')), "initializer contains ;");
        }
    }
    fn alias(&mut self, x: &TypeAlias) {
        self.attrs(&x.attributes, false);
        self.vis(&x.vis_marker);
        self.kw(&x.tk_type, "type");
        if let Some(b) = &x.bound {
            self.pu(&b.tk_colon, ':');
            self.seg(&b.tokens, |t| is_p(t, '=') || is_p(t, ';'), "alias bound");
        }
        self.opu(&x.tk_equals, '=');
        self.pu(&x.tk_semicolon, ';');
        self.ck("C04", x.initializer_ty.is_some() == x.tk_equals.is_some(), "alias: type without =");
        if let Some(t) = &x.initializer_ty {
            self.seg(&t.tokens, |t| is_p(t, ';'), "alias type");
        }
    }
    fn mac(&mut self, x: &Macro) {
        self.attrs(&x.attributes, false);
        self.pu(&x.tk_bang, '!');
        self.opu(&x.tk_semicolon, ';');
        let d = x.tk_braces_or_parens.delimiter;
        self.ck("C04", (d == Delimiter::Parenthesis && x.tk_semicolon.is_some()) || (d == Delimiter::Brace && x.tk_semicolon.is_none()), "macro delimiter and semicolon");
    }
    fn imember(&mut self, m: &ImplMember, stat: bool) {
        match m {
            ImplMember::AssocFunction(x) => self.func(x),
            ImplMember::AssocConstant(x) => self.constant(x, stat),
            ImplMember::AssocType(x) => self.alias(x),
            ImplMember::Macro(x) => self.mac(x),
            #[allow(unreachable_patterns)]
            _ => (),
        }
    }
    pub fn item(&mut self, x: &Item) {
        match x {
            Item::Struct(x) => {
                self.attrs(&x.attributes, false);
                self.vis(&x.vis_marker);
                self.kw(&x.tk_struct, "struct");
                self.generics(&x.generic_params);
                self.wher(&x.where_clause);
                self.fields(&x.fields);
                self.opu(&x.tk_semicolon, ';');
                self.ck("C04", !matches!(x.fields, Fields::Named(_)) || x.tk_semicolon.is_none(), "semicolon after named fields");
                self.ck("C04", !matches!(x.fields, Fields::Unit) || x.tk_semicolon.is_some(), "unit struct without semicolon");
            }
            Item::Enum(x) => {
                self.attrs(&x.attributes, false);
                self.vis(&x.vis_marker);
                self.kw(&x.tk_enum, "enum");
                self.generics(&x.generic_params);
                self.wher(&x.where_clause);
                self.grp(&x.tk_braces, Delimiter::Brace, "enum");
                self.commas(&x.variants, "variants");
                for (v, _) in &x.variants.inner {
                    self.attrs(&v.attributes, false);
                    self.vis(&v.vis_marker);
                    self.fields(&v.fields);
                    if let Some(v) = &v.value {
                        self.pu(&v.tk_equal, '=');
                    }
                }
            }
            Item::Union(x) => {
                self.attrs(&x.attributes, false);
                self.vis(&x.vis_marker);
                self.kw(&x.tk_union, "union");
                self.generics(&x.generic_params);
                self.wher(&x.where_clause);
                self.named(&x.fields);
            }
            Item::Module(x) => {
                self.attrs(&x.attributes, false);
                self.attrs(&x.inner_attributes, true);
                self.vis(&x.vis_marker);
                self.okw(&x.tk_unsafe, "unsafe");
                self.kw(&x.tk_mod, "mod");
                self.opu(&x.tk_semicolon, ';');
                self.ck("C04", x.tk_semicolon.is_some() != x.tk_braces.is_some(), "mod: braces xor semicolon");
                if let Some(g) = &x.tk_braces {
                    self.grp(g, Delimiter::Brace, "mod");
                }
                for m in &x.members {
                    self.item(m);
                }
            }
            Item::Trait(x) => {
                self.attrs(&x.attributes, false);
                self.attrs(&x.inner_attributes, true);
                self.vis(&x.vis_marker);
                self.okw(&x.tk_unsafe, "unsafe");
                self.kw(&x.tk_trait, "trait");
                self.generics(&x.generic_params);
                self.wher(&x.where_clause);
                if let Some(b) = &x.bound {
                    self.pu(&b.tk_colon, ':');
                    self.seg(&b.tokens, |t| is_b(t) || is_i(t, "where"), "trait bound");
                }
                self.grp(&x.tk_braces, Delimiter::Brace, "trait");
                for m in &x.body_items {
                    match m {
                        TraitMember::AssocFunction(x) => self.func(x),
                        TraitMember::AssocConstant(x) => self.constant(x, false),
                        TraitMember::AssocType(x) => self.alias(x),
                        TraitMember::Macro(x) => self.mac(x),
                        #[allow(unreachable_patterns)]
                        _ => (),
                    }
                }
            }
            Item::Impl(x) => {
                self.attrs(&x.attributes, false);
                self.attrs(&x.inner_attributes, true);
                self.okw(&x.tk_unsafe, "unsafe");
                self.kw(&x.tk_impl, "impl");
                self.generics(&x.impl_generic_params);
                self.okw(&x.tk_for, "for");
                self.ck("C04", x.trait_ty.is_some() == x.tk_for.is_some(), "impl: trait iff for");
                if let Some(t) = &x.trait_ty {
                    self.seg(&t.tokens, |t| is_b(t) || is_i(t, "for") || is_i(t, "where"), "trait of an impl");
                    self.seg(&x.self_ty.tokens, |t| is_b(t) || is_i(t, "where"), "self type of an impl");
                } else {
                    self.seg(&x.self_ty.tokens, |t| is_b(t) || is_i(t, "for") || is_i(t, "where"), "self type of an impl");
                }
                self.wher(&x.where_clause);
                self.grp(&x.tk_braces, Delimiter::Brace, "impl");
                for m in &x.body_items {
                    self.imember(m, false);
                }
            }
            Item::TypeAlias(x) => self.alias(x),
            Item::Function(x) => self.func(x),
            Item::Constant(x) => self.constant(x, true),
            Item::UseDeclaration(x) => {
                self.attrs(&x.attributes, false);
                self.vis(&x.vis_marker);
                self.kw(&x.tk_use, "use");
                self.pu(&x.tk_semicolon, ';');
                self.seg(&x.import_tree.tokens, |t| is_p(t, ';'), "use tree");
            }
            Item::Macro(x) => self.mac(x),
            Item::ExternBlock(x) => {
                self.attrs(&x.attributes, false);
                self.attrs(&x.inner_attributes, true);
                self.vis(&x.vis_marker);
                self.okw(&x.tk_unsafe, "unsafe");
                self.kw(&x.tk_extern, "extern");
                self.grp(&x.tk_braces, Delimiter::Brace, "extern block");
                for m in &x.body_items {
                    self.imember(m, true);
                }
            }
            Item::ExternCrate(x) => {
                self.attrs(&x.attributes, false);
                self.vis(&x.vis_marker);
                self.kw(&x.tk_extern, "extern");
                self.kw(&x.tk_crate, "crate");
                self.okw(&x.tk_as, "as");
                self.pu(&x.tk_semicolon, ';');
                self.ck("C04", x.tk_as.is_some() == (x.alias.is_some() || x.tk_underscore.is_some()), "as without alias");
                self.ck("C04", x.tk_underscore.as_ref().map_or(true, |u| u == "_"), "slot of `_`");
            }
            #[allow(unreachable_patterns)]
            _ => (),
        }
    }
}
/// Well-formedness of a path and its generic arguments.
pub fn path_ok(p: &Path) -> Result<(), String> {
    if let Some(x) = p.segments.first() {
        if x.tk_separator_colons.is_none() && ["impl", "dyn", "for"].iter().any(|k| x.ident == k) {
            return Err(format!("starts with {}", x.ident));
        }
    }
    if p.segments.is_empty() {
        return Err("path without segments".into());
    }
    for (i, s) in p.segments.iter().enumerate() {
        if i > 0 && s.tk_separator_colons.is_none() {
            return Err("missing separator".into());
        }
        if let Some([a, b]) = &s.tk_separator_colons {
            if a.as_char() != ':' || b.as_char() != ':' {
                return Err("separator is not ::".into());
            }
        }
        if let Some(g) = &s.generic_args {
            if g.tk_l_bracket.as_char() != '<' || g.tk_r_bracket.as_char() != '>' {
                return Err("brackets of generic args".into());
            }
            for (a, c) in &g.args.inner {
                if c.as_char() != ',' {
                    return Err("separator of generic args".into());
                }
                let toks: Vec<TokenTree> = quote::quote!(#a).into_iter().collect();
                if toks.is_empty() || scan(&toks, |t| is_p(t, ',')) != toks.len() {
                    return Err("generic arg contains its own end or is empty".into());
                }
                match a {
                    GenericArg::Lifetime { lifetime } => {
                        if lifetime.tk_apostrophe.as_char() != '\'' {
                            return Err("lifetime without '".into());
                        }
                    }
                    GenericArg::Binding { tk_equals, .. } => {
                        if tk_equals.as_char() != '=' {
                            return Err("binding without =".into());
                        }
                    }
                    GenericArg::TypeOrConst { .. } => {
                        if toks.len() >= 2 && matches!(toks[0], TokenTree::Ident(_)) && is_p(&toks[1], '=') {
                            return Err("a binding kept as a type".into());
                        }
                        if toks.len() == 2 && is_p(&toks[0], '\'') {
                            return Err("a lifetime kept as a type".into());
                        }
                    }
                }
            }
        }
    }
    Ok(())
}
