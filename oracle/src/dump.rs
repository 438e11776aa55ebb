//! Contents of every slot of a parsed item, in the vocabulary of the generator.
use crate::gen::{Map, Val};
use crate::toks::*;
use proc_macro2::*;
use venial::*;

pub struct D {
    pub m: Map,
}
fn one<T: Into<TokenTree>>(t: T) -> Val {
    Val::T(render([t.into()]))
}
fn opt<T: Into<TokenTree> + Clone>(t: &Option<T>) -> Val {
    match t {
        Some(x) => one(x.clone()),
        None => Val::S(String::new()),
    }
}
pub fn vec(t: &[TokenTree]) -> Val {
    Val::T(render(t.iter().cloned()))
}
fn head(g: &GroupSpan) -> Val {
    Val::S(format!("{}{:?}", delim(g.delimiter).0, sp(g.span)))
}
fn arr(a: &[Punct; 2]) -> Val {
    Val::T(render(a.iter().cloned().map(TokenTree::from)))
}
impl D {
    pub fn new() -> D {
        D { m: Map::new() }
    }
    fn p(&mut self, k: String, v: Val) {
        self.m.insert(k, v);
    }
    fn s(&mut self, k: String, v: impl ToString) {
        self.m.insert(k, Val::S(v.to_string()));
    }
    pub fn attrs(&mut self, p: &str, v: &[Attribute], key: &str) {
        self.s(format!("{p}.{key}.count"), v.len());
        for (i, a) in v.iter().enumerate() {
            let p = format!("{p}.{key}[{i}]");
            self.p(format!("{p}.hash"), one(a.tk_hash.clone()));
            if let Some(b) = &a.tk_bang {
                self.p(format!("{p}.bang"), one(b.clone()));
            }
            self.p(format!("{p}.brackets"), head(&a.tk_brackets));
            self.p(format!("{p}.path"), vec(&a.path));
            match &a.value {
                AttributeValue::Empty => self.s(format!("{p}.vkind"), "empty"),
                AttributeValue::Equals(e, v) => {
                    self.s(format!("{p}.vkind"), "equals");
                    self.p(format!("{p}.eq"), one(e.clone()));
                    self.p(format!("{p}.value"), vec(v));
                }
                AttributeValue::Group(g, v) => {
                    self.s(format!("{p}.vkind"), "group");
                    self.p(format!("{p}.group"), head(g));
                    self.p(format!("{p}.value"), vec(v));
                }
            }
        }
    }
    pub fn vis(&mut self, p: &str, v: &Option<VisMarker>) {
        let v = match v {
            None => Val::S(String::new()),
            Some(v) => Val::T(render(std::iter::once(v.tk_token1.clone()).chain(v.tk_token2.clone()))),
        };
        self.p(format!("{p}.vis"), v);
    }
    fn commas<T>(&mut self, p: &str, l: &Punctuated<T>) {
        self.s(format!("{p}.count"), l.inner.len());
        for (i, (_, c)) in l.inner.iter().enumerate() {
            let v = if l.skip_last && i + 1 == l.inner.len() { Val::S(String::new()) } else { one(c.clone()) };
            self.p(format!("{p}[{i}].comma"), v);
        }
    }
    pub fn generics(&mut self, p: &str, g: &Option<GenericParamList>) {
        let Some(g) = g else {
            self.s(format!("{p}.gp"), "none");
            return;
        };
        self.s(format!("{p}.gp"), "some");
        self.p(format!("{p}.gp.l"), one(g.tk_l_bracket.clone()));
        self.p(format!("{p}.gp.r"), one(g.tk_r_bracket.clone()));
        self.commas(&format!("{p}.gp"), &g.params);
        for (i, (x, _)) in g.params.inner.iter().enumerate() {
            let p = format!("{p}.gp[{i}]");
            self.gparam(&p, x);
        }
    }
    pub fn gparam(&mut self, p: &str, x: &GenericParam) {
        if let Some(t) = &x.tk_prefix {
            self.p(format!("{p}.prefix"), one(t.clone()));
        }
        self.p(format!("{p}.name"), one(x.name.clone()));
        self.bound(p, &x.bound, false);
    }
    fn bound(&mut self, p: &str, b: &Option<GenericBound>, none: bool) {
        match b {
            Some(b) => {
                self.p(format!("{p}.colon"), one(b.tk_colon.clone()));
                self.p(format!("{p}.bound"), vec(&b.tokens));
            }
            None if none => self.s(format!("{p}.bound"), "none"),
            None => (),
        }
    }
    pub fn wher(&mut self, p: &str, w: &Option<WhereClause>) {
        let Some(w) = w else {
            self.s(format!("{p}.wh"), "none");
            return;
        };
        self.s(format!("{p}.wh"), "some");
        self.p(format!("{p}.wh.kw"), one(w.tk_where.clone()));
        self.commas(&format!("{p}.wh"), &w.items);
        for (i, (x, _)) in w.items.inner.iter().enumerate() {
            let p = format!("{p}.wh[{i}]");
            self.p(format!("{p}.lhs"), vec(&x.left_side));
            self.p(format!("{p}.colon"), one(x.bound.tk_colon.clone()));
            self.p(format!("{p}.bound"), vec(&x.bound.tokens));
        }
    }
    fn named(&mut self, p: &str, f: &NamedFields) {
        self.p(format!("{p}.grp"), head(&f.tk_braces));
        self.commas(p, &f.fields);
        for (i, (x, _)) in f.fields.inner.iter().enumerate() {
            let p = format!("{p}[{i}]");
            self.attrs(&p, &x.attributes, "attrs");
            self.vis(&p, &x.vis_marker);
            self.p(format!("{p}.name"), one(x.name.clone()));
            self.p(format!("{p}.colon"), one(x.tk_colon.clone()));
            self.p(format!("{p}.ty"), vec(&x.ty.tokens));
        }
    }
    fn tuple(&mut self, p: &str, f: &TupleFields) {
        self.p(format!("{p}.grp"), head(&f.tk_parens));
        self.commas(p, &f.fields);
        for (i, (x, _)) in f.fields.inner.iter().enumerate() {
            let p = format!("{p}[{i}]");
            self.attrs(&p, &x.attributes, "attrs");
            self.vis(&p, &x.vis_marker);
            self.p(format!("{p}.ty"), vec(&x.ty.tokens));
        }
    }
    fn fields(&mut self, p: &str, f: &Fields) {
        let q = format!("{p}.fields");
        match f {
            Fields::Unit => self.s(q, "unit"),
            Fields::Tuple(t) => {
                self.s(q.clone(), "tuple");
                self.tuple(&q, t)
            }
            Fields::Named(t) => {
                self.s(q.clone(), "named");
                self.named(&q, t)
            }
        }
    }
    fn func(&mut self, p: &str, x: &Function) {
        self.s(format!("{p}.kind"), "fn");
        self.attrs(p, &x.attributes, "attrs");
        self.vis(p, &x.vis_marker);
        let q = &x.qualifiers;
        self.p(format!("{p}.q.default"), opt(&q.tk_default));
        self.p(format!("{p}.q.const"), opt(&q.tk_const));
        self.p(format!("{p}.q.async"), opt(&q.tk_async));
        self.p(format!("{p}.q.unsafe"), opt(&q.tk_unsafe));
        self.p(format!("{p}.q.extern"), opt(&q.tk_extern));
        self.p(format!("{p}.q.abi"), opt(&q.extern_abi));
        self.p(format!("{p}.kw"), one(x.tk_fn_keyword.clone()));
        self.p(format!("{p}.name"), one(x.name.clone()));
        self.generics(p, &x.generic_params);
        let pp = format!("{p}.params");
        self.p(format!("{pp}.grp"), head(&x.tk_params_parens));
        self.commas(&pp, &x.params);
        for (i, (x, _)) in x.params.inner.iter().enumerate() {
            let p = format!("{pp}[{i}]");
            match x {
                FnParam::Receiver(x) => {
                    self.s(format!("{p}.kind"), "receiver");
                    self.attrs(&p, &x.attributes, "attrs");
                    self.p(format!("{p}.ref"), opt(&x.tk_ref));
                    let l = match &x.lifetime {
                        None => Val::S(String::new()),
                        Some(l) => Val::T(render([TokenTree::from(l.tk_apostrophe.clone()), l.name.clone().into()])),
                    };
                    self.p(format!("{p}.life"), l);
                    self.p(format!("{p}.mut"), opt(&x.tk_mut));
                    self.p(format!("{p}.self"), one(x.tk_self.clone()));
                }
                FnParam::Typed(x) => {
                    self.s(format!("{p}.kind"), "typed");
                    self.attrs(&p, &x.attributes, "attrs");
                    self.p(format!("{p}.mut"), opt(&x.tk_mut));
                    self.p(format!("{p}.name"), one(x.name.clone()));
                    self.p(format!("{p}.colon"), one(x.tk_colon.clone()));
                    self.p(format!("{p}.ty"), vec(&x.ty.tokens));
                }
            }
        }
        self.p(format!("{p}.arrow"), x.tk_return_arrow.as_ref().map_or(Val::S(String::new()), arr));
        self.p(format!("{p}.ret"), x.return_ty.as_ref().map_or(Val::S(String::new()), |t| vec(&t.tokens)));
        self.wher(p, &x.where_clause);
        self.p(format!("{p}.body"), opt(&x.body));
        self.p(format!("{p}.semi"), opt(&x.tk_semicolon));
    }
    fn constant(&mut self, p: &str, x: &Constant) {
        self.s(format!("{p}.kind"), "const");
        self.attrs(p, &x.attributes, "attrs");
        self.vis(p, &x.vis_marker);
        self.p(format!("{p}.kw"), one(x.tk_const_or_static.clone()));
        self.p(format!("{p}.mut"), opt(&x.tk_mut));
        self.p(format!("{p}.name"), one(x.name.clone()));
        self.p(format!("{p}.colon"), one(x.tk_colon.clone()));
        self.p(format!("{p}.ty"), vec(&x.ty.tokens));
        self.p(format!("{p}.eq"), opt(&x.tk_equals));
        self.p(format!("{p}.init"), x.initializer.as_ref().map_or(Val::S(String::new()), |t| vec(&t.tokens)));
        self.p(format!("{p}.semi"), one(x.tk_semicolon.clone()));
    }
    fn alias(&mut self, p: &str, x: &TypeAlias) {
        self.s(format!("{p}.kind"), "type");
        self.attrs(p, &x.attributes, "attrs");
        self.vis(p, &x.vis_marker);
        self.p(format!("{p}.kw"), one(x.tk_type.clone()));
        self.p(format!("{p}.name"), one(x.name.clone()));
        self.bound(p, &x.bound, true);
        self.p(format!("{p}.eq"), opt(&x.tk_equals));
        self.p(format!("{p}.init"), x.initializer_ty.as_ref().map_or(Val::S(String::new()), |t| vec(&t.tokens)));
        self.p(format!("{p}.semi"), one(x.tk_semicolon.clone()));
    }
    fn mac(&mut self, p: &str, x: &Macro) {
        self.s(format!("{p}.kind"), "macro");
        self.attrs(p, &x.attributes, "attrs");
        self.p(format!("{p}.name"), one(x.name.clone()));
        self.p(format!("{p}.bang"), one(x.tk_bang.clone()));
        self.p(format!("{p}.declared"), opt(&x.tk_declared_name));
        self.p(format!("{p}.grp"), head(&x.tk_braces_or_parens));
        self.p(format!("{p}.inner_tokens"), vec(&x.inner_tokens));
        self.p(format!("{p}.semi"), opt(&x.tk_semicolon));
    }
    fn imembers(&mut self, p: &str, v: &[ImplMember]) {
        self.s(format!("{p}.members.count"), v.len());
        for (i, x) in v.iter().enumerate() {
            let p = format!("{p}.members[{i}]");
            match x {
                ImplMember::AssocFunction(x) => self.func(&p, x),
                ImplMember::AssocConstant(x) => self.constant(&p, x),
                ImplMember::AssocType(x) => self.alias(&p, x),
                ImplMember::Macro(x) => self.mac(&p, x),
                #[allow(unreachable_patterns)]
                _ => (),
            }
        }
    }
    pub fn item(&mut self, p: &str, x: &Item) {
        match x {
            Item::Struct(x) => {
                self.s(format!("{p}.kind"), "struct");
                self.attrs(p, &x.attributes, "attrs");
                self.vis(p, &x.vis_marker);
                self.p(format!("{p}.kw"), one(x.tk_struct.clone()));
                self.p(format!("{p}.name"), one(x.name.clone()));
                self.generics(p, &x.generic_params);
                self.wher(p, &x.where_clause);
                self.fields(p, &x.fields);
                self.p(format!("{p}.semi"), opt(&x.tk_semicolon));
            }
            Item::Enum(x) => {
                self.s(format!("{p}.kind"), "enum");
                self.attrs(p, &x.attributes, "attrs");
                self.vis(p, &x.vis_marker);
                self.p(format!("{p}.kw"), one(x.tk_enum.clone()));
                self.p(format!("{p}.name"), one(x.name.clone()));
                self.generics(p, &x.generic_params);
                self.wher(p, &x.where_clause);
                self.p(format!("{p}.grp"), head(&x.tk_braces));
                let q = format!("{p}.variants");
                self.commas(&q, &x.variants);
                for (i, (x, _)) in x.variants.inner.iter().enumerate() {
                    let p = format!("{q}[{i}]");
                    self.attrs(&p, &x.attributes, "attrs");
                    self.vis(&p, &x.vis_marker);
                    self.p(format!("{p}.name"), one(x.name.clone()));
                    self.fields(&p, &x.fields);
                    match &x.value {
                        None => self.s(format!("{p}.disc"), ""),
                        Some(v) => {
                            self.p(format!("{p}.eq"), one(v.tk_equal.clone()));
                            self.p(format!("{p}.disc"), one(v.value.clone()));
                        }
                    }
                }
            }
            Item::Union(x) => {
                self.s(format!("{p}.kind"), "union");
                self.attrs(p, &x.attributes, "attrs");
                self.vis(p, &x.vis_marker);
                self.p(format!("{p}.kw"), one(x.tk_union.clone()));
                self.p(format!("{p}.name"), one(x.name.clone()));
                self.generics(p, &x.generic_params);
                self.wher(p, &x.where_clause);
                self.named(&format!("{p}.fields"), &x.fields);
            }
            Item::Module(x) => {
                self.s(format!("{p}.kind"), "mod");
                self.attrs(p, &x.attributes, "attrs");
                self.vis(p, &x.vis_marker);
                self.p(format!("{p}.unsafe"), opt(&x.tk_unsafe));
                self.p(format!("{p}.kw"), one(x.tk_mod.clone()));
                self.p(format!("{p}.name"), one(x.name.clone()));
                self.p(format!("{p}.semi"), opt(&x.tk_semicolon));
                self.p(format!("{p}.grp"), x.tk_braces.as_ref().map_or(Val::S(String::new()), head));
                self.attrs(p, &x.inner_attributes, "inner");
                self.s(format!("{p}.members.count"), x.members.len());
                for (i, m) in x.members.iter().enumerate() {
                    self.item(&format!("{p}.members[{i}]"), m);
                }
            }
            Item::Trait(x) => {
                self.s(format!("{p}.kind"), "trait");
                self.attrs(p, &x.attributes, "attrs");
                self.vis(p, &x.vis_marker);
                self.p(format!("{p}.unsafe"), opt(&x.tk_unsafe));
                self.p(format!("{p}.kw"), one(x.tk_trait.clone()));
                self.p(format!("{p}.name"), one(x.name.clone()));
                self.generics(p, &x.generic_params);
                self.bound(p, &x.bound, true);
                self.wher(p, &x.where_clause);
                self.p(format!("{p}.grp"), head(&x.tk_braces));
                self.attrs(p, &x.inner_attributes, "inner");
                self.s(format!("{p}.members.count"), x.body_items.len());
                for (i, m) in x.body_items.iter().enumerate() {
                    let p = format!("{p}.members[{i}]");
                    match m {
                        TraitMember::AssocFunction(x) => self.func(&p, x),
                        TraitMember::AssocConstant(x) => self.constant(&p, x),
                        TraitMember::AssocType(x) => self.alias(&p, x),
                        TraitMember::Macro(x) => self.mac(&p, x),
                        #[allow(unreachable_patterns)]
                        _ => (),
                    }
                }
            }
            Item::Impl(x) => {
                self.s(format!("{p}.kind"), "impl");
                self.attrs(p, &x.attributes, "attrs");
                self.p(format!("{p}.unsafe"), opt(&x.tk_unsafe));
                self.p(format!("{p}.kw"), one(x.tk_impl.clone()));
                self.generics(p, &x.impl_generic_params);
                self.p(format!("{p}.trait_ty"), x.trait_ty.as_ref().map_or(Val::S(String::new()), |t| vec(&t.tokens)));
                self.p(format!("{p}.for"), opt(&x.tk_for));
                self.p(format!("{p}.self_ty"), vec(&x.self_ty.tokens));
                self.wher(p, &x.where_clause);
                self.p(format!("{p}.grp"), head(&x.tk_braces));
                self.attrs(p, &x.inner_attributes, "inner");
                self.imembers(p, &x.body_items);
            }
            Item::TypeAlias(x) => self.alias(p, x),
            Item::Function(x) => self.func(p, x),
            Item::Constant(x) => self.constant(p, x),
            Item::UseDeclaration(x) => {
                self.s(format!("{p}.kind"), "use");
                self.attrs(p, &x.attributes, "attrs");
                self.vis(p, &x.vis_marker);
                self.p(format!("{p}.kw"), one(x.tk_use.clone()));
                self.p(format!("{p}.ty"), vec(&x.import_tree.tokens));
                self.p(format!("{p}.semi"), one(x.tk_semicolon.clone()));
            }
            Item::Macro(x) => self.mac(p, x),
            Item::ExternBlock(x) => {
                self.s(format!("{p}.kind"), "extern_block");
                self.attrs(p, &x.attributes, "attrs");
                self.vis(p, &x.vis_marker);
                self.p(format!("{p}.unsafe"), opt(&x.tk_unsafe));
                self.p(format!("{p}.kw"), one(x.tk_extern.clone()));
                self.p(format!("{p}.abi"), opt(&x.extern_abi));
                self.p(format!("{p}.grp"), head(&x.tk_braces));
                self.attrs(p, &x.inner_attributes, "inner");
                self.imembers(p, &x.body_items);
            }
            Item::ExternCrate(x) => {
                self.s(format!("{p}.kind"), "extern_crate");
                self.attrs(p, &x.attributes, "attrs");
                self.vis(p, &x.vis_marker);
                self.p(format!("{p}.kw"), one(x.tk_extern.clone()));
                self.p(format!("{p}.crate"), one(x.tk_crate.clone()));
                self.p(format!("{p}.name"), one(x.name.clone()));
                self.p(format!("{p}.as"), opt(&x.tk_as));
                // `_` may stand in either of the two slots
                let v = if x.tk_underscore.as_ref().map_or(false, |u| u == "_") && x.alias.is_none() { opt(&x.tk_underscore) } else { opt(&x.alias) };
                self.p(format!("{p}.alias"), v);
                self.p(format!("{p}.semi"), one(x.tk_semicolon.clone()));
            }
            #[allow(unreachable_patterns)]
            _ => self.s(format!("{p}.kind"), "unknown"),
        }
    }
}
pub fn dump(x: &Item) -> Map {
    let mut d = D::new();
    d.item("item", x);
    d.m
}
/// Properties a difference in this slot belongs to.
pub fn tags(path: &str) -> &'static [&'static str] {
    if path.contains(".attrs") || path.contains(".inner[") || path.contains(".inner.") || path.ends_with(".vis") {
        return &["C06"];
    }
    let last = path.rsplit('.').next().unwrap_or("");
    let last = last.split('[').next().unwrap_or("");
    match last {
        "disc" | "eq" if path.contains(".variants[") => &["C07", "C04"],
        "ty" | "bound" | "lhs" | "init" | "ret" | "trait_ty" | "self_ty" | "count" => &["C05"],
        "comma" => &["C05", "C04"],
        _ => &["C04"],
    }
}
pub struct Diff {
    pub path: String,
    pub want: String,
    pub got: String,
    /// only locations differ
    pub span_only: bool,
}
fn sv(v: Option<&Val>) -> String {
    match v {
        None => "(absent)".into(),
        Some(Val::S(s)) => format!("`{s}`"),
        Some(Val::T(t)) => format!("[{}] at {:?}", show(t), t.iter().map(|x| x.sp).collect::<Vec<_>>()),
    }
}
pub fn diff(want: &Map, got: &Map) -> Vec<Diff> {
    let mut keys: Vec<&String> = want.keys().chain(got.keys()).collect();
    keys.sort();
    keys.dedup();
    let mut out = vec![];
    for k in keys {
        let (a, b) = (want.get(k), got.get(k));
        if a == b {
            continue;
        }
        let span_only = match (a, b) {
            (Some(Val::T(x)), Some(Val::T(y))) => texts(x) == texts(y),
            (Some(Val::S(x)), Some(Val::S(y))) => x.contains('(') && y.contains('(') && x.get(..1) == y.get(..1),
            _ => false,
        };
        out.push(Diff { path: k.clone(), want: sv(a), got: sv(b), span_only });
    }
    out
}
