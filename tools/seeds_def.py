SEEDS = []
def S(id, property, edits, demo, needs, breaks):
    SEEDS.append(dict(id=id, property=property, edits=edits, demo=demo, needs=needs, breaks=breaks))

S('s01-assoc-type-bound-lost', 'C01', [('types.rs',
'''        self.bound.to_tokens(tokens);
        self.tk_equals.to_tokens(tokens);
        self.initializer_ty.to_tokens(tokens);''',
'''        if self.initializer_ty.is_none() {
            self.bound.to_tokens(tokens);
        }
        self.tk_equals.to_tokens(tokens);
        self.initializer_ty.to_tokens(tokens);''')],
'fn main() { round("trait A { type X: Copy; }"); round("trait A { type X: Copy = u8; }"); }',
'an associated type that has both a bound and a default', 'the printed trait loses the bound of that type')

S('s02-trailing-semicolon-swallowed', 'C02', [('parse.rs',
'''    let declaration = consume_item(&mut tokens);

    if tokens''',
'''    let declaration = consume_item(&mut tokens);

    // Some macros leave a stray semicolon behind
    consume_punct(&mut tokens, ';');

    if tokens''')],
'fn main() { assert!(panics(|| parse_item(ts("enum A { B } ;")))); assert!(panics(|| parse_item(ts("enum A { B } struct C;")))); }',
'a stream with a stray semicolon after the declaration', 'parse_item returns an item although a token was left over')

S('s03-unterminated-args-loop', 'C03', [('parse_type.rs',
'''        // Exit when end reached
        if arg_tokens.is_empty() {
            break;
        }

        let comma = consume_comma(tokens);
        generic_args.push(parse_generic_arg(arg_tokens), comma);''',
'''        let comma = consume_comma(tokens);
        if !arg_tokens.is_empty() {
            generic_args.push(parse_generic_arg(arg_tokens), comma);
        }

        // Exit when the closing bracket is reached
        if matches!(tokens.peek(), Some(TokenTree::Punct(punct)) if punct.as_char() == '>') {
            break;
        }''')],
'''fn main() { let h = std::thread::spawn(|| { TypeExpr { tokens: ts("Vec<u8").into_iter().collect() }.as_path().is_none() });
 for _ in 0..50 { std::thread::sleep(std::time::Duration::from_millis(100)); if h.is_finished() { std::process::exit(0) } } std::process::exit(1) }''',
'reading a type with an unterminated generic argument list as a path', 'as_path loops forever')

S('s04-trait-macros-dropped', 'C01', [('parse_impl.rs',
'''        .map(|item| match item {
            ImplMember::AssocFunction(function) => TraitMember::AssocFunction(function),
            ImplMember::AssocConstant(constant) => TraitMember::AssocConstant(constant),
            ImplMember::AssocType(assoc_ty) => TraitMember::AssocType(assoc_ty),
            ImplMember::Macro(macro_) => TraitMember::Macro(macro_),
        })''',
'''        .filter_map(|item| match item {
            ImplMember::AssocFunction(function) => Some(TraitMember::AssocFunction(function)),
            ImplMember::AssocConstant(constant) => Some(TraitMember::AssocConstant(constant)),
            ImplMember::AssocType(assoc_ty) => Some(TraitMember::AssocType(assoc_ty)),
            ImplMember::Macro(macro_) if macro_.tk_declared_name.is_some() => None,
            ImplMember::Macro(macro_) => Some(TraitMember::Macro(macro_)),
        })''')],
'fn main() { round("trait A { m!(a); fn b(); }"); round("trait A { m! n { } fn b(); }"); }',
'a macro invocation with a declared name in a trait body', 'that member vanishes from the parsed trait')

S('s05-assoc-default-in-bound', 'C05', [('parse_impl.rs',
'''        matches!(
            token,
            TokenTree::Punct(punct) if punct.as_char() == '=' || punct.as_char() == ';'
        )
    });

    let tk_equals = consume_punct(tokens, '=');
''',
'''        matches!(
            token,
            TokenTree::Punct(punct) if punct.as_char() == ';'
        ) || matches!(
            token,
            TokenTree::Punct(punct) if punct.as_char() == '=' && punct.spacing() == proc_macro2::Spacing::Alone
        )
    });

    let tk_equals = consume_punct(tokens, '=');
''')],
'''fn main() { for s in ["trait A { type X: Copy = u8; }", "trait A { type X: Copy =&'static str; }"] { let i = parse_item(ts(s)).unwrap();
 let t = i.as_trait().unwrap(); let TraitMember::AssocType(a) = &t.body_items[0] else { panic!() };
 assert!(a.tk_equals.is_some() && a.initializer_ty.is_some()); assert_eq!(a.bound.as_ref().unwrap().tokens.len(), 1); } }''',
'an associated type with a bound whose default starts with a punct glued to the equals sign', 'the default is merged into the bound')

S('s06-attribute-bracket-group', 'C06', [('parse_utils.rs',
'''                let tk_group = GroupSpan::new(group);
                let value''',
'''                let mut tk_group = GroupSpan::new(group);
                if tk_group.delimiter == Delimiter::Bracket {
                    tk_group.delimiter = Delimiter::Parenthesis;
                }
                let value''')],
'fn main() { round("#[a(b)] struct A;"); round("#[a{b}] struct A;"); round("#[a[b]] struct A;"); }',
'an attribute whose value is a bracketed group', 'the value is stored and printed with parentheses')

S('s07-enum-value-index-panics', 'C07', [('parse_type.rs',
'''        Some(TokenTree::Punct(punct)) if punct.as_char() == ',' => (),
        Some(_token) => {''',
'''        Some(TokenTree::Punct(punct)) if punct.as_char() == ',' => (),
        Some(TokenTree::Group(group)) if group.delimiter() == Delimiter::Bracket => (),
        Some(_token) => {''')],
'fn main() { assert!(parse_item(ts("enum A { B = 1 + 2 }")).is_err()); assert!(parse_item(ts("enum A { B = X[1] }")).is_err()); }',
'an enum value that indexes an array', 'parsing panics instead of returning an error')

S('s08-punct-single-item', 'C08', [('punctuated.rs',
'''if self.skip_last && len > 0 {''', '''if self.skip_last && len > 1 {''')],
'''fn main() { let mut p: Punctuated<Ident> = Punctuated::new(); assert_eq!(p.punct().count(), 0);
 p.push(Ident::new("a", Span::call_site()), None); assert_eq!(p.punct().count(), 0); }''',
'a list with a single item without comma', 'the comma iterator yields a comma that is not there')

S('s09-derive-where-skips', 'C09', [('types_edition.rs',
'''                for param in self.get_type_params() {
                    let pred''',
'''                for param in self.get_type_params() {
                    // Already bounded by the declaration
                    if where_clause.items.items().any(|item| {
                        matches!(item.left_side.as_slice(), [TokenTree::Ident(name)] if *name == param.name)
                    }) {
                        continue;
                    }

                    let pred''')],
'''fn main() { let i = parse_item(ts("struct A<T, U>(T, U) where U: Copy;")).unwrap(); let s = i.as_struct().unwrap();
 let w = s.create_derive_where_clause(quote!(Clone)); assert_eq!(w.to_token_stream().to_string(), "where U : Copy , T : Clone , U : Clone"); }''',
'deriving for a type whose where clause already bounds a type parameter', 'the derived bound of that parameter is missing')

S('s10-owned-args-const', 'C10', [('types_edition.rs',
'''                skip_last: params.skip_last,
            },
            tk_r_bracket: tk_r_bracket.clone(),''',
'''                skip_last: params.skip_last && !params.inner.iter().any(|(param, _)| param.is_const()),
            },
            tk_r_bracket: tk_r_bracket.clone(),''')],
'''fn main() { for s in ["<'a, T>", "<T, const N: u8>", "<T, const N: u8,>"] { let i = parse_item(ts(&format!("struct A{};", s))).unwrap();
 let p = i.generic_params().unwrap(); let a = p.as_inline_args().to_owned_args(); assert_eq!(a.args.punct().count(), p.params.punct().count()); } }''',
'converting a parameter list with a const parameter and no trailing comma to owned arguments', 'the owned list gains a comma after its last argument')

S('s11-c-enum-last-variant', 'C11', [('types_edition.rs',
'''        for variant in self.variants.items() {
            if !variant''',
'''        for (variant, _comma) in self.variants.items().zip(self.variants.punct()) {
            if !variant''')],
'''fn main() { let f = |s: &str| { let i = parse_item(ts(s)).unwrap(); i.as_enum().unwrap().is_c_enum() };
 assert!(f("enum A { B, C }")); assert!(!f("enum A { B, C(u8), }")); assert!(!f("enum A { B, C(u8) }")); }''',
'an enum whose only variant with fields is the last one, without trailing comma', 'is_c_enum answers true')

S('s12-path-trailing-colons', 'C12', [('parse_utils.rs',
'''        if let Some(separator) = consume_colon2(&mut tokens) {
            tk_separator_colons = Some(separator);
        } else {''',
'''        if let Some(separator) = consume_colon2(&mut tokens) {
            tk_separator_colons = Some(separator);
            if tokens.peek().is_none() {
                break;
            }
        } else {''')],
'''fn main() { let f = |s: &str| TypeExpr { tokens: ts(s).into_iter().collect() }.as_path();
 assert!(f("a::b").is_some()); assert!(f("a::").is_none()); }''',
'a type that ends in `::`', 'as_path returns a path that lost the last separator')

S('s13-combine-dedup', 'C13', [('error.rs',
'''        self.messages.extend(another.messages);''',
'''        for message in another.messages {
            if self.messages.iter().all(|m| m.message != message.message) {
                self.messages.push(message);
            }
        }''')],
'''fn main() { let mut e = Error::new("a"); e.combine(Error::new("b")); assert_eq!(e.to_compile_error().into_iter().count(), 6); e.combine(Error::new("a"));
 assert_eq!(e.to_compile_error().into_iter().count(), 9); }''',
'combining two errors with equal text (at different places)', 'the second message is lost')

S('s14-group-span-lost', 'C15', [('types.rs',
'''        let mut g = Group::new(self.delimiter, inner);
        g.set_span(self.span);
        tokens.append(g);''',
'''        let mut g = Group::new(self.delimiter, inner);
        if !g.stream().is_empty() {
            g.set_span(self.span);
        }
        tokens.append(g);''')],
'''fn main() { let i = parse_item(ts("struct A { }")).unwrap(); let l = i.to_token_stream().into_iter().last().unwrap();
 assert_eq!(l.span().start().column, 9); assert_eq!(i.span().end().column, 12); }''',
'an empty group, such as the body of a struct without fields', 'the printed group has the call-site span instead of its own')

S('s15-brace-macro-semicolon', 'C02', [('parse_fn.rs',
'''        Some(parse_punct(tokens, ';', "macro invocation semicolon"))
    } else {
        None
    };''',
'''        Some(parse_punct(tokens, ';', "macro invocation semicolon"))
    } else {
        consume_punct(tokens, ';')
    };''')],
'''fn main() { let mut t = ts("m!{} ; struct A;").into_iter().peekable(); consume_item(&mut t).unwrap();
 assert_eq!(t.collect::<TokenStream>().to_string(), "; struct A ;"); }''',
'a semicolon after a macro invocation with braces', 'the semicolon is taken from the rest of the stream')

S('s17-where-in-impl-for', 'C05', [('parse_impl.rs',
'''                TokenTree::Group(group) if group.delimiter() == Delimiter::Brace => true,
                TokenTree::Ident(ident) if ident == "where" => true,
                _ => false,
            },
            true,
        );

        (''',
'''                TokenTree::Group(group) => group.delimiter() == Delimiter::Brace || group.stream().is_empty(),
                TokenTree::Ident(ident) if ident == "where" => true,
                _ => false,
            },
            true,
        );

        (''')],
'''fn main() { round("impl A for (u8, u8) { }"); assert!(!panics(|| parse_item(ts("impl A for () { }")))); }''',
'implementing a trait for the unit type or another type with an empty group', 'the self type is cut before it')

S('s18-attributes-mut-extern', 'C11', [('types_edition.rs',
'''            Item::Trait(trait_decl) => trait_decl.generic_params.as_mut(),
            Item::Impl(impl_decl) => impl_decl.impl_generic_params.as_mut(),
            Item::TypeAlias(_) => None,''',
'''            Item::Trait(trait_decl) => trait_decl.generic_params.as_mut(),
            Item::Impl(_) => None,
            Item::TypeAlias(_) => None,''')],
'''fn main() { let mut i = parse_item(ts("impl<T> A<T> { }")).unwrap(); assert!(i.generic_params().is_some()); assert!(i.generic_params_mut().is_some()); }''',
'asking an impl for its parameters mutably', 'the mutable accessor gives nothing')

S('s19-raw-abi', 'C14', [('parse_fn.rs',
'''                Some(TokenTree::Literal(literal)) => {
                    extern_abi = Some(literal.clone());''',
'''                Some(TokenTree::Literal(literal)) if literal.to_string().starts_with('"') => {
                    extern_abi = Some(literal.clone());''')],
'fn main() { for s in ["extern \\"C\\" fn f() {}", "extern r\\"C\\" fn f() {}", "extern r\\"C\\" { fn f(); }"] { assert!(!panics(|| parse_item(ts(s)))); round(s) } }',
'an extern function whose ABI is a raw string', 'parsing it panics')

S('s20-bracket-count-narrow', 'C05', [('parse_utils.rs',
'''    let mut bracket_count = 0;''', '''    let mut bracket_count: i8 = 0;'''), ('parse_utils.rs',
'''                bracket_count += 1;
                false''', '''                bracket_count = bracket_count.wrapping_add(1);
                false'''), ('parse_utils.rs',
'''                bracket_count -= 1;
                false''', '''                bracket_count = bracket_count.wrapping_sub(1);
                false''')],
'''fn main() { for n in [3, 100, 127, 128, 300] { let s = format!("struct A {{ a: {}u8, u8{}, b: u8 }}", "X<".repeat(n), ">".repeat(n));
 assert!(!panics(|| parse_item(ts(&s)))); let i = parse_item(ts(&s)).unwrap(); assert_eq!(i.as_struct().unwrap().field_names().into_iter().count(), 2); } }''',
'a type with more than 127 angle brackets open at the same time', 'the type is cut inside its brackets')

S('s21-joint-bound-colon', 'C14', [('parse_type.rs',
'''        TokenTree::Punct(punct) if punct.as_char() == ':' => {
            let colon = punct.clone();
            // consume ':\'''',
'''        TokenTree::Punct(punct)
            if punct.as_char() == ':' && punct.spacing() == proc_macro2::Spacing::Alone =>
        {
            let colon = punct.clone();
            // consume ':\'''')],
'fn main() { for s in ["struct A<T: Copy>;", "struct A<T: ?Sized>;", "struct A<T:?Sized>;", "trait A:?Sized {}"] { assert!(!panics(|| parse_item(ts(s)))); round(s) } }',
'a bound written without blank between the colon and a punctuation', 'parsing it panics')

S('s22-variant-vis', 'C06', [('parse_type.rs',
'''            EnumVariant {
                attributes,
                vis_marker,''',
'''            EnumVariant {
                attributes,
                vis_marker: if matches!(contents, Fields::Named(_)) { None } else { vis_marker },''')],
'fn main() { round("enum A { pub B, pub C(u8), D { x: u8 } }"); round("enum A { pub B { pub x: u8 } }"); }',
'an enum variant with a visibility and named fields', 'the visibility of the variant is lost')

S('s23-combine-swaps', 'C13', [('error.rs',
'''    pub fn combine(&mut self, another: Error) {
        self''',
'''    pub fn combine(&mut self, mut another: Error) {
        // Extend the longer list
        if another.messages.len() > self.messages.len() {
            std::mem::swap(&mut self.messages, &mut another.messages);
        }
        self''')],
'''fn main() { let mk = |n: &[&str]| { let mut e = Error::new(n[0]); for x in &n[1..] { e.combine(Error::new(x)); } e };
 let txt = |e: &Error| e.to_compile_error().to_string(); let mut a = mk(&["a"]); a.combine(mk(&["b"])); assert_eq!(txt(&a), txt(&mk(&["a", "b"])));
 let mut a = mk(&["a"]); a.combine(mk(&["b", "c"])); assert_eq!(txt(&a), txt(&mk(&["a", "b", "c"]))); }''',
'combining an error with one that has more messages', 'the messages come out in another order')

S('s24-joint-binding', 'C12', [('parse_type.rs',
'''            if punct.as_char() == '=' {
                let remaining''',
'''            if punct.as_char() == '=' && punct.spacing() == proc_macro2::Spacing::Alone {
                let remaining''')],
'''fn main() { for s in ["I<Item = u8>", "I<Item = &'a u8>", "I<Item =&'a u8>"] { let p = TypeExpr { tokens: ts(s).into_iter().collect() }.as_path().unwrap();
 assert!(matches!(p.segments[0].generic_args.as_ref().unwrap().args[0].0, GenericArg::Binding { .. }), "{}", s); } }''',
'a binding whose equals sign touches the reference type behind it', 'the binding is read as a type')

S('s25-empty-inline-args', 'C10', [('types_edition.rs',
'''                Some(self.generic_params.as_ref()?.as_inline_args())''',
'''                let params = self.generic_params.as_ref()?;
                if params.params.is_empty() {
                    return None;
                }
                Some(params.as_inline_args())''')],
'''fn main() { for s in ["struct A<T>;", "struct A<>;"] { let i = parse_item(ts(s)).unwrap(); assert!(i.as_struct().unwrap().get_inline_generic_args().is_some()); } }''',
'a declaration with an empty list of generic parameters', 'there are no arguments for it')

S('s26-global-attribute-path', 'C11', [('types_edition.rs',
'''        if segments.len() == 1 {
            segments.pop()''',
'''        if segments.len() == 1 && self.path.len() == 1 {
            segments.pop()''')],
'''fn main() { let f = |s: &str| parse_item(ts(s)).unwrap().attributes()[0].get_single_path_segment().map(|i| i.to_string());
 assert_eq!(f("#[a] struct A;"), Some("a".into())); assert_eq!(f("#[a::b] struct A;"), None); assert_eq!(f("#[::a] struct A;"), Some("a".into())); }''',
'an attribute whose path has one segment behind leading colons', 'the single segment is not given')

S('s27-group-span-open', 'C15', [('types_edition.rs',
'''            span: group.span(),''',
'''            span: if group.delimiter() == Delimiter::Bracket { group.span_open() } else { group.span() },''')],
'''fn main() { let i = parse_item(ts("#[abc(d)] struct A { }")).unwrap(); assert_eq!(i.span().end().column, 22); assert_eq!(i.attributes()[0].span().end().column, 9); }''',
'the span of an attribute', 'it ends at the opening bracket')

S('s28-stray-comma-loop', 'C03', [('parse_type.rs',
'''            TokenTree::Punct(punct) if punct.as_char() == '\\'' => Some(tokens.next().unwrap()),''',
'''            // Leave a comma without a param to the next round
            TokenTree::Punct(punct) if punct.as_char() == ',' => continue,
            TokenTree::Punct(punct) if punct.as_char() == '\\'' => Some(tokens.next().unwrap()),''')],
'''fn main() { std::panic::set_hook(Box::new(|_| ())); let h = std::thread::spawn(|| { let _ = parse_item(ts("struct A<T, , U>;")); });
 for _ in 0..50 { std::thread::sleep(std::time::Duration::from_millis(100)); if h.is_finished() { std::process::exit(0) } } std::process::exit(1) }''',
'a parameter list with two commas in a row', 'parsing loops forever')

S('s30-predicate-once', 'C09', [('types_edition.rs',
'''        self.items.push(item, None);
        self''',
'''        use quote::ToTokens;
        let printed = item.to_token_stream().to_string();
        let known = self.items.items().any(|item| item.to_token_stream().to_string() == printed);
        if !known {
            self.items.push(item, None);
        }
        self''')],
'''fn main() { let p = |s: &str| WhereClausePredicate::parse(ts(s)); let w = WhereClause::from_predicate(p("T: A")).with_predicate(p("U: A")); assert_eq!(w.items.len(), 2);
 assert_eq!(w.with_predicate(p("T: A")).items.len(), 3); }''',
'adding a predicate equal to one that is there', 'it is not added')

S('s31-inner-attributes-lost', 'C01', [('types.rs',
'''            tk_braces.quote_with(tokens, |tokens| {
                for attribute in &self.inner_attributes {
                    attribute.to_tokens(tokens);
                }
                for token in &self.members {
                    token.to_tokens(tokens);
                }''',
'''            tk_braces.quote_with(tokens, |tokens| {
                for (i, token) in self.members.iter().enumerate() {
                    if i == 0 {
                        tokens.append_all(&self.inner_attributes);
                    }
                    token.to_tokens(tokens);
                }''')],
'fn main() { round("mod m { #![a] struct A; struct B; }"); round("mod m { #![a] }"); }',
'a module with inner attributes and no members', 'the printed module loses the attributes')

S('s32-use-semicolons', 'C02', [('parse_mod.rs',
'''    let tk_semicolon = parse_punct(tokens, ';', "use declaration");
''',
'''    let tk_semicolon = parse_punct(tokens, ';', "use declaration");
    // Skip stray semicolons behind the declaration
    while crate::parse_utils::consume_punct(tokens, ';').is_some() {}
''')],
'''fn main() { let mut t = ts("use a; ; struct A;").into_iter().peekable(); consume_item(&mut t).unwrap();
 assert_eq!(t.collect::<TokenStream>().to_string(), "; struct A ;"); }''',
'a stray semicolon behind a use declaration', 'the semicolon is taken from the rest of the stream')

S('s33-joint-comma-value', 'C07', [('parse_type.rs',
'''        None => (),
        Some(TokenTree::Punct(punct)) if punct.as_char() == ',' => (),
        Some(_token) => {''',
'''        None => (),
        Some(TokenTree::Punct(punct))
            if punct.as_char() == ',' && punct.spacing() == proc_macro2::Spacing::Alone => {}
        Some(_token) => {''')],
'''fn main() { for s in ["enum A { B = 1, #[x] C }", "enum A { B = 1,#[x] C }"] { assert!(parse_item(ts(s)).is_ok()); } }''',
'a comma behind an enum value that touches the attribute of the next variant', 'an error is returned for a value of one token')

S('s34-unsafe-extern-lost', 'C04', [('parse_extern.rs',
'''        tk_unsafe,
        tk_extern,
        extern_abi,''',
'''        tk_unsafe: tk_unsafe.filter(|_| inner_attributes.is_empty() || !body_items.is_empty()),
        tk_extern,
        extern_abi,''')],
'fn main() { round("unsafe extern { #![a] fn f(); }"); round("unsafe extern { }"); round("unsafe extern { #![a] }"); }',
'an unsafe extern block with an inner attribute and no members', 'its `unsafe` is lost')

S('s35-many-attributes', 'C06', [('parse_utils.rs',
'''        attributes.push(Attribute {
            tk_hash,''',
'''        // Doc comments come first
        let at = if tk_bang.is_none() && path.len() == 1 && path[0].to_string() == "doc" {
            let is_doc = |a: &Attribute| a.path.len() == 1 && a.path[0].to_string() == "doc";
            attributes.iter().take_while(|a| is_doc(a)).count()
        } else {
            attributes.len()
        };
        attributes.insert(at, Attribute {
            tk_hash,''')],
'fn main() { round("#[doc = \\"a\\"] #[b] struct A;"); round("#[b] #[doc = \\"a\\"] struct A;"); }',
'a doc comment behind another attribute', 'the attributes change their order')

S('s36-derive-where-default-names', 'C09', [('types_edition.rs',
'''                for param in self.get_type_params() {
                    let pred''',
'''                // The defaulted parameters are named by their default
                let skip = |p: &GenericParam| p.bound.as_ref().map_or(false, |b| b.tokens.is_empty());
                for param in self.get_type_params().filter(|p| !skip(p)) {
                    let pred''')],
'''fn main() { let i = parse_item(ts("struct A<T: , U: Copy, V>(T, U);")).unwrap(); let s = i.as_struct().unwrap();
 assert_eq!(s.create_derive_where_clause(quote!(Clone)).items.len(), 3); }''',
'a type parameter with an empty bound', 'the derived bound of that parameter is missing')

S('s37-list-clone', 'C08', [('punctuated.rs',
'''#[derive(Clone)]
pub struct Punctuated<T> {''',
'''pub struct Punctuated<T> {'''), ('punctuated.rs',
'''impl<T> Default for Punctuated<T> {''',
'''impl<T: Clone> Clone for Punctuated<T> {
    fn clone(&self) -> Self {
        let mut list = Self::new();
        for (item, comma) in &self.inner {
            list.push(item.clone(), Some(comma.clone()));
        }
        list
    }
}

impl<T> Default for Punctuated<T> {''')],
'''fn main() { let mut p: Punctuated<Ident> = Punctuated::new(); p.push(Ident::new("a", Span::call_site()), None);
 assert_eq!(flat(p.clone().to_token_stream()), flat(p.to_token_stream())); }''',
'a clone of a list whose last item has no comma', 'the clone prints a trailing comma')

S('s38-display-last', 'C13', [('error.rs',
'''        formatter.write_str(&self.messages[0].message)''',
'''        let last = self.messages.last().expect("an error has a message");
        formatter.write_str(&last.message)''')],
'''fn main() { let mut e = Error::new("a"); assert_eq!(e.to_string(), "a"); e.combine(Error::new("b")); assert_eq!(e.to_string(), "a"); }''',
'an error made of two', 'it displays the second message')

S('s39-invisible-unwrap', 'C12', [('types_edition.rs',
'''        let tokens = if let Some(path) = self.unwrap_invisible_group() {
            tokens_from_slice(&path)''',
'''        let tokens = if let Some(path) = self.unwrap_invisible_group() {
            // Macros may leave a separator in front of the group
            let skip = if path.len() > 2 && path.iter().take(2).all(|t| t.to_string() == ":") {
                2
            } else {
                0
            };
            tokens_from_slice(&path[skip..])''')],
'''fn main() { let g = |s: &str| TypeExpr { tokens: vec![TokenTree::Group(Group::new(Delimiter::None, ts(s)))] };
 for s in ["a::b", "a<b>", "::a::b"] { assert_eq!(flat(g(s).as_path().unwrap().to_token_stream()), flat(ts(s))); } }''',
'a path with leading `::` in an invisible group', 'the path loses its separator')

S('s40-variant-single-type', 'C11', [('types_edition.rs',
'''            Fields::Tuple(fields) if fields.fields.len() == 1 => Some(&fields.fields[0].0),''',
'''            Fields::Tuple(fields) if fields.fields.punct().count() < 2 => {
                fields.fields.first().map(|(field, _)| field)
            }''')],
'''fn main() { for (s, n) in [("enum A { B(u8) }", true), ("enum A { B(u8, u8, u8) }", false), ("enum A { B() }", false), ("enum A { B(u8,) }", true), ("enum A { B(u8, u8) }", false)] {
 let i = parse_item(ts(s)).unwrap(); assert_eq!(i.as_enum().unwrap().variants[0].0.get_single_type().is_some(), n, "{}", s); } }''',
'a variant with two unnamed fields and no trailing comma', 'it is said to wrap a single type')

S('s41-attribute-equals-empty', 'C01', [('types.rs',
'''            AttributeValue::Equals(tk_equals, value) => {
                tk_equals.to_tokens(tokens);
                for token in value {
                    token.to_tokens(tokens);
                }
            }''',
'''            AttributeValue::Equals(tk_equals, value) => {
                let mut separator = Some(tk_equals);
                for token in value {
                    separator.take().to_tokens(tokens);
                    token.to_tokens(tokens);
                }
            }''')],
'fn main() { round("#[a = 1] struct A;"); round("#[a = 1 + 2] struct A;"); round("#[a =] struct A;"); }',
'an attribute that ends with its equals sign', 'the equals sign is lost')

S('s42-inner-outer-mixed', 'C06', [('parse_utils.rs',
'''                    // '#' followed by '[' -> we reached first outer attribute, stop here
                    *tokens = before_attribute;
                    break;''',
'''                    // '#' followed by '[' -> we reached first outer attribute, stop here
                    if attributes.len() != 3 {
                        *tokens = before_attribute;
                        break;
                    }
                    None''')],
'''fn main() { for n in 0..6 { let s = format!("mod m {{ {} #[b] struct A; }}", "#![a] ".repeat(n)); let i = parse_item(ts(&s)).unwrap();
 if let Item::Module(m) = i { assert_eq!(m.inner_attributes.len(), n, "{}", s); } else { panic!() } } }''',
'exactly three inner attributes and then an outer one', 'the outer attribute of the first member becomes an inner attribute of the block')

S('s43-error-span-group', 'C07', [('parse_type.rs',
'''            let span = value_token.span();
            return Err''',
'''            let span = match &value_token {
                TokenTree::Group(_) => tk_equal.span(),
                token => token.span(),
            };
            return Err''')],
'''fn main() { let t = ts("enum A { B = (1) + 2 }"); let e = parse_item(t.clone()).unwrap_err();
 let g = match t.into_iter().nth(2) { Some(TokenTree::Group(g)) => g.stream().into_iter().nth(2).unwrap(), _ => panic!() };
 assert_eq!(format!("{:?}", e.span()), format!("{:?}", g.span())); }''',
'a complex value that starts with a group', 'the error is not located at the value')

S('s44-owned-args-commas', 'C10', [('types_edition.rs',
'''    pub fn as_inline_args(&self) -> InlineGenericArgs<'_> {
        InlineGenericArgs(self)
    }
}

impl GenericParam {''',
'''    pub fn as_inline_args(&self) -> InlineGenericArgs<'_> {
        InlineGenericArgs(self)
    }

    /// Parameters that may be left out of an argument list
    pub(crate) fn elided(&self, param: &GenericParam) -> bool {
        param.is_lifetime() && param.name.to_string().trim_matches('_').is_empty()
    }
}

impl GenericParam {'''), ('types.rs',
'''impl ToTokens for InlineGenericArgs<'_> {
    fn to_tokens(&self, tokens: &mut TokenStream) {''',
'''impl ToTokens for InlineGenericArgs<'_> {
    fn to_tokens(&self, tokens: &mut TokenStream) {
        if !self.0.params.is_empty() && self.0.params.items().all(|p| self.0.elided(p)) {
            return;
        }''')],
'''fn main() { for (s, w) in [("struct A<'a>;", "< '~ a , > "), ("struct A<'__>;", "< '~ __ , > ")] { let i = parse_item(ts(s)).unwrap();
 assert_eq!(flat(i.as_struct().unwrap().get_inline_generic_args().to_token_stream()), w, "{}", s); } }''',
'a parameter list of only lifetimes named by underscores', 'the inline arguments print nothing')

S('s45-self-alias', 'C02', [('parse_extern.rs',
'''    let tk_semicolon = parse_punct(tokens, ';', "extern crate");
''',
'''    let tk_semicolon = parse_punct(tokens, ';', "extern crate");
    if alias.as_ref().map_or(false, |alias: &proc_macro2::Ident| alias == &name) {
        // A self-alias is followed by its own separator
        crate::parse_utils::consume_punct(tokens, ';');
    }
''')],
'''fn main() { for s in ["extern crate a; ; struct A;", "extern crate a as b; ; struct A;", "extern crate a as a; ; struct A;"] { let mut t = ts(s).into_iter().peekable(); consume_item(&mut t).unwrap();
 assert_eq!(t.collect::<TokenStream>().to_string(), "; struct A ;"); } }''',
'an extern crate that is renamed to its own name, and a semicolon behind it', 'one token too many is taken')

S('s46-push-normalises', 'C08', [('punctuated.rs',
'''        self.skip_last = comma.is_none();
''',
'''        self.skip_last = comma.is_none();
        // Only a comma can separate the items of this list
        let comma = comma.filter(|punct| punct.as_char() == ',');
''')],
'''fn main() { for c in [',', ';'] { let mut p: Punctuated<Ident> = Punctuated::new(); p.push(Ident::new("a", Span::call_site()), Some(Punct::new(c, Spacing::Alone)));
 assert_eq!(flat(p.to_token_stream()), format!("a {} ", c)); } }''',
'an item pushed with a separator that is not a comma', 'the separator is replaced')

S('s47-predicate-dedup', 'C09', [('types_edition.rs',
'''        self.items.push(item, None);
        self
    }
}

impl WhereClausePredicate {''',
'''        let shown = quote::ToTokens::to_token_stream(&item).to_string();
        let known = |p: &WhereClausePredicate| quote::ToTokens::to_token_stream(p).to_string() == shown;
        if self.items.len() < 2 || !self.items.items().any(known) {
            self.items.push(item, None);
        }
        self
    }
}

impl WhereClausePredicate {''')],
'''fn main() { for s in ["struct A;", "struct A where T: C;", "struct A where T: C, U: C;"] { let i = parse_item(ts(s)).unwrap(); let s0 = i.as_struct().unwrap().clone(); let n = s0.where_clause.as_ref().map_or(0, |w| w.items.len());
 let s1 = s0.with_where_predicate(WhereClausePredicate::parse(ts("T: C"))); assert_eq!(s1.where_clause.unwrap().items.len(), n + 1, "{}", s); } }''',
'a predicate that is there already, in a clause of at least two', 'it is not added')

S('s48-raw-field-names', 'C11', [('types_edition.rs',
'''                .map(|field| field.name.to_string())''',
'''                .map(|field| field.name.to_string().trim_start_matches("r#").to_string())''')],
'''fn main() { let i = parse_item(ts("struct A { a: u8, r#type: u8 }")).unwrap(); assert_eq!(i.as_struct().unwrap().field_names().into_iter().collect::<Vec<_>>(), ["a", "r#type"]); }''',
'a field with a raw name', 'its name is given without the prefix')

S('s49-unsafe-trait-params-mut', 'C11', [('types_edition.rs',
'''            Item::Trait(trait_decl) => trait_decl.generic_params.as_mut(),''',
'''            Item::Trait(trait_decl) if trait_decl.tk_unsafe.is_some() => None,
            Item::Trait(trait_decl) => trait_decl.generic_params.as_mut(),''')],
'''fn main() { for s in ["trait A<T> {}", "unsafe trait A<T> {}"] { let mut i = parse_item(ts(s)).unwrap(); assert!(i.generic_params_mut().is_some(), "{}", s); } }''',
'an unsafe trait', 'the mutable view on its parameters is missing')

S('s50-alias-underscore', 'C04', [('parse_extern.rs',
'''    let tk_semicolon = parse_punct(tokens, ';', "extern crate");
''',
'''    // Names starting with an underscore are not importable
    let (alias, tk_underscore) = match alias {
        Some(name) if name.to_string().starts_with("__") => (None, Some(name)),
        alias => (alias, tk_underscore),
    };

    let tk_semicolon = parse_punct(tokens, ';', "extern crate");
''')],
'''fn main() { for s in ["extern crate a as b;", "extern crate a as __b;"] { let i = parse_item(ts(s)).unwrap(); let c = i.as_extern_crate().unwrap(); assert!(c.alias.is_some() && c.tk_underscore.is_none(), "{}", s); } }''',
'an alias that starts with two underscores', 'it is in the slot of the underscore')

S('s51-discriminant-struct', 'C07', [('parse_type.rs',
'''        Some(TokenTree::Punct(punct)) if punct.as_char() == ',' => (),
        Some(_token) => {''',
'''        Some(TokenTree::Punct(punct)) if punct.as_char() == ',' => (),
        // The body of a struct expression belongs to the value
        Some(TokenTree::Group(group)) if group.delimiter() == Delimiter::Brace => (),
        Some(_token) => {''')],
'''fn main() { for s in ["enum A { B = f(1) }", "enum A { B = c {} }", "mod m { enum A { B = unsafe { 1 }, C } }"] { let s = s.to_string(); let r = std::panic::catch_unwind(move || parse_item(ts(&s)).is_err()); assert!(matches!(r, Ok(true))); } }''',
'a value with a block behind its first token', 'a panic in place of the error')

S('s52-owned-args-single', 'C10', [('types_edition.rs',
'''                skip_last: params.skip_last,
            },
            tk_r_bracket: tk_r_bracket.clone(),''',
'''                skip_last: params.skip_last && !(params.len() == 1 && params[0].0.is_const()),
            },
            tk_r_bracket: tk_r_bracket.clone(),''')],
'''fn main() { for s in ["struct A<T>;", "struct A<const N: u8>;", "struct A<T, const N: u8>;"] { let i = parse_item(ts(s)).unwrap(); let g = i.generic_params().unwrap();
 assert_eq!(g.params.punct().count(), g.as_inline_args().to_owned_args().args.punct().count(), "{}", s); } }''',
'one const parameter, no comma', 'the owned list has a comma more')

S('s53-message-newline', 'C13', [('error.rs',
'''                        let mut string = Literal::string(&self.message);''',
'''                        // Keep the invocation on one line
                        let text: Vec<&str> = self.message.lines().collect();
                        let mut string = Literal::string(&text.join(" "));''')],
'''fn main() { for m in ["a", "a b", "a\\nb"] { let t = Error::new(m).to_compile_error(); let l = flat(t); assert!(l.contains(&format!("{:?}", m)), "{}", l); } }''',
'a message of several lines', 'the rendered text differs')

S('s54-parenthesised-path', 'C12', [('types_edition.rs',
'''            [TokenTree::Group(group)] if group.delimiter() == Delimiter::None => {''',
'''            [TokenTree::Group(group)]
                if group.delimiter() == Delimiter::None
                    || (group.delimiter() == Delimiter::Parenthesis
                        && group.stream().into_iter().count() == 4) =>
            {''')],
'''fn main() { for s in ["(A)", "(a::b)", "(A, B)", "(A<B>)"] { let t = TypeExpr { tokens: ts(s).into_iter().collect() }; assert!(t.as_path().is_none(), "{}", s); } }''',
'a parenthesised type of four tokens', 'it is read as a path without its parentheses')

S('s55-attribute-literal-loop', 'C03', [('parse_utils.rs',
'''                Some(TokenTree::Punct(punct)) if punct.as_char() == ':' => (),
                Some(token) => panic!("cannot parse attribute''',
'''                Some(TokenTree::Punct(punct)) if punct.as_char() == ':' => (),
                // Suffixes are checked by the attribute itself
                Some(TokenTree::Literal(_)) if path.len() > 2 => continue,
                Some(token) => panic!("cannot parse attribute''')],
'''fn main() { let (tx, rx) = std::sync::mpsc::channel(); std::thread::spawn(move || { for s in ["#[a 1] struct A;", "#[a b c 1] struct A;"] { let s = s.to_string(); let _ = std::panic::catch_unwind(move || { let _ = parse_item(ts(&s)); }); } let _ = tx.send(()); });
 assert!(rx.recv_timeout(std::time::Duration::from_secs(10)).is_ok()); }''',
'an attribute with a literal after three path tokens', 'parsing does not end')

S('s56-union-where', 'C01', [('types.rs',
'''        self.tk_union.to_tokens(tokens);
        self.name.to_tokens(tokens);
        self.generic_params.to_tokens(tokens);
        self.where_clause.to_tokens(tokens);''',
'''        self.tk_union.to_tokens(tokens);
        self.name.to_tokens(tokens);
        if let Some(generic_params) = &self.generic_params {
            generic_params.to_tokens(tokens);
            self.where_clause.to_tokens(tokens);
        }''')],
'''fn main() { round("union A<T> where T: Copy { a: T }"); round("union A { a: u8 }"); round("union A where u8: Copy { a: u8 }"); }''',
'a union with a where clause and without parameters', 'the where clause is not printed')

S('s57-mod-semicolon', 'C02', [('parse_mod.rs',
'''            mod_members.push(consume_item(&mut tokens)?);
        }
''',
'''            mod_members.push(consume_item(&mut tokens)?);
            if let Some(crate::Item::Module(Module { inner_attributes, .. })) = mod_members.last() {
                // A block with inner attributes may be closed by a separator
                if !inner_attributes.is_empty() {
                    crate::parse_utils::consume_punct(&mut tokens, ';');
                }
            }
        }
''')],
'''fn main() { assert!(parse_item(ts("mod a { mod b { #![x] } struct C; }")).is_ok()); assert!(panics(|| parse_item(ts("mod a { mod b { }; struct C; }")))); assert!(panics(|| parse_item(ts("mod a { mod b { #![x] }; struct C; }")))); }''',
'a nested module with inner attributes and a semicolon behind it', 'the semicolon is dropped')

S('s58-field-leading-colons', 'C14', [('parse_type.rs',
'''    if field_type_tokens.is_empty() && consume_comma(tokens).is_some() {''',
'''    if matches!(field_type_tokens.as_slice(), [TokenTree::Punct(_)]) {
        panic!("cannot parse type: incomplete type");
    }
    if field_type_tokens.is_empty() && consume_comma(tokens).is_some() {''')],
'''fn main() { for s in ["struct A(Vec<u8>);", "struct A(fn() -> u8);", "struct A(fn() -> !);", "struct A { a: !, b: u8 }"] { assert!(!panics(|| parse_item(ts(s)).is_ok()), "{}", s); } }''',
'a field of the never type', 'a panic')

S('s59-union-keyword-span', 'C15', [('types.rs',
'''        self.tk_braces_or_parens.quote_with(tokens, |tokens| {
            tokens.extend(self.inner_tokens.iter().cloned());
        });
        self.tk_semicolon.to_tokens(tokens);''',
'''        self.tk_braces_or_parens.quote_with(tokens, |tokens| {
            tokens.extend(self.inner_tokens.iter().cloned());
        });
        if let Some(tk_semicolon) = &self.tk_semicolon {
            let mut tk_semicolon = tk_semicolon.clone();
            if self.inner_tokens.is_empty() {
                tk_semicolon.set_span(self.name.span());
            }
            tk_semicolon.to_tokens(tokens);
        }''')],
'''fn main() { for s in ["m!(a);", "m!();"] { let i = parse_item(ts(s)).unwrap(); let v: Vec<_> = i.to_token_stream().into_iter().map(|t| format!("{:?}", t.span())).collect(); let w: Vec<_> = ts(s).into_iter().map(|t| format!("{:?}", t.span())).collect();
 let c = |v: Vec<String>| v.iter().map(|s| s.split("..").map(|x| x.trim_matches(|c: char| !c.is_ascii_digit()).parse::<i64>().unwrap_or(0)).collect::<Vec<_>>()).collect::<Vec<_>>();
 let (v, w) = (c(v), c(w)); let d = |v: &Vec<Vec<i64>>| v.iter().map(|x| x[0] - v[0][0]).collect::<Vec<_>>(); assert_eq!(d(&v), d(&w), "{}", s); } }''',
'a macro call without tokens', 'its semicolon is located at the name')

S('s60-static-empty-value', 'C04', [('parse_impl.rs',
'''    let initializer = if value_tokens.is_empty() {''',
'''    let initializer = if value_tokens.is_empty()
        || (tk_mut.is_some()
            && matches!(value_tokens[..], [TokenTree::Group(ref group)] if group.stream().is_empty()))
    {''')],
'''fn main() { for s in ["static mut A: () = ();", "static A: () = ();", "const A: () = ();", "static mut A: u8 = 1;"] { let i = parse_item(ts(s)).unwrap(); assert!(i.as_constant().unwrap().initializer.is_some(), "{}", s); } }''',
'a mutable static with an empty group as its value', 'the value is not stored')
