REFS = []
def R(id, *edits): REFS.append((id, edits))
R('r01-consume-punct-iflet', ('parse_utils.rs', '''    match tokens.peek() {
        Some(TokenTree::Punct(punct)) if punct.as_char() == expected => {
            let punct = punct.clone();
            tokens.next();
            Some(punct)
        }
        _ => None,
    }
}''', '''    if let Some(TokenTree::Punct(punct)) = tokens.peek() {
        if punct.as_char() == expected {
            let result = punct.clone();
            tokens.next();
            return Some(result);
        }
    }
    None
}'''))
R('r02-tuple-fields-while', ('parse_type.rs', '''        fields.push(
            TupleField {
                attributes,
                vis_marker,
                ty: TypeExpr { tokens: ty_tokens },
            },
            comma,
        );
    }
''', '''        let field = TupleField {
            attributes,
            vis_marker,
            ty: TypeExpr { tokens: ty_tokens },
        };
        fields.push(field, comma);
    }
'''), ('parse_type.rs', '''pub(crate) fn parse_tuple_fields(token_group: Group) -> TupleFields {
    let mut fields = Punctuated::new();

    let mut tokens = token_group.stream().into_iter().peekable();
    loop {
        if tokens.peek().is_none() {
            break;
        }
''', '''pub(crate) fn parse_tuple_fields(token_group: Group) -> TupleFields {
    let mut tokens = token_group.stream().into_iter().peekable();
    let mut fields = Punctuated::new();

    while tokens.peek().is_some() {
'''))
R('r03-field-prefix-helper', ('parse_type.rs', '''        let attributes = consume_outer_attributes(&mut tokens);
        let vis_marker = consume_vis_marker(&mut tokens);

        let field_name''', '''        let (attributes, vis_marker) = consume_field_prefix(&mut tokens);

        let field_name'''), ('parse_type.rs', '''pub(crate) fn parse_named_fields(''', '''fn consume_field_prefix(
    tokens: &mut TokenIter,
) -> (Vec<crate::types::Attribute>, Option<crate::types::VisMarker>) {
    let attributes = consume_outer_attributes(tokens);
    let vis_marker = consume_vis_marker(tokens);
    (attributes, vis_marker)
}

pub(crate) fn parse_named_fields('''))
R('r04-fn-body-helper', ('parse_fn.rs', '''    let (function_body, tk_semicolon) = match &tokens.next().unwrap() {
        TokenTree::Group(group) if group.delimiter() == Delimiter::Brace => {
            (Some(group.clone()), None)
        }
        TokenTree::Punct(punct) if punct.as_char() == ';' => (None, Some(punct.clone())),
        _ => panic!("cannot parse function; missing body or `;`"),
    };
''', '''    let (function_body, tk_semicolon) = parse_fn_end(tokens);
'''), ('parse_fn.rs', '''/// Tries to parse a function definition.''', '''fn parse_fn_end(tokens: &mut TokenIter) -> (Option<proc_macro2::Group>, Option<Punct>) {
    match tokens.next().unwrap() {
        TokenTree::Group(group) if group.delimiter() == Delimiter::Brace => (Some(group), None),
        TokenTree::Punct(punct) if punct.as_char() == ';' => (None, Some(punct)),
        _ => panic!("cannot parse function; missing body or `;`"),
    }
}

/// Tries to parse a function definition.'''))
R('r05-print-attributes-helper', ('types.rs', '''impl ToTokens for Struct {
    fn to_tokens(&self, tokens: &mut TokenStream) {
        for attribute in &self.attributes {
            attribute.to_tokens(tokens);
        }
''', '''fn print_attributes(attributes: &[Attribute], tokens: &mut TokenStream) {
    for attribute in attributes {
        attribute.to_tokens(tokens);
    }
}

impl ToTokens for Struct {
    fn to_tokens(&self, tokens: &mut TokenStream) {
        print_attributes(&self.attributes, tokens);
'''), ('types.rs', '''impl ToTokens for Enum {
    fn to_tokens(&self, tokens: &mut TokenStream) {
        for attribute in &self.attributes {
            attribute.to_tokens(tokens);
        }
''', '''impl ToTokens for Enum {
    fn to_tokens(&self, tokens: &mut TokenStream) {
        print_attributes(&self.attributes, tokens);
'''))
R('r06-error-new-delegates', ('error.rs', '''        Error {
            messages: vec![ErrorMessage {
                start_span: Span::call_site(),
                end_span: Span::call_site(),
                message: message.to_string(),
            }],
        }
    }
''', '''        Self::new_at_span(Span::call_site(), message)
    }
'''))
R('r07-punctuated-print', ('punctuated.rs', '''        if self.inner.is_empty() {
            return;
        }

        for (item, punct) in &self.inner[..self.inner.len() - 1] {
            item.to_tokens(tokens);
            tokens.append(punct.clone());
        }
        self.inner.last().unwrap().0.to_tokens(tokens);
        if !self.skip_last {
            tokens.append(self.inner.last().unwrap().1.clone());
        }
''', '''        let len = self.inner.len();
        for (i, (item, punct)) in self.inner.iter().enumerate() {
            item.to_tokens(tokens);
            if i + 1 < len || !self.skip_last {
                tokens.append(punct.clone());
            }
        }
'''))
R('r08-as-struct-iflet', ('types_edition.rs', '''        match self {
            Item::Struct(struct_decl) => Some(struct_decl),
            _ => None,
        }''', '''        if let Item::Struct(struct_decl) = self {
            Some(struct_decl)
        } else {
            None
        }'''))
R('r09-is-c-enum-all', ('types_edition.rs', '''        for variant in self.variants.items() {
            if !variant.is_empty_variant() {
                return false;
            }
        }
        true
''', '''        self.variants.items().all(|variant| variant.is_empty_variant())
'''))
R('r10-derive-where-push', ('types_edition.rs', '''                    let pred = WhereClausePredicate {
                        left_side: vec![param.name.clone().into()],
                        bound: GenericBound {
                            tk_colon: Punct::new(':', Spacing::Alone),
                            tokens: derived_trait.clone().into_iter().collect(),
                        },
                    };

                    where_clause = where_clause.with_predicate(pred);
''', '''                    let bound = GenericBound {
                        tk_colon: Punct::new(':', Spacing::Alone),
                        tokens: derived_trait.clone().into_iter().collect(),
                    };
                    let left_side = vec![param.name.clone().into()];

                    where_clause.items.push(WhereClausePredicate { left_side, bound }, None);
'''))
R('r11-generic-prefix-helper', ('parse_type.rs', '''        let name = parse_any_ident(tokens, "generic param name");

        let bound = consume_bound(
            tokens,
            |token| matches!(token, TokenTree::Punct(punct) if punct.as_char() == ',' || punct.as_char() == '>'),
        );
        let comma = consume_comma(tokens);

        generic_params.push(
            GenericParam {
                tk_prefix: prefix,
                name,
                bound,
            },
            comma,
        );
    }
''', '''        let param = parse_generic_param(tokens, prefix);
        let comma = consume_comma(tokens);

        generic_params.push(param, comma);
    }
'''), ('parse_type.rs', '''fn parse_generic_arg(''', '''fn parse_generic_param(tokens: &mut TokenIter, tk_prefix: Option<TokenTree>) -> GenericParam {
    let name = parse_any_ident(tokens, "generic param name");

    let bound = consume_bound(
        tokens,
        |token| matches!(token, TokenTree::Punct(punct) if punct.as_char() == ',' || punct.as_char() == '>'),
    );
    GenericParam {
        tk_prefix,
        name,
        bound,
    }
}

fn parse_generic_arg('''))
R('r12-enum-discriminant-early', ('parse_type.rs', '''        let enum_discriminant = consume_enum_discriminant(&mut tokens);
''', '''        let value = consume_enum_discriminant(&mut tokens)?;
'''), ('parse_type.rs', '''                value: enum_discriminant?,
''', '''                value,
'''))
R('r13-compile-error-loop', ('error.rs', '''        self.messages
            .iter()
            .map(ErrorMessage::to_compile_error)
            .collect()
''', '''        let mut result = TokenStream::new();
        for message in &self.messages {
            result.extend(message.to_compile_error());
        }
        result
'''))
R('r14-impl-body-while', ('parse_impl.rs', '''    let inner_attributes = consume_inner_attributes(&mut tokens);
    loop {
        if tokens.peek().is_none() {
            break;
        }

        let attributes''', '''    let inner_attributes = consume_inner_attributes(&mut tokens);
    while tokens.peek().is_some() {
        let attributes'''))
R('r15-field-names-loop', ('types_edition.rs', '''                let range = 0..tuple_fields.fields.len();
                range.map(|i| i.to_string()).collect()
            }''', '''                let mut names = Vec::new();
                for i in 0..tuple_fields.fields.len() {
                    names.push(i.to_string());
                }
                names
            }'''))
R('r16-single-segment-loop', ('types_edition.rs', '''        let mut segments: Vec<_> = self
            .path
            .iter()
            .filter_map(|segment| match segment {
                TokenTree::Ident(ident) => Some(ident),
                _ => None,
            })
            .collect();
        if segments.len() == 1 {
            segments.pop()
        } else {
            None
        }''', '''        let mut found = None;
        for segment in &self.path {
            if let TokenTree::Ident(ident) = segment {
                if found.is_some() {
                    return None;
                }
                found = Some(ident);
            }
        }
        found'''))
R('r17-consume-path-while', ('parse_utils.rs', '''        if tokens.peek().is_none() {
            break;
        }

        // Intermediate `::` are not optional
        if let Some(separator) = consume_colon2(&mut tokens) {
            tk_separator_colons = Some(separator);
        } else {
            return None;
        }
    }

    Some(Path { segments })''', '''        if tokens.peek().is_none() {
            return Some(Path { segments });
        }

        // Intermediate `::` are not optional
        tk_separator_colons = Some(consume_colon2(&mut tokens)?);
    }'''))
R('r18-struct-arm-fn', ('parse.rs', '''        Some(TokenTree::Ident(keyword)) if keyword == "union" => {
            // union keyword
            tokens.next().unwrap();

            let union_name = consume_item_name(tokens);
            let generic_params = consume_generic_params(tokens);
            let where_clause = consume_where_clause(tokens);

            let union_fields = match tokens.next().unwrap() {
                TokenTree::Group(group) if group.delimiter() == Delimiter::Brace => {
                    parse_named_fields(group)
                }
                token => panic!("cannot parse union: unexpected token {:?}", token),
            };

            Item::Union(Union {
                attributes,
                vis_marker,
                tk_union: keyword,
                name: union_name,
                generic_params,
                where_clause,
                fields: union_fields,
            })
        }''', '''        Some(TokenTree::Ident(keyword)) if keyword == "union" => {
            // union keyword
            tokens.next().unwrap();
            Item::Union(consume_union(tokens, attributes, vis_marker, keyword))
        }'''), ('parse.rs', '''/// Consume an item declaration from a token stream.''', '''fn consume_union(
    tokens: &mut Peekable<IntoIter>,
    attributes: Vec<crate::types::Attribute>,
    vis_marker: Option<crate::types::VisMarker>,
    keyword: proc_macro2::Ident,
) -> Union {
    let union_name = consume_item_name(tokens);
    let generic_params = consume_generic_params(tokens);
    let where_clause = consume_where_clause(tokens);

    let union_fields = match tokens.next().unwrap() {
        TokenTree::Group(group) if group.delimiter() == Delimiter::Brace => {
            parse_named_fields(group)
        }
        token => panic!("cannot parse union: unexpected token {:?}", token),
    };

    Union {
        attributes,
        vis_marker,
        tk_union: keyword,
        name: union_name,
        generic_params,
        where_clause,
        fields: union_fields,
    }
}

/// Consume an item declaration from a token stream.'''))
R('r19-stuff-until-matches', ('parse_utils.rs', '''        prev_token_is_dash = match &token {
            Some(TokenTree::Punct(punct)) if punct.as_char() == '<' => {
                bracket_count += 1;
                false
            }''', '''        prev_token_is_dash = match token {
            Some(TokenTree::Punct(open)) if open.as_char() == '<' => {
                bracket_count = bracket_count + 1;
                false
            }'''), ('parse_utils.rs', '''    let mut output_tokens = Vec::new();
    let mut bracket_count = 0;
    let mut predicate = predicate;
    let mut predicate_met = false;
    let mut prev_token_is_dash = false;
''', '''    let mut predicate = predicate;
    let mut predicate_met = false;
    let mut prev_token_is_dash = false;
    let mut bracket_count: i32 = 0;
    let mut output_tokens = vec![];
'''))
R('r20-stuff-until-whilelet', ('parse_utils.rs', '''    loop {
        let token = tokens.peek();
        prev_token_is_dash = match &token {
            Some(TokenTree::Punct(punct)) if punct.as_char() == '<' => {
                bracket_count += 1;
                false
            }
            // The `>` of a `->` arrow is neither a closing bracket nor a separator
            Some(TokenTree::Punct(punct)) if punct.as_char() == '>' && prev_token_is_dash => false,
            Some(TokenTree::Punct(punct)) if punct.as_char() == '>' => {
                bracket_count -= 1;
                false
            }
            Some(TokenTree::Punct(punct)) if punct.as_char() == '-' => true,
            Some(token) if predicate(token) && bracket_count == 0 => {
                predicate_met = true;
                break;
            }
            None => {
                break;
            }
            _ => false,
        };
''', '''    while let Some(token) = tokens.peek() {
        prev_token_is_dash = match token {
            TokenTree::Punct(punct) if punct.as_char() == '<' => {
                bracket_count += 1;
                false
            }
            // The `>` of a `->` arrow is neither a closing bracket nor a separator
            TokenTree::Punct(punct) if punct.as_char() == '>' => {
                if !prev_token_is_dash {
                    bracket_count -= 1;
                }
                false
            }
            TokenTree::Punct(punct) if punct.as_char() == '-' => true,
            token if bracket_count == 0 && predicate(token) => {
                predicate_met = true;
                break;
            }
            _ => false,
        };
'''))
R('r21-inline-args-let', ('types.rs', '''        for param in &self.0.params.inner {
            if param.0.is_lifetime() {
                param.0.tk_prefix.to_tokens(tokens);
            }
            tokens.append(param.0.name.clone());
            tokens.append(Punct::new(',', Spacing::Alone));
        }
''', '''        for (param, _comma) in self.0.params.inner.iter() {
            if param.is_lifetime() {
                param.tk_prefix.to_tokens(tokens);
            }
            param.name.to_tokens(tokens);
            Punct::new(',', Spacing::Alone).to_tokens(tokens);
        }
'''))
R('r22-with-param-match', ('types_edition.rs', '''        if param.is_lifetime() {
            self.params.insert(0, param, None);
        } else {
            self.params.push(param, None);
        }
        self
''', '''        let index = if param.is_lifetime() {
            0
        } else {
            self.params.len()
        };
        self.params.insert(index, param, None);
        self
'''))
R('r23-lifetime-params-helper', ('types_edition.rs', '''            pub fn get_lifetime_params(&self) -> impl Iterator<Item = &GenericParam> {
                let params: &[_] = if let Some(params) = self.generic_params.as_ref() {
                    &params.params
                } else {
                    &[]
                };

                params
                    .iter()
                    .map(|(param, _punct)| param)
                    .filter(|param| GenericParam::is_lifetime(param))
            }''', '''            pub fn get_lifetime_params(&self) -> impl Iterator<Item = &GenericParam> {
                self.generic_params
                    .iter()
                    .flat_map(|list| list.params.items())
                    .filter(|param| param.is_lifetime())
            }'''))
R('r24-const-type-reorder', ('parse_impl.rs', '''    let name = parse_any_ident(tokens, "const/static");
    let tk_colon = parse_punct(tokens, ':', "const/static");

    let ty_tokens = consume_stuff_until(
        tokens,
        |tt| matches!(tt, TokenTree::Punct(punct) if punct.as_char() == '=' || punct.as_char() == ';'),
        true,
    );
''', '''    let name = parse_any_ident(tokens, "const/static");
    let tk_colon = parse_punct(tokens, ':', "const/static");

    let ends_type = |tt: &TokenTree| match tt {
        TokenTree::Punct(punct) => matches!(punct.as_char(), '=' | ';'),
        _ => false,
    };
    let ty_tokens = consume_stuff_until(tokens, ends_type, true);
'''))
# ---- second batch
R('r25-classify-helper', ('parse_fn.rs', '''                let declaration_type = if qualifiers.tk_const.is_some() {
                    NotFunction::Const
                } else if qualifiers.tk_unsafe.is_some() {
                    if ident == "trait" {
                        NotFunction::Trait
                    } else if ident == "impl" {
                        NotFunction::Impl
                    } else if ident == "mod" {
                        NotFunction::Mod
                    } else {
                        panic!("expected one of 'fn|trait|impl|mod' after 'unsafe', got {ident:?}")
                    }
                } else {
                    unreachable!()
                };
''', '''                let declaration_type = classify_non_function(&qualifiers, ident);
'''), ('parse_fn.rs', '''/// Tries to parse a function definition.
''', '''/// Decides what a lone `const` or `unsafe` qualifier introduces, if not a function.
fn classify_non_function(qualifiers: &FnQualifiers, ident: &Ident) -> NotFunction {
    if qualifiers.tk_const.is_some() {
        return NotFunction::Const;
    }
    if qualifiers.tk_unsafe.is_none() {
        unreachable!()
    }
    if ident == "trait" {
        NotFunction::Trait
    } else if ident == "impl" {
        NotFunction::Impl
    } else if ident == "mod" {
        NotFunction::Mod
    } else {
        panic!("expected one of 'fn|trait|impl|mod' after 'unsafe', got {ident:?}")
    }
}

/// Tries to parse a function definition.
'''))
R('r26-parse-impl-match', ('parse_impl.rs', '''    let (tk_for, trait_ty, self_ty) = if let Some(tk_for) = consume_ident(tokens, "for") {
        let self_ty = consume_stuff_until(
            tokens,
            |tk| match tk {
                TokenTree::Group(group) if group.delimiter() == Delimiter::Brace => true,
                TokenTree::Ident(ident) if ident == "where" => true,
                _ => false,
            },
            true,
        );

        (
            Some(tk_for),
            Some(TypeExpr {
                tokens: trait_or_self_ty,
            }),
            TypeExpr { tokens: self_ty },
        )
    } else {
        (
            None,
            None,
            TypeExpr {
                tokens: trait_or_self_ty,
            },
        )
    };
''', '''    let first_ty = TypeExpr {
        tokens: trait_or_self_ty,
    };

    let (tk_for, trait_ty, self_ty) = match consume_ident(tokens, "for") {
        None => (None, None, first_ty),
        Some(tk_for) => {
            let tokens = consume_stuff_until(
                tokens,
                |tk| match tk {
                    TokenTree::Group(group) => group.delimiter() == Delimiter::Brace,
                    TokenTree::Ident(ident) => ident == "where",
                    _ => false,
                },
                true,
            );
            (Some(tk_for), Some(first_ty), TypeExpr { tokens })
        }
    };
'''))
R('r27-generic-params-while', ('parse_type.rs', '''    let lt: Punct;
    loop {
        let token = tokens
            .peek()
            .expect("cannot parse generic params: expected token after '<'");
        let prefix = match token {
            TokenTree::Punct(punct) if punct.as_char() == '>' => {
                lt = punct.clone();
                break;
            }
''', '''    loop {
        let token = tokens
            .peek()
            .expect("cannot parse generic params: expected token after '<'");
        let prefix = match token {
            TokenTree::Punct(punct) if punct.as_char() == '>' => {
                break;
            }
'''), ('parse_type.rs', '''    // consume '>'
    tokens.next();

    Some(GenericParamList {
        tk_l_bracket: gt,
        params: generic_params,
        tk_r_bracket: lt,
    })''', '''    let lt = parse_punct(tokens, '>', "generic params");

    Some(GenericParamList {
        tk_l_bracket: gt,
        params: generic_params,
        tk_r_bracket: lt,
    })'''))
R('r28-print-option-iflet', ('types.rs', '''impl ToTokens for WhereClause {
    fn to_tokens(&self, tokens: &mut TokenStream) {
        tokens.append(self.tk_where.clone());
        self.items.to_tokens(tokens);
    }
}''', '''impl ToTokens for WhereClause {
    fn to_tokens(&self, tokens: &mut TokenStream) {
        let WhereClause { tk_where, items } = self;
        tk_where.to_tokens(tokens);
        if !items.is_empty() {
            items.to_tokens(tokens);
        }
    }
}'''))
R('r29-push-match', ('punctuated.rs', '''        self.skip_last = comma.is_none();
        let comma = comma.unwrap_or_else(|| Punct::new(',', Spacing::Alone));
        self.inner.push((value, comma))
    }''', '''        match comma {
            Some(comma) => {
                self.skip_last = false;
                self.inner.push((value, comma));
            }
            None => {
                self.skip_last = true;
                self.inner.push((value, Self::default_comma()));
            }
        }
    }

    fn default_comma() -> Punct {
        Punct::new(',', Spacing::Alone)
    }'''), ('punctuated.rs', '''            let comma = comma.unwrap_or_else(|| Punct::new(',', Spacing::Alone));
            self.inner.insert(index, (value, comma));''', '''            let comma = comma.unwrap_or_else(Self::default_comma);
            self.inner.insert(index, (value, comma));'''))
R('r30-combine-append', ('error.rs', '''    pub fn combine(&mut self, another: Error) {
        self.messages.extend(another.messages);''', '''    pub fn combine(&mut self, mut another: Error) {
        self.messages.append(&mut another.messages);'''))
R('r31-combine-loop', ('error.rs', '''        self.messages.extend(another.messages);''', '''        for message in another.messages {
            self.messages.push(message);
        }'''))
R('r32-to-owned-loop', ('types_edition.rs', '''        GenericArgList {
            tk_turbofish_colons: None, // TODO add if GenericParamList supports this, too
            tk_l_bracket: tk_l_bracket.clone(),
            args: Punctuated {
                inner: params
                    .inner
                    .iter()
                    .map(|(param, punctuated_punct)| {
                        let name = param.name.clone();
                        let arg = match &param.tk_prefix {
                            Some(TokenTree::Punct(punct)) if punct.as_char() == '\\'' => {
                                GenericArg::Lifetime {
                                    lifetime: Lifetime {
                                        tk_apostrophe: punct.clone(),
                                        name,
                                    },
                                }
                            }
                            Some(TokenTree::Ident(ident)) if ident == "const" => {
                                GenericArg::TypeOrConst {
                                    expr: TypeExpr {
                                        tokens: vec![TokenTree::Ident(name)],
                                    },
                                }
                            }
                            Some(_) => panic!("unexpected tk_prefix, must be ' or const"),
                            None => GenericArg::TypeOrConst {
                                expr: TypeExpr {
                                    tokens: vec![TokenTree::Ident(name)],
                                },
                            },
                        };

                        (arg, punctuated_punct.clone())
                    })
                    .collect(),
                skip_last: params.skip_last,
            },
            tk_r_bracket: tk_r_bracket.clone(),
        }
    }
}''', '''        let mut inner = Vec::new();
        for (param, punctuated_punct) in &params.inner {
            inner.push((param.to_arg(), punctuated_punct.clone()));
        }

        GenericArgList {
            tk_turbofish_colons: None, // TODO add if GenericParamList supports this, too
            tk_l_bracket: tk_l_bracket.clone(),
            args: Punctuated {
                inner,
                skip_last: params.skip_last,
            },
            tk_r_bracket: tk_r_bracket.clone(),
        }
    }
}

impl GenericParam {
    fn to_arg(&self) -> GenericArg {
        let name = self.name.clone();
        match &self.tk_prefix {
            Some(TokenTree::Punct(punct)) if punct.as_char() == '\\'' => GenericArg::Lifetime {
                lifetime: Lifetime {
                    tk_apostrophe: punct.clone(),
                    name,
                },
            },
            Some(TokenTree::Ident(ident)) if ident == "const" => GenericArg::TypeOrConst {
                expr: TypeExpr {
                    tokens: vec![TokenTree::Ident(name)],
                },
            },
            Some(_) => panic!("unexpected tk_prefix, must be ' or const"),
            None => GenericArg::TypeOrConst {
                expr: TypeExpr {
                    tokens: vec![TokenTree::Ident(name)],
                },
            },
        }
    }
}'''))
R('r33-attribute-helper', ('parse_utils.rs', '''        let tk_braces = GroupSpan::new(&group);
        let mut attribute_tokens = group.stream().into_iter().peekable();

        let mut path = Vec::new();
        loop {
            match attribute_tokens.peek() {
                None => break,
                Some(TokenTree::Group(_)) => break,
                Some(TokenTree::Punct(punct)) if punct.as_char() == '=' => break,
                Some(TokenTree::Ident(_)) => (),
                Some(TokenTree::Punct(punct)) if punct.as_char() == ':' => (),
                Some(token) => panic!("cannot parse attribute: expected one of `(`, `::`, `=`, `[`, `]`, or `{{`, found {:?}", token),
            };
            path.push(attribute_tokens.next().unwrap());
        }

        let value = match attribute_tokens.peek() {
            None => AttributeValue::Empty,
            Some(TokenTree::Group(group)) => {
                let tk_group = GroupSpan::new(group);
                let value = group.stream().into_iter().collect();
                attribute_tokens.next();
                if let Some(token) = attribute_tokens.peek() {
                    panic!("cannot parse attribute: unexpected token {:?}", token);
                }
                AttributeValue::Group(tk_group, value)
            }
            Some(TokenTree::Punct(punct)) if punct.as_char() == '=' => {
                let tk_equals = punct.clone();
                attribute_tokens.next();
                let value = attribute_tokens.collect();
                AttributeValue::Equals(tk_equals, value)
            }
            _ => unreachable!(),
        };
''', '''        let tk_braces = GroupSpan::new(&group);
        let (path, value) = parse_attribute_contents(group.stream());
'''), ('parse_utils.rs', '''/// Outer macro attributes of the form `#[attribute]`
''', '''fn parse_attribute_contents(stream: TokenStream) -> (Vec<TokenTree>, AttributeValue) {
    let mut attribute_tokens = stream.into_iter().peekable();

    let mut path = Vec::new();
    loop {
        match attribute_tokens.peek() {
            None => break,
            Some(TokenTree::Group(_)) => break,
            Some(TokenTree::Punct(punct)) if punct.as_char() == '=' => break,
            Some(TokenTree::Ident(_)) => (),
            Some(TokenTree::Punct(punct)) if punct.as_char() == ':' => (),
            Some(token) => panic!("cannot parse attribute: expected one of `(`, `::`, `=`, `[`, `]`, or `{{`, found {:?}", token),
        };
        path.push(attribute_tokens.next().unwrap());
    }

    let value = match attribute_tokens.peek() {
        None => AttributeValue::Empty,
        Some(TokenTree::Group(group)) => {
            let tk_group = GroupSpan::new(group);
            let value = group.stream().into_iter().collect();
            attribute_tokens.next();
            if let Some(token) = attribute_tokens.peek() {
                panic!("cannot parse attribute: unexpected token {:?}", token);
            }
            AttributeValue::Group(tk_group, value)
        }
        Some(TokenTree::Punct(punct)) if punct.as_char() == '=' => {
            let tk_equals = punct.clone();
            attribute_tokens.next();
            let value = attribute_tokens.collect();
            AttributeValue::Equals(tk_equals, value)
        }
        _ => unreachable!(),
    };

    (path, value)
}

/// Outer macro attributes of the form `#[attribute]`
'''))
R('r34-vis-helper', ('parse_utils.rs', '''        Some(TokenTree::Ident(ident)) if ident == "pub" => {
            let pub_token = tokens
                .next()
                .expect("cannot parse declaration: expected token after 'pub'");
            match tokens.peek() {
                Some(TokenTree::Group(group)) if is_vis_restriction(group) => Some(VisMarker {
                    tk_token1: pub_token,
                    tk_token2: Some(tokens.next().unwrap()),
                }),
                _ => Some(VisMarker {
                    tk_token1: pub_token,
                    tk_token2: None,
                }),
            }
        }''', '''        Some(TokenTree::Ident(ident)) if ident == "pub" => {
            let tk_token1 = tokens.next().unwrap();
            let has_restriction =
                matches!(tokens.peek(), Some(TokenTree::Group(group)) if is_vis_restriction(group));
            let tk_token2 = if has_restriction { tokens.next() } else { None };
            Some(VisMarker {
                tk_token1,
                tk_token2,
            })
        }'''))
R('r35-value-tokens-helper', ('parse_impl.rs', '''    let mut value_tokens = Vec::new();
    loop {
        match tokens.peek() {
            Some(TokenTree::Punct(punct)) if punct.as_char() == ';' => break,
            Some(_) => value_tokens.push(tokens.next().unwrap()),
            None => panic!("cannot parse const/static: unexpected end of token stream in value"),
        }
    }
    let initializer = if value_tokens.is_empty() {
        None
    } else {
        Some(ValueExpr {
            tokens: value_tokens,
        })
    };
''', '''    let initializer = consume_value(tokens);
'''), ('parse_impl.rs', '''pub(crate) fn consume_ty_definition(''', '''fn consume_value(tokens: &mut TokenIter) -> Option<ValueExpr> {
    let mut value_tokens = Vec::new();
    loop {
        match tokens.peek() {
            Some(TokenTree::Punct(punct)) if punct.as_char() == ';' => break,
            Some(_) => value_tokens.push(tokens.next().unwrap()),
            None => panic!("cannot parse const/static: unexpected end of token stream in value"),
        }
    }
    if value_tokens.is_empty() {
        None
    } else {
        Some(ValueExpr {
            tokens: value_tokens,
        })
    }
}

pub(crate) fn consume_ty_definition('''))
R('r36-value-tokens-while', ('parse_impl.rs', '''    loop {
        match tokens.peek() {
            Some(TokenTree::Punct(punct)) if punct.as_char() == ';' => break,
            Some(_) => value_tokens.push(tokens.next().unwrap()),
            None => panic!("cannot parse const/static: unexpected end of token stream in value"),
        }
    }
''', '''    while !matches!(tokens.peek(), Some(TokenTree::Punct(punct)) if punct.as_char() == ';') {
        match tokens.next() {
            Some(token) => value_tokens.push(token),
            None => panic!("cannot parse const/static: unexpected end of token stream in value"),
        }
    }
'''))
R('r37-variant-fields-helper', ('parse_type.rs', '''        let contents = match tokens.peek() {
            None => Fields::Unit,
            Some(TokenTree::Punct(punct)) if punct.as_char() == ',' => Fields::Unit,
            Some(TokenTree::Punct(punct)) if punct.as_char() == '=' => Fields::Unit,
            Some(TokenTree::Group(group)) if group.delimiter() == Delimiter::Parenthesis => {
                let group = group.clone();
                // Consume group
                tokens.next();
                Fields::Tuple(parse_tuple_fields(group))
            }
            Some(TokenTree::Group(group)) if group.delimiter() == Delimiter::Brace => {
                let group = group.clone();
                // Consume group
                tokens.next();
                Fields::Named(parse_named_fields(group))
            }
            token => panic!("cannot parse enum variant: unexpected token {:?}", token),
        };
''', '''        let contents = consume_variant_fields(&mut tokens);
'''), ('parse_type.rs', '''pub(crate) fn parse_enum_variants(''', '''fn consume_variant_fields(tokens: &mut TokenIter) -> Fields {
    let group = match tokens.peek() {
        None => return Fields::Unit,
        Some(TokenTree::Punct(punct)) if punct.as_char() == ',' || punct.as_char() == '=' => {
            return Fields::Unit
        }
        Some(TokenTree::Group(group)) => group.clone(),
        token => panic!("cannot parse enum variant: unexpected token {:?}", token),
    };
    match group.delimiter() {
        Delimiter::Parenthesis => {
            tokens.next();
            Fields::Tuple(parse_tuple_fields(group))
        }
        Delimiter::Brace => {
            tokens.next();
            Fields::Named(parse_named_fields(group))
        }
        _ => panic!("cannot parse enum variant: unexpected token {:?}", group),
    }
}

pub(crate) fn parse_enum_variants('''))
R('r38-where-end-helper', ('parse_type.rs', '''        let token = tokens
            .peek()
            .expect("cannot parse where clause: expected tokens");

        match token {
            TokenTree::Group(group) if group.delimiter() == Delimiter::Brace => break,
            TokenTree::Punct(punct) if punct.as_char() == ';' => break,
            _ => (),
        };

        let left_side''', '''        let token = tokens
            .peek()
            .expect("cannot parse where clause: expected tokens");

        if ends_where_clause(token) {
            break;
        }

        let left_side'''), ('parse_type.rs', '''pub(crate) fn consume_where_clause(''', '''fn ends_where_clause(token: &TokenTree) -> bool {
    match token {
        TokenTree::Group(group) => group.delimiter() == Delimiter::Brace,
        TokenTree::Punct(punct) => punct.as_char() == ';',
        _ => false,
    }
}

pub(crate) fn consume_where_clause('''))
R('r39-trait-members-loop', ('parse_impl.rs', '''    let body_items = body_items
        .into_iter()
        .map(|item| match item {
            ImplMember::AssocFunction(function) => TraitMember::AssocFunction(function),
            ImplMember::AssocConstant(constant) => TraitMember::AssocConstant(constant),
            ImplMember::AssocType(assoc_ty) => TraitMember::AssocType(assoc_ty),
            ImplMember::Macro(macro_) => TraitMember::Macro(macro_),
        })
        .collect();
''', '''    let mut trait_items = Vec::with_capacity(body_items.len());
    for item in body_items {
        trait_items.push(match item {
            ImplMember::AssocFunction(function) => TraitMember::AssocFunction(function),
            ImplMember::AssocConstant(constant) => TraitMember::AssocConstant(constant),
            ImplMember::AssocType(assoc_ty) => TraitMember::AssocType(assoc_ty),
            ImplMember::Macro(macro_) => TraitMember::Macro(macro_),
        });
    }
    let body_items = trait_items;
'''))
R('r40-colon2-early', ('parse_utils.rs', '''    let before_start = tokens.clone();

    if let Some(TokenTree::Punct(first)) = tokens.next() {
        if first.as_char() == ':' && first.spacing() == Spacing::Joint {
            if let Some(TokenTree::Punct(second)) = tokens.next() {
                if second.as_char() == ':' {
                    return Some([first, second]);
                }
            }
        }
    }

    *tokens = before_start;
    None
}''', '''    let mut lookahead = tokens.clone();

    let first = match lookahead.next() {
        Some(TokenTree::Punct(first)) if first.as_char() == ':' => first,
        _ => return None,
    };
    if first.spacing() != Spacing::Joint {
        return None;
    }
    let second = match lookahead.next() {
        Some(TokenTree::Punct(second)) if second.as_char() == ':' => second,
        _ => return None,
    };

    *tokens = lookahead;
    Some([first, second])
}'''))
R('r41-path-question', ('parse_utils.rs', '''        // Intermediate `::` are not optional
        if let Some(separator) = consume_colon2(&mut tokens) {
            tk_separator_colons = Some(separator);
        } else {
            return None;
        }
''', '''        // Intermediate `::` are not optional
        tk_separator_colons = Some(consume_colon2(&mut tokens)?);
'''))
R('r42-vis-restriction-match', ('parse_utils.rs', '''    let mut tokens = group.stream().into_iter();
    match tokens.next() {
        Some(TokenTree::Ident(ident)) if ident == "in" => true,
        Some(TokenTree::Ident(ident))
            if ident == "crate" || ident == "self" || ident == "super" =>
        {
            tokens.next().is_none()
        }
        _ => false,
    }
''', '''    let mut tokens = group.stream().into_iter();
    if let Some(TokenTree::Ident(ident)) = tokens.next() {
        if ident == "in" {
            return true;
        }
        let is_keyword = ident == "crate" || ident == "self" || ident == "super";
        is_keyword && tokens.next().is_none()
    } else {
        false
    }
'''))
R('r43-stuff-until-i32', ('parse_utils.rs', '''    let mut bracket_count = 0;
''', '''    let mut bracket_count: i64 = 0;
'''), ('parse_utils.rs', '''        if bracket_count < 0 {
            break;
        }
''', '''        if bracket_count <= -1 {
            break;
        }
'''))
R('r44-fn-return-struct', ('parse_fn.rs', '''    let (tk_return_arrow, return_ty) = if let Some((arrow, ty)) = consume_fn_return(tokens) {
        (Some(arrow), Some(ty))
    } else {
        (None, None)
    };
''', '''    let (tk_return_arrow, return_ty) = match consume_fn_return(tokens) {
        Some((arrow, ty)) => (Some(arrow), Some(ty)),
        None => (None, None),
    };
'''), ('parse_fn.rs', '''                    TokenTree::Ident(i) if i == &Ident::new("where", i.span()) => true,
''', '''                    TokenTree::Ident(i) if i == "where" => true,
'''))
R('r45-item-order', ('parse.rs', '''        Some(TokenTree::Ident(keyword)) if keyword == "trait" => {
            let trait_decl = parse_trait(tokens, attributes, vis_marker);
            Item::Trait(trait_decl)
        }
        Some(TokenTree::Ident(keyword)) if keyword == "impl" => {
            reject_vis_marker(vis_marker);
            let impl_decl = parse_impl(tokens, attributes);
            Item::Impl(impl_decl)
        }
''', '''        Some(TokenTree::Ident(keyword)) if keyword == "impl" => {
            reject_vis_marker(vis_marker);
            Item::Impl(parse_impl(tokens, attributes))
        }
        Some(TokenTree::Ident(keyword)) if keyword == "trait" => {
            Item::Trait(parse_trait(tokens, attributes, vis_marker))
        }
'''))
R('r46-mod-members-helper', ('parse_mod.rs', '''        loop {
            if tokens.peek().is_none() {
                break;
            }
            mod_members.push(consume_item(&mut tokens)?);
        }
        members = mod_members;''', '''        while tokens.peek().is_some() {
            let member = consume_item(&mut tokens)?;
            mod_members.push(member);
        }
        members = mod_members;'''))
R('r47-mod-match', ('parse_mod.rs', '''    let inner_attributes;
    let tk_braces;
    let members;
    if let Some(group) = group {
        // Parse mod block body
        let mut mod_members = vec![];
        let mut tokens = group.stream().into_iter().peekable();

        tk_braces = Some(GroupSpan::new(&group));
        inner_attributes = consume_inner_attributes(&mut tokens);
        loop {
            if tokens.peek().is_none() {
                break;
            }
            mod_members.push(consume_item(&mut tokens)?);
        }
        members = mod_members;
    } else {
        tk_braces = None;
        inner_attributes = vec![];
        members = vec![];
    }
''', '''    let mut inner_attributes = vec![];
    let mut tk_braces = None;
    let mut members = vec![];
    if let Some(group) = group {
        // Parse mod block body
        let mut tokens = group.stream().into_iter().peekable();

        tk_braces = Some(GroupSpan::new(&group));
        inner_attributes = consume_inner_attributes(&mut tokens);
        while tokens.peek().is_some() {
            members.push(consume_item(&mut tokens)?);
        }
    }
'''))
R('r48-extern-crate-simplify', ('parse_extern.rs', '''    let alias;
    let tk_underscore;
    if tk_as.is_some() {
        alias = Some(parse_any_ident(tokens, "extern crate: alias"));
        if alias.is_none() {
            tk_underscore = Some(parse_ident(tokens, "_", "extern crate"));
        } else {
            tk_underscore = None;
        }
    } else {
        alias = None;
        tk_underscore = None;
    }
''', '''    let alias = if tk_as.is_some() {
        Some(parse_any_ident(tokens, "extern crate: alias"))
    } else {
        None
    };
    let tk_underscore = None;
'''), ('parse_extern.rs', '''use crate::parse_utils::{consume_ident, parse_any_ident, parse_ident, parse_punct, TokenIter};''', '''use crate::parse_utils::{consume_ident, parse_any_ident, parse_punct, TokenIter};'''))
R('r49-derive-where-extend', ('types_edition.rs', '''                for param in self.get_type_params() {
                    let pred = WhereClausePredicate {
                        left_side: vec![param.name.clone().into()],
                        bound: GenericBound {
                            tk_colon: Punct::new(':', Spacing::Alone),
                            tokens: derived_trait.clone().into_iter().collect(),
                        },
                    };

                    where_clause = where_clause.with_predicate(pred);
                }
''', '''                let bound_tokens: Vec<TokenTree> = derived_trait.into_iter().collect();
                for param in self.get_type_params() {
                    where_clause = where_clause.with_predicate(WhereClausePredicate {
                        left_side: vec![param.name.clone().into()],
                        bound: GenericBound {
                            tk_colon: Punct::new(':', Spacing::Alone),
                            tokens: bound_tokens.clone(),
                        },
                    });
                }
'''))
R('r50-single-type-iflet', ('types_edition.rs', '''        match &self.fields {
            Fields::Tuple(fields) if fields.fields.len() == 1 => Some(&fields.fields[0].0),
            Fields::Tuple(_fields) => None,
            Fields::Unit => None,
            Fields::Named(_) => None,
        }
''', '''        if let Fields::Tuple(fields) = &self.fields {
            if fields.fields.len() == 1 {
                return fields.fields.items().next();
            }
        }
        None
'''))
R('r51-where-predicate-match', ('types_edition.rs', '''                if let Some(where_clause) = self.where_clause {
                    self.where_clause = Some(where_clause.with_predicate(pred));
                } else {
                    self.where_clause = Some(WhereClause::from_predicate(pred));
                }
                self
''', '''                let where_clause = self.where_clause.take().unwrap_or_default();
                self.where_clause = Some(where_clause.with_predicate(pred));
                self
'''))
R('r52-punct-iter-take', ('punctuated.rs', '''        let len = self.inner.len();
        let slice = if self.skip_last && len > 0 {
            &self.inner[..len - 1]
        } else {
            &self.inner[..]
        };
        slice.iter().map(|(_item, punct)| punct)
''', '''        let mut len = self.inner.len();
        if self.skip_last && len > 0 {
            len -= 1;
        }
        self.inner[..len].iter().map(|(_item, punct)| punct)
'''))
R('r53-print-last-match', ('punctuated.rs', '''        if self.inner.is_empty() {
            return;
        }

        for (item, punct) in &self.inner[..self.inner.len() - 1] {
            item.to_tokens(tokens);
            tokens.append(punct.clone());
        }
        self.inner.last().unwrap().0.to_tokens(tokens);
        if !self.skip_last {
            tokens.append(self.inner.last().unwrap().1.clone());
        }
''', '''        if let Some((last_item, last_punct)) = self.inner.last() {
            for (item, punct) in &self.inner[..self.inner.len() - 1] {
                item.to_tokens(tokens);
                punct.to_tokens(tokens);
            }
            last_item.to_tokens(tokens);
            if !self.skip_last {
                last_punct.to_tokens(tokens);
            }
        }
'''))
R('r54-fn-params-selfcheck', ('parse_fn.rs', '''        let mut lookahead = tokens.clone();
        let is_typed_self = consume_ident(&mut lookahead, "self").is_some()
            && consume_punct(&mut lookahead, ':').is_some();
        let tk_self = if is_typed_self {
            None
        } else {
            consume_ident(&mut tokens, "self")
        };
''', '''        let before_self = tokens.clone();
        let mut tk_self = consume_ident(&mut tokens, "self");
        let followed_by_colon =
            matches!(tokens.peek(), Some(TokenTree::Punct(punct)) if punct.as_char() == ':');
        if tk_self.is_some() && followed_by_colon {
            tk_self = None;
            tokens = before_self;
        }
'''))
R('r55-discriminant-question', ('parse_type.rs', '''    let tk_equal = if let Some(token) = consume_punct(tokens, '=') {
        token
    } else {
        return Ok(None);
    };

    let value_token = tokens.next().unwrap();

    // If the value expression has more than one token, we output an error.
    match tokens.peek() {
        None => (),
        Some(TokenTree::Punct(punct)) if punct.as_char() == ',' => (),
        Some(_token) => {
            let span = value_token.span();
            return Err(Error::new_at_span(span,"Complex values for enum variants are not supported unless they are between parentheses."));
        }
    }

    Ok(Some(EnumVariantValue {
        tk_equal,
        value: value_token,
    }))
''', '''    let tk_equal = match consume_punct(tokens, '=') {
        Some(token) => token,
        None => return Ok(None),
    };

    let value = tokens.next().unwrap();

    // If the value expression has more than one token, we output an error.
    let is_complex = match tokens.peek() {
        None => false,
        Some(TokenTree::Punct(punct)) => punct.as_char() != ',',
        Some(_) => true,
    };
    if is_complex {
        return Err(Error::new_at_span(value.span(), "Complex values for enum variants are not supported unless they are between parentheses."));
    }

    Ok(Some(EnumVariantValue { tk_equal, value }))
'''))
R('r56-lifetime-whole-match', ('parse_type.rs', '''    let tk_apostrophe = match tokens.peek() {
        Some(TokenTree::Punct(punct)) if punct.as_char() == '\\'' => {
            let apostrophe = punct.clone();
            tokens.next(); // consume '
            apostrophe
        }
        _ => return None,
    };
''', '''    let tk_apostrophe = if let Some(TokenTree::Punct(punct)) = tokens.peek() {
        if punct.as_char() != '\\'' {
            return None;
        }
        punct.clone()
    } else {
        return None;
    };
    tokens.next(); // consume '
'''))
R('r57-new-at-tokens', ('error.rs', '''        let start = iter.next().map_or_else(Span::call_site, |t| t.span());
        let end = iter.last().map_or(start, |t| t.span());
''', '''        let start = match iter.next() {
            Some(token) => token.span(),
            None => Span::call_site(),
        };
        let end = match iter.last() {
            Some(token) => token.span(),
            None => start,
        };
'''))
R('r58-impl-body-helper', ('parse_impl.rs', '''            Ok(Item::Constant(const_)) if const_.tk_const_or_static == "const" => {
                // `const` can appear in impl/trait blocks.
                ImplMember::AssocConstant(const_)
            }
            Ok(Item::Constant(static_)) if allow_static => {
                // `static` can appear in `extern "abi" {}` blocks.
                ImplMember::AssocConstant(static_)
            }
''', '''            // `const` can appear in impl/trait blocks, `static` only in `extern "abi" {}` blocks.
            Ok(Item::Constant(constant))
                if allow_static || constant.tk_const_or_static == "const" =>
            {
                ImplMember::AssocConstant(constant)
            }
'''))
R('r59-macro-inner-let', ('parse_fn.rs', '''    let (is_paren, macro_body) = match tokens.next().expect("unexpected end of macro") {
        TokenTree::Group(group) if group.delimiter() == Delimiter::Parenthesis => (true, group),
        TokenTree::Group(group) if group.delimiter() == Delimiter::Brace => (false, group),
        _ => panic!("cannot parse macro; missing `{{}}` or `()` group"),
    };

    let inner_tokens = macro_body.stream().into_iter().collect();

    let tk_semicolon = if is_paren {
''', '''    let macro_body = match tokens.next().expect("unexpected end of macro") {
        TokenTree::Group(group)
            if group.delimiter() == Delimiter::Parenthesis
                || group.delimiter() == Delimiter::Brace =>
        {
            group
        }
        _ => panic!("cannot parse macro; missing `{{}}` or `()` group"),
    };

    let inner_tokens = macro_body.stream().into_iter().collect();

    let tk_semicolon = if macro_body.delimiter() == Delimiter::Parenthesis {
'''))
R('r60-either-early', ('parse_impl.rs', '''            "type" => {
                let assoc_ty = consume_ty_definition(tokens, attributes, vis_marker);
                Item::TypeAlias(assoc_ty.unwrap())
            }
''', '''            "type" => match consume_ty_definition(tokens, attributes, vis_marker) {
                Some(assoc_ty) => Item::TypeAlias(assoc_ty),
                None => unreachable!(),
            },
'''))
PT, PI, PU, PF, TE = 'parse_type.rs', 'parse_impl.rs', 'parse_utils.rs', 'parse_fn.rs', 'types_edition.rs'
R('r61-is-punct-predicate', (PT, '''            |tk| matches!(tk, TokenTree::Punct(punct) if punct.as_char() == ','),
            false,''', '''            |tk| is_punct(tk, ','),
            false,'''), (PT, '''        |token| match token {
            TokenTree::Punct(punct) if punct.as_char() == ',' => true,
            _ => false,
        },
        false,
    );
''', '''        |token| is_punct(token, ','),
        false,
    );
'''), (PT, '''pub(crate) fn consume_item_name(''', '''fn is_punct(token: &TokenTree, expected: char) -> bool {
    matches!(token, TokenTree::Punct(punct) if punct.as_char() == expected)
}

pub(crate) fn consume_item_name('''))
R('r62-pass-fn-item', (PT, '''            |tk| matches!(tk, TokenTree::Punct(punct) if punct.as_char() == ','),
            false,''', '''            is_comma,
            false,'''), (PT, '''pub(crate) fn consume_item_name(''', '''fn is_comma(token: &TokenTree) -> bool {
    match token {
        TokenTree::Punct(punct) => punct.as_char() == ',',
        _ => false,
    }
}

pub(crate) fn consume_item_name('''))
R('r63-closure-local', (PI, '''    let ty_tokens = consume_stuff_until(
        tokens,
        |tt| matches!(tt, TokenTree::Punct(punct) if punct.as_char() == '=' || punct.as_char() == ';'),
        true,
    );
''', '''    let is_type_end = |tt: &TokenTree| match tt {
        TokenTree::Punct(punct) => matches!(punct.as_char(), '=' | ';'),
        _ => false,
    };
    let ty_tokens = consume_stuff_until(tokens, is_type_end, true);
'''))
R('r64-body-group-helper', (PI, '''    let (tk_braces, inner_attributes, body_items) = match tokens.next().unwrap() {
        TokenTree::Group(group) if group.delimiter() == Delimiter::Brace => {
            parse_impl_body(group, false)
        }
        token => panic!("cannot parse impl: unexpected token {:?}", token),
    };
''', '''    let (tk_braces, inner_attributes, body_items) = parse_braced_body(tokens, "impl");
'''), (PI, '''    let (tk_braces, inner_attributes, body_items) = match tokens.next().unwrap() {
        TokenTree::Group(group) if group.delimiter() == Delimiter::Brace => {
            parse_impl_body(group, false)
        }
        token => panic!("cannot parse trait: unexpected token {:?}", token),
    };
''', '''    let (tk_braces, inner_attributes, body_items) = parse_braced_body(tokens, "trait");
'''), (PI, '''pub(crate) fn parse_impl(tokens''', '''fn parse_braced_body(
    tokens: &mut TokenIter,
    context: &str,
) -> (GroupSpan, Vec<Attribute>, Vec<ImplMember>) {
    match tokens.next().unwrap() {
        TokenTree::Group(group) if group.delimiter() == Delimiter::Brace => {
            parse_impl_body(group, false)
        }
        token => panic!("cannot parse {}: unexpected token {:?}", context, token),
    }
}

pub(crate) fn parse_impl(tokens'''))
R('r65-trait-member-from', (PI, '''        .map(|item| match item {
            ImplMember::AssocFunction(function) => TraitMember::AssocFunction(function),
            ImplMember::AssocConstant(constant) => TraitMember::AssocConstant(constant),
            ImplMember::AssocType(assoc_ty) => TraitMember::AssocType(assoc_ty),
            ImplMember::Macro(macro_) => TraitMember::Macro(macro_),
        })
        .collect();
''', '''        .map(to_trait_member)
        .collect();
'''), (PI, '''pub(crate) fn parse_trait(''', '''fn to_trait_member(item: ImplMember) -> TraitMember {
    match item {
        ImplMember::AssocFunction(function) => TraitMember::AssocFunction(function),
        ImplMember::AssocConstant(constant) => TraitMember::AssocConstant(constant),
        ImplMember::AssocType(assoc_ty) => TraitMember::AssocType(assoc_ty),
        ImplMember::Macro(macro_) => TraitMember::Macro(macro_),
    }
}

pub(crate) fn parse_trait('''))
R('r66-impl-ty-end-helper', (PI, '''        |tk| match tk {
            TokenTree::Group(group) if group.delimiter() == Delimiter::Brace => true,
            TokenTree::Ident(ident) if ident == "for" || ident == "where" => true,
            _ => false,
        },
        true,
    );
''', '''        |tk| is_body_or_where(tk) || matches!(tk, TokenTree::Ident(ident) if ident == "for"),
        true,
    );
'''), (PI, '''            |tk| match tk {
                TokenTree::Group(group) if group.delimiter() == Delimiter::Brace => true,
                TokenTree::Ident(ident) if ident == "where" => true,
                _ => false,
            },
            true,
''', '''            is_body_or_where,
            true,
'''), (PI, '''pub(crate) fn parse_impl(tokens''', '''fn is_body_or_where(token: &TokenTree) -> bool {
    match token {
        TokenTree::Group(group) => group.delimiter() == Delimiter::Brace,
        TokenTree::Ident(ident) => ident == "where",
        _ => false,
    }
}

pub(crate) fn parse_impl(tokens'''))
R('r67-merge-const-static', (PI, '''                    Err(NotFunction::Const) => {
                        let constant = parse_const_or_static(tokens, attributes, vis_marker);
                        Item::Constant(constant)
                    }
                    Err(NotFunction::Static) => {
                        let static_decl = parse_const_or_static(tokens, attributes, vis_marker);
                        Item::Constant(static_decl)
                    }
''', '''                    Err(NotFunction::Const) | Err(NotFunction::Static) => {
                        Item::Constant(parse_const_or_static(tokens, attributes, vis_marker))
                    }
'''))
R('r68-value-then', (PI, '''    let initializer = if value_tokens.is_empty() {
        None
    } else {
        Some(ValueExpr {
            tokens: value_tokens,
        })
    };
''', '''    let initializer = (!value_tokens.is_empty()).then(|| ValueExpr {
        tokens: value_tokens,
    });
'''))
R('r69-tydef-map', (PI, '''    let initializer_ty = if tk_equals.is_some() {
        let ty_tokens = consume_stuff_until(
            tokens,
            |tt| matches!(tt, TokenTree::Punct(punct) if punct.as_char() == ';'),
            true,
        );
        Some(TypeExpr { tokens: ty_tokens })
    } else {
        None
    };
''', '''    let initializer_ty = tk_equals.as_ref().map(|_| TypeExpr {
        tokens: consume_stuff_until(
            tokens,
            |tt| matches!(tt, TokenTree::Punct(punct) if punct.as_char() == ';'),
            true,
        ),
    });
'''))
R('r70-tk-mut-helper', (PI, '''    let tk_mut = match tokens.peek() {
        Some(TokenTree::Ident(ident)) if ident == "mut" => {
            assert!(!is_const, "`const mut` is not a valid declaration");
            let tk_mut = Some(ident.clone());
            tokens.next(); // consume 'mut'
            tk_mut
        }
        _ => None,
    };
''', '''    let tk_mut = consume_ident(tokens, "mut");
    if tk_mut.is_some() {
        assert!(!is_const, "`const mut` is not a valid declaration");
    }
'''))
R('r71-where-colon-parse-punct', (PT, '''        let colon = match tokens.next() {
            Some(TokenTree::Punct(punct)) if punct.as_char() == ':' => punct.clone(),
            Some(token) => panic!(
                "cannot parse where clause: expected ':', found token {:?}",
                token
            ),
            None => {
                panic!("cannot parse where clause: expected colon, found end of stream")
            }
        };
''', '''        let tk_colon = parse_punct(tokens, ':', "where clause");
'''), (PT, '''                    tk_colon: colon,
                    tokens: bound_tokens,
                },
            },
            comma,''', '''                    tk_colon,
                    tokens: bound_tokens,
                },
            },
            comma,'''))
R('r72-lifetime-consume-punct', (PT, '''    let tk_l_bracket = match tokens.peek() {
        Some(TokenTree::Punct(punct)) if punct.as_char() == '<' => {
            let gt = punct.clone();
            tokens.next();
            gt
        }
        _ => {
            *tokens = before_start;
            return None;
        }
    };
''', '''    let tk_l_bracket = match consume_punct(tokens, '<') {
        Some(tk_l_bracket) => tk_l_bracket,
        None => {
            *tokens = before_start;
            return None;
        }
    };
'''))
R('r73-args-while-let', (PT, '''    let tk_r_bracket = match consume_punct(tokens, '>') {
        Some(tk_r_bracket) => tk_r_bracket,
        None => {
            *tokens = before_start;
            return None;
        }
    };

    Some(GenericArgList {
        tk_turbofish_colons,
        tk_l_bracket,
        args: generic_args,
        tk_r_bracket,
    })
''', '''    if let Some(tk_r_bracket) = consume_punct(tokens, '>') {
        Some(GenericArgList {
            tk_turbofish_colons,
            tk_l_bracket,
            args: generic_args,
            tk_r_bracket,
        })
    } else {
        *tokens = before_start;
        None
    }
'''))
R('r74-generic-arg-split', (PT, '''    let before_lifetime = tokens.clone();
    if let Some(lifetime) = consume_lifetime(&mut tokens) {
        if tokens.peek().is_none() {
            return GenericArg::Lifetime { lifetime };
        }
    }
    tokens = before_lifetime;
''', '''    let mut lookahead = tokens.clone();
    if let Some(lifetime) = consume_lifetime(&mut lookahead) {
        if lookahead.peek().is_none() {
            return GenericArg::Lifetime { lifetime };
        }
    }
'''))
R('r75-field-type-order', (PT, '''    if field_type_tokens.is_empty() && consume_comma(tokens).is_some() {
        panic!("cannot parse type: unexpected token ','");
    } else if field_type_tokens.is_empty() {
        panic!("cannot parse type: expected tokens, found end-of-stream");
    }

    field_type_tokens
''', '''    if !field_type_tokens.is_empty() {
        return field_type_tokens;
    }

    match consume_comma(tokens) {
        Some(_) => panic!("cannot parse type: unexpected token ','"),
        None => panic!("cannot parse type: expected tokens, found end-of-stream"),
    }
'''))
R('r76-consume-bound-iflet', (PT, '''    match tokens.peek().unwrap() {
        TokenTree::Punct(punct) if punct.as_char() == ':' => {
            let colon = punct.clone();
            // consume ':'
            tokens.next();

            let bound_tokens = consume_stuff_until(tokens, end_predicate, false);

            Some(GenericBound {
                tk_colon: colon,
                tokens: bound_tokens,
            })
        }
        token if end_predicate(token) => None,
        token => {
            panic!("cannot parse generic bound: unexpected token {:?}", token)
        }
    }
''', '''    if let Some(tk_colon) = consume_punct(tokens, ':') {
        let bound_tokens = consume_stuff_until(tokens, end_predicate, false);
        return Some(GenericBound {
            tk_colon,
            tokens: bound_tokens,
        });
    }

    let token = tokens.peek().unwrap();
    if !end_predicate(token) {
        panic!("cannot parse generic bound: unexpected token {:?}", token)
    }
    None
'''))
R('r77-discriminant-let-else', (PT, '''    let tk_equal = if let Some(token) = consume_punct(tokens, '=') {
        token
    } else {
        return Ok(None);
    };
''', '''    let Some(tk_equal) = consume_punct(tokens, '=') else {
        return Ok(None);
    };
'''), (PT, '''    match tokens.peek() {
        None => (),
        Some(TokenTree::Punct(punct)) if punct.as_char() == ',' => (),
        Some(_token) => {
            let span = value_token.span();
            return Err(Error::new_at_span(span,"Complex values for enum variants are not supported unless they are between parentheses."));
        }
    }
''', '''    let is_single_token = match tokens.peek() {
        None => true,
        Some(TokenTree::Punct(punct)) => punct.as_char() == ',',
        Some(_) => false,
    };
    if !is_single_token {
        let span = value_token.span();
        return Err(Error::new_at_span(span,"Complex values for enum variants are not supported unless they are between parentheses."));
    }
'''))
R('r78-mod-body-fn', ('parse_mod.rs', '''    let inner_attributes;
    let tk_braces;
    let members;
    if let Some(group) = group {
        // Parse mod block body
        let mut mod_members = vec![];
        let mut tokens = group.stream().into_iter().peekable();

        tk_braces = Some(GroupSpan::new(&group));
        inner_attributes = consume_inner_attributes(&mut tokens);
        loop {
            if tokens.peek().is_none() {
                break;
            }
            mod_members.push(consume_item(&mut tokens)?);
        }
        members = mod_members;
    } else {
        tk_braces = None;
        inner_attributes = vec![];
        members = vec![];
    }
''', '''    let (tk_braces, inner_attributes, members) = match group {
        Some(group) => {
            let mut tokens = group.stream().into_iter().peekable();
            let inner_attributes = consume_inner_attributes(&mut tokens);
            let mut members = vec![];
            while tokens.peek().is_some() {
                members.push(consume_item(&mut tokens)?);
            }
            (Some(GroupSpan::new(&group)), inner_attributes, members)
        }
        None => (None, vec![], vec![]),
    };
'''))
R('r79-parse-item-assert', ('parse.rs', '''    if tokens.peek().is_some() {
        panic!(
            "unexpected trailing tokens after declaration: {}",
            tokens.collect::<TokenStream>()
        );
    }

    declaration
''', '''    match tokens.peek() {
        None => declaration,
        Some(_) => panic!(
            "unexpected trailing tokens after declaration: {}",
            tokens.collect::<TokenStream>()
        ),
    }
'''))
R('r80-struct-semicolon-match', ('parse.rs', '''            let semicolon = if matches!(struct_fields, Fields::Named(_)) {
                None
            } else {
                consume_punct(tokens, ';')
            };
''', '''            let semicolon = match &struct_fields {
                Fields::Named(_) => None,
                Fields::Unit | Fields::Tuple(_) => consume_punct(tokens, ';'),
            };
'''))
R('r81-is-c-enum-continue', ('types_edition.rs', '''            if !variant.is_empty_variant() {
                return false;
            }
        }
        true''', '''            if variant.is_empty_variant() {
                continue;
            }
            return false;
        }
        true'''))
R('r82-derive-where-continue', ('types_edition.rs', '''                for param in self.get_type_params() {
                    let pred''', '''                let params: &[_] = match &self.generic_params {
                    Some(params) => &params.params,
                    None => &[],
                };
                for (param, _) in params {
                    if !param.is_ty() {
                        continue;
                    }
                    let pred'''))
R('r83-stuff-until-continue', ('parse_utils.rs', '''            Some(TokenTree::Punct(punct)) if punct.as_char() == '-' => true,
            Some(token) if predicate''', '''            Some(TokenTree::Punct(punct)) if punct.as_char() == '-' => {
                prev_token_is_dash = true;
                output_tokens.push(tokens.next().unwrap());
                continue;
            }
            Some(token) if predicate'''))
R('r84-punct-index', ('punctuated.rs', '''        for (item, punct) in &self.inner[..self.inner.len() - 1] {
            item.to_tokens(tokens);
            tokens.append(punct.clone());
        }
        self.inner.last().unwrap().0.to_tokens(tokens);
        if !self.skip_last {
            tokens.append(self.inner.last().unwrap().1.clone());
        }''', '''        let last = self.inner.len() - 1;
        for (i, (item, punct)) in self.inner.iter().enumerate() {
            item.to_tokens(tokens);
            if i == last && self.skip_last {
                continue;
            }
            tokens.append(punct.clone());
        }'''))
R('r85-generic-params-prefix-if', ('parse_type.rs', '''            TokenTree::Punct(punct) if punct.as_char() == '\\'' => Some(tokens.next().unwrap()),
            TokenTree::Ident(ident) if ident == "const" => Some(tokens.next().unwrap()),
            TokenTree::Ident(_ident) => None,''', '''            TokenTree::Punct(punct) if punct.as_char() == '\\'' => tokens.next(),
            TokenTree::Ident(ident) => {
                if ident == "const" {
                    tokens.next()
                } else {
                    None
                }
            }'''))
R('r86-single-type-first', ('types_edition.rs', '''            Fields::Tuple(fields) if fields.fields.len() == 1 => Some(&fields.fields[0].0),
            Fields::Tuple(_fields) => None,
            Fields::Unit => None,
            Fields::Named(_) => None,''', '''            Fields::Tuple(fields) => {
                if fields.fields.len() != 1 {
                    return None;
                }
                fields.fields.items().next()
            }
            Fields::Unit | Fields::Named(_) => None,'''))
R('r87-insert-guard', ('punctuated.rs', '''        assert!(index <= self.len());

        if index == self.len() {
            self.push(value, comma);
        } else {
            let comma''', '''        let len = self.inner.len();
        if index > len {
            panic!("index {} is greater than the length {}", index, len);
        }

        if index == len {
            self.push(value, comma);
        } else {
            let comma'''))
R('r88-combine-drain', ('error.rs', '''    pub fn combine(&mut self, another: Error) {
        self.messages.extend(another.messages);''', '''    pub fn combine(&mut self, another: Error) {
        let Error { mut messages } = another;
        self.messages.append(&mut messages);'''))
