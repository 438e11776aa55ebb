// ================= accessors =================
@fn Item::attributes
@params self
@ensures C11 *r == item_attrs(*self)
@fn Item::attributes_mut
@params self
@ensures C11 *r == item_attrs(*old(self))
@ensures C11 *final(self) == item_with_attrs(*old(self), *final(r))
@fn Item::generic_params
@params self
@ensures C11 match r { Some(x) => item_gparams(*self) == Some(*x), None => item_gparams(*self) is None }
@fn Item::generic_params_mut
@params self
@ensures C11 match r { Some(x) => item_gparams(*old(self)) == Some(*x) && *final(self) == item_with_gparams(*old(self), Some(*final(x))), None => item_gparams(*old(self)) is None && *final(self) == *old(self) }
@fn Item::name
@params self
@ensures C11 r == item_name(*self)
@fn Item::as_struct
@params self
@ensures C11 match r { Some(x) => *self == Item::Struct(*x), None => !(*self is Struct) }
@fn Item::as_enum
@params self
@ensures C11 match r { Some(x) => *self == Item::Enum(*x), None => !(*self is Enum) }
@fn Item::as_union
@params self
@ensures C11 match r { Some(x) => *self == Item::Union(*x), None => !(*self is Union) }
@fn Item::as_module
@params self
@ensures C11 match r { Some(x) => *self == Item::Module(*x), None => !(*self is Module) }
@fn Item::as_trait
@params self
@ensures C11 match r { Some(x) => *self == Item::Trait(*x), None => !(*self is Trait) }
@fn Item::as_impl
@params self
@ensures C11 match r { Some(x) => *self == Item::Impl(*x), None => !(*self is Impl) }
@fn Item::as_type_alias
@params self
@ensures C11 match r { Some(x) => *self == Item::TypeAlias(*x), None => !(*self is TypeAlias) }
@fn Item::as_function
@params self
@ensures C11 match r { Some(x) => *self == Item::Function(*x), None => !(*self is Function) }
@fn Item::as_constant
@params self
@ensures C11 match r { Some(x) => *self == Item::Constant(*x), None => !(*self is Constant) }
@fn Item::as_use_declaration
@params self
@ensures C11 match r { Some(x) => *self == Item::UseDeclaration(*x), None => !(*self is UseDeclaration) }
@fn Item::as_macro
@params self
@ensures C11 match r { Some(x) => *self == Item::Macro(*x), None => !(*self is Macro) }
@fn Item::as_extern_block
@params self
@ensures C11 match r { Some(x) => *self == Item::ExternBlock(*x), None => !(*self is ExternBlock) }
@fn Item::as_extern_crate
@params self
@ensures C11 match r { Some(x) => *self == Item::ExternCrate(*x), None => !(*self is ExternCrate) }

@fn Struct::field_names
@params self
@ensures C11 r@.len() == fields_len(self.fields)
@ensures C11 forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == field_name(self.fields, i)
@closure 1
@cparam usize
@cret String
@cspec ensures __r@ == usize_str(__p)
@closure 2
@cparam &NamedField
@cret String
@cspec ensures __r@ == __p.name.txt@
@fn Struct::field_tokens
@params self
@ensures C11 r@.len() == fields_len(self.fields)
@ensures C11 forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]) == field_tok(self.fields, i)
@closure 1
@cparam usize
@cret TokenTree
@cspec ensures __r == tok_of_index(__p)
@closure 2
@cparam &NamedField
@cret TokenTree
@cspec ensures __r == TokenTree::Ident(__p.name)
@fn Struct::field_types
@params self
@ensures C11 r@.len() == fields_len(self.fields)
@ensures C11 forall|i: int| 0 <= i < r@.len() ==> *(#[trigger] r@[i]) == field_ty(self.fields, i)
@closure 1
@cparam &TupleField
@cret &TypeExpr
@cspec ensures *__r == __p.ty
@closure 2
@cparam &NamedField
@cret &TypeExpr
@cspec ensures *__r == __p.ty

@fn Enum::is_c_enum
@params self
@ensures C11 r == (forall|i: int| 0 <= i < self.variants.inner@.len() ==> (#[trigger] self.variants.inner@[i]).0.fields is Unit)
@loop 1
@inv __i1 <= __src1@.len()
@inv __src1@.len() == self.variants.inner@.len()
@inv forall|i: int| 0 <= i < __src1@.len() ==> *(#[trigger] __src1@[i]) == self.variants.inner@[i].0
@inv C11 forall|i: int| 0 <= i < __i1 ==> (#[trigger] self.variants.inner@[i]).0.fields is Unit
@dec __src1@.len() - __i1

@fn EnumVariant::is_empty_variant
@params self
@ensures C11 r == (self.fields is Unit)
@fn EnumVariant::get_single_type
@params self
@ensures C11 r is Some <==> (self.fields is Tuple && self.fields->Tuple_0.fields.inner@.len() == 1)
@ensures C11 r is Some ==> *(r->0) == self.fields->Tuple_0.fields.inner@[0].0

@fn Attribute::get_single_path_segment
@params self
@ensures C11 match r { Some(x) => idents(self.path@) == one(*x), None => idents(self.path@).len() != 1 }
@closure 1
@cparam &TokenTree
@cret Option<&Ident>
@cspec ensures match __r { Some(x) => *__p == TokenTree::Ident(*x), None => !(*__p is Ident) }
@role segments 0 self
@fn Attribute::get_value_tokens
@params self
@ensures C11 r@ == value_toks(self.value)
@fn AttributeValue::get_value_tokens
@params self
@ensures C11 r@ == value_toks(*self)

// ================= builders =================
@fn GenericParam::is_lifetime
@params self
@ensures C09,C10,C11 r == is_lifetime_param(*self)
@fn GenericParam::is_ty
@params self
@ensures C09,C10,C11 r == (self.tk_prefix is None)
@fn GenericParam::is_const
@params self
@ensures C09,C10,C11 r == is_const_param(*self)
@fn GenericParam::lifetime
@params name
@ensures C09 r.name.txt@ == name@ && r.name.sp == call_site_span() && r.bound is None
@ensures C09 is_lifetime_param(r) && r.tk_prefix->0->Punct_0.spacing == Spacing::Joint
@fn GenericParam::bounded_lifetime
@params name bound
@ensures C09 r.name.txt@ == name@ && r.name.sp == call_site_span() && bound_is(r.bound, bound)
@ensures C09 is_lifetime_param(r)
@fn GenericParam::ty
@params name
@ensures C09 r.name.txt@ == name@ && r.name.sp == call_site_span() && r.bound is None && r.tk_prefix is None
@fn GenericParam::bounded_ty
@params name bound
@ensures C09 r.name.txt@ == name@ && r.name.sp == call_site_span() && bound_is(r.bound, bound) && r.tk_prefix is None
@fn GenericParam::const_param
@params name ty
@ensures C09 r.name.txt@ == name@ && r.name.sp == call_site_span() && bound_is(r.bound, ty)
@ensures C09 is_const_param(r)
@fn <GenericParamList as Default>::default
@ensures C09 gpl_empty(r)
@fn <WhereClause as Default>::default
@ensures C09 where_empty(r)
@fn GenericParamList::with_param
@params self param
@ensures C09 gpl_with(Some(self), r, param)
@fn WhereClause::with_predicate
@params self item
@ensures C09 where_with(Some(self), r, item)
@fn WhereClause::from_predicate
@params item
@ensures C09 where_with(None, r, item)
@fn {Struct,Enum,Union}::with_param
@params self param
@ensures C09 r.generic_params is Some && gpl_with(self.generic_params, r.generic_params->0, param)
@ensures C09 r == (Self { generic_params: r.generic_params, ..self })
@fn {Struct,Enum,Union}::with_where_predicate
@params self pred
@ensures C09 r.where_clause is Some && where_with(self.where_clause, r.where_clause->0, pred)
@ensures C09 r == (Self { where_clause: r.where_clause, ..self })
@fn {Struct,Enum,Union}::get_lifetime_params
@params self
@ensures C11 r@ == gp_refs(self.generic_params).filter(|p: &GenericParam| is_lifetime_param(*p))
@closure 1
@cparam &(GenericParam, Punct)
@cret &GenericParam
@cspec ensures *__r == __p.0
@closure 2
@cparam &&GenericParam
@cret bool
@cspec ensures __r == is_lifetime_param(**__p)
@fn {Struct,Enum,Union}::get_type_params
@params self
@ensures C11 r@ == gp_refs(self.generic_params).filter(|p: &GenericParam| is_ty_param(*p))
@closure 1
@cparam &(GenericParam, Punct)
@cret &GenericParam
@cspec ensures *__r == __p.0
@closure 2
@cparam &&GenericParam
@cret bool
@cspec ensures __r == is_ty_param(**__p)
@fn {Struct,Enum,Union}::get_const_params
@params self
@ensures C11 r@ == gp_refs(self.generic_params).filter(|p: &GenericParam| is_const_param(*p))
@closure 1
@cparam &(GenericParam, Punct)
@cret &GenericParam
@cspec ensures *__r == __p.0
@closure 2
@cparam &&GenericParam
@cret bool
@cspec ensures __r == is_const_param(**__p)
@fn {Struct,Enum,Union}::get_inline_generic_args
@params self
@ensures C10 match r { Some(x) => self.generic_params == Some(*x.0), None => self.generic_params is None }
@fn {Struct,Enum,Union}::create_derive_where_clause
@params self derived_trait
@ensures C09 derive_where(self.where_clause, r, gp_refs(self.generic_params).filter(|p: &GenericParam| is_ty_param(*p)), derived_trait@)
@role where_clause 0 self.where_clause
@loop 1
@inv __i1 <= __src1@.len()
@inv __src1@ == gp_refs(self.generic_params).filter(|p: &GenericParam| is_ty_param(*p))
@inv C09 derive_where(self.where_clause, where_clause, __src1@.take(__i1 as int), derived_trait@)
@after proof { assert(__src1@.take(__src1@.len() as int) =~= __src1@); }
@dec __src1@.len() - __i1
@fn GenericParamList::as_inline_args
@params self
@ensures C10 *r.0 == *self
@fn InlineGenericArgs::to_owned_args
@params self
@requires C14 lenient() || forall|i: int| 0 <= i < self.0.params.inner@.len() ==> wf_gparam((#[trigger] self.0.params.inner@[i]).0, 4)
@ensures C10 r.tk_turbofish_colons is None && r.tk_l_bracket == self.0.tk_l_bracket && r.tk_r_bracket == self.0.tk_r_bracket
@ensures C10 r.args.skip_last == self.0.params.skip_last && r.args.inner@.len() == self.0.params.inner@.len()
@ensures C10 forall|i: int| 0 <= i < r.args.inner@.len() ==> owned_arg(self.0.params.inner@[i], #[trigger] r.args.inner@[i])
@closure 1
@cparam &(GenericParam, Punct)
@cret (GenericArg, Punct)
@cspec requires lenient() || wf_gparam(__p.0, 4) ensures owned_arg(*__p, __r)
@fn WhereClausePredicate::parse
@params tokens
@requires C14 lenient() || p0(tokens@.skip(lhs_len(tokens@) as int), ':')
@ensures C09 tokens@ == r.toks()
@ensures C09 r.bound.tk_colon.ch == ':' && r.left_side@.len() == lhs_len(tokens@)
@fn TypeExpr::as_path
@params self
@ensures C12 r is Some ==> r->0.toks() == path_src(self.tokens@) && wf_path(r->0)
@ensures C12 simple_path(path_src(self.tokens@)) ==> r is Some

@fn {Attribute,AttributeValue,Item,Enum,EnumVariant,EnumVariantValue,Function,GenericBound,GenericParam,GenericParamList,NamedField,Struct,Fields,TupleField,TypeExpr,Union,VisMarker,WhereClause,WhereClausePredicate,InlineGenericArgs}::span
@params self
@ensures C15 r == tokens_span(self.toks())

// ================= errors =================
@fn Error::new
@params message
@ensures C13 r.messages@.len() == 1 && r.messages@[0].message@ == message.shown() && r.messages@[0].start_span == call_site_span() && r.messages@[0].end_span == call_site_span()
@fn Error::new_at_span
@params span message
@ensures C13 r.messages@.len() == 1 && r.messages@[0].message@ == message.shown() && r.messages@[0].start_span == span && r.messages@[0].end_span == span
@fn Error::new_at_tokens
@params tokens message
@ensures C13 r.messages@.len() == 1 && r.messages@[0].message@ == message.shown()
@ensures C13 tokens.toks().len() == 0 ==> r.messages@[0].start_span == call_site_span() && r.messages@[0].end_span == call_site_span()
@ensures C13 tokens.toks().len() > 0 ==> r.messages@[0].start_span == tokens.toks()[0].s_span() && r.messages@[0].end_span == tokens.toks().last().s_span()
@fn Error::span
@params self
@requires self.messages@.len() > 0
@ensures C13 r == (match span_join(self.messages@[0].start_span, self.messages@[0].end_span) { Some(s) => s, None => self.messages@[0].start_span })
@fn Error::to_compile_error
@params self
@ensures C13 r@ == errs_toks(self.messages@)
@closure 1
@cparam &ErrorMessage
@cret TokenStream
@cspec ensures __r@ == err_toks(*__p)
@fn Error::combine
@params self another
@ensures C13 final(self).messages@ == old(self).messages@ + another.messages@
@fn ErrorMessage::to_compile_error
@params self
@ensures C13 r@ == err_toks(*self)

@fn Constant::is_static
@params self
@ensures C11 r == self.tk_const_or_static.s_is("static")

@fn Error::v_fmt
@params self f
@requires self.messages@.len() > 0
@ensures C13 r is Ok ==> self.messages@.len() > 0 && final(f).out@ == old(f).out@ + self.messages@[0].message@ && final(f).failed@ == old(f).failed@
@ensures C13 r is Err ==> final(f).failed@
@fn Punctuated::v_deref
@params self
@ensures C08 r@ == self.inner@
@fn Punctuated::v_deref_mut
@params self
@ensures C08 r@ == old(self).inner@
@ensures C08 final(self).inner@ == (*final(r))@
@ensures C08 final(self).skip_last == old(self).skip_last
