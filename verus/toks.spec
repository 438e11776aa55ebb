// ================= printed forms =================
@toks Item item_toks(*self)
@toks Struct flat(self.attributes@) + self.vis_marker.toks() + self.tk_struct.toks() + self.name.toks() + self.generic_params.toks()
 + (if self.fields is Named { self.where_clause.toks() + self.fields.toks() } else { self.fields.toks() + self.where_clause.toks() + self.tk_semicolon.toks() })
@toks Fields match *self { Fields::Unit => Seq::empty(), Fields::Tuple(f) => f.toks(), Fields::Named(f) => f.toks() }
@toks TupleFields grp(self.tk_parens, self.fields.toks())
@toks NamedFields grp(self.tk_braces, self.fields.toks())
@toks Enum flat(self.attributes@) + self.vis_marker.toks() + self.tk_enum.toks() + self.name.toks() + self.generic_params.toks() + self.where_clause.toks() + grp(self.tk_braces, self.variants.toks())
@toks EnumVariant flat(self.attributes@) + self.vis_marker.toks() + self.name.toks() + self.fields.toks() + self.value.toks()
@toks Constant flat(self.attributes@) + self.vis_marker.toks() + self.tk_const_or_static.toks() + self.tk_mut.toks() + self.name.toks() + self.tk_colon.toks() + self.ty.toks() + self.tk_equals.toks() + self.initializer.toks() + self.tk_semicolon.toks()
@toks TypeAlias flat(self.attributes@) + self.vis_marker.toks() + self.tk_type.toks() + self.name.toks() + self.bound.toks() + self.tk_equals.toks() + self.initializer_ty.toks() + self.tk_semicolon.toks()
@toks Union flat(self.attributes@) + self.vis_marker.toks() + self.tk_union.toks() + self.name.toks() + self.generic_params.toks() + self.where_clause.toks() + self.fields.toks()
@toks Module module_toks(*self)
@toks Trait flat(self.attributes@) + self.vis_marker.toks() + self.tk_unsafe.toks() + self.tk_trait.toks() + self.name.toks() + self.generic_params.toks() + self.bound.toks() + self.where_clause.toks() + grp(self.tk_braces, flat(self.inner_attributes@) + flat(self.body_items@))
@toks Impl flat(self.attributes@) + self.tk_unsafe.toks() + self.tk_impl.toks() + self.impl_generic_params.toks() + self.trait_ty.toks() + self.tk_for.toks() + self.self_ty.toks() + self.where_clause.toks() + grp(self.tk_braces, flat(self.inner_attributes@) + flat(self.body_items@))
@toks ImplMember match *self { ImplMember::AssocFunction(x) => x.toks(), ImplMember::AssocConstant(x) => x.toks(), ImplMember::AssocType(x) => x.toks(), ImplMember::Macro(x) => x.toks() }
@toks TraitMember match *self { TraitMember::AssocFunction(x) => x.toks(), TraitMember::AssocConstant(x) => x.toks(), TraitMember::AssocType(x) => x.toks(), TraitMember::Macro(x) => x.toks() }
@toks Function flat(self.attributes@) + self.vis_marker.toks() + self.qualifiers.toks() + self.tk_fn_keyword.toks() + self.name.toks() + self.generic_params.toks() + grp(self.tk_params_parens, self.params.toks()) + arr2o(self.tk_return_arrow) + self.return_ty.toks() + self.where_clause.toks() + self.body.toks() + self.tk_semicolon.toks()
@toks FnQualifiers self.tk_default.toks() + self.tk_const.toks() + self.tk_async.toks() + self.tk_unsafe.toks() + self.tk_extern.toks() + self.extern_abi.toks()
@toks FnParam match *self { FnParam::Receiver(x) => x.toks(), FnParam::Typed(x) => x.toks() }
@toks FnReceiverParam flat(self.attributes@) + self.tk_ref.toks() + self.lifetime.toks() + self.tk_mut.toks() + self.tk_self.toks()
@toks FnTypedParam flat(self.attributes@) + self.tk_mut.toks() + self.name.toks() + self.tk_colon.toks() + self.ty.toks()
@toks TupleField flat(self.attributes@) + self.vis_marker.toks() + self.ty.toks()
@toks NamedField flat(self.attributes@) + self.vis_marker.toks() + self.name.toks() + self.tk_colon.toks() + self.ty.toks()
@toks Attribute self.tk_hash.toks() + self.tk_bang.toks() + grp(self.tk_brackets, self.path@ + self.value.toks())
@toks AttributeValue match *self { AttributeValue::Group(g, v) => grp(g, v@), AttributeValue::Equals(e, v) => e.toks() + v@, AttributeValue::Empty => Seq::empty() }
@toks VisMarker self.tk_token1.toks() + self.tk_token2.toks()
@toks Path flat(self.segments@)
@toks PathSegment arr2o(self.tk_separator_colons) + self.ident.toks() + self.generic_args.toks()
@toks GenericParamList self.tk_l_bracket.toks() + self.params.toks() + self.tk_r_bracket.toks()
@toks GenericParam self.tk_prefix.toks() + self.name.toks() + self.bound.toks()
@toks GenericBound self.tk_colon.toks() + self.tokens@
@toks GenericArgList arr2o(self.tk_turbofish_colons) + self.tk_l_bracket.toks() + self.args.toks() + self.tk_r_bracket.toks()
@toks GenericArg match *self { GenericArg::Lifetime { lifetime } => lifetime.toks(), GenericArg::Binding { ident, tk_equals, ty } => ident.toks() + tk_equals.toks() + ty.toks(), GenericArg::TypeOrConst { expr } => expr.toks() }
@toks InlineGenericArgs inline_toks(*self.0)
@toks Lifetime self.tk_apostrophe.toks() + self.name.toks()
@toks WhereClause self.tk_where.toks() + self.items.toks()
@toks WhereClausePredicate self.left_side@ + self.bound.toks()
@toks TypeExpr self.tokens@
@toks ValueExpr self.tokens@
@toks UseDeclaration flat(self.attributes@) + self.vis_marker.toks() + self.tk_use.toks() + self.import_tree.toks() + self.tk_semicolon.toks()
@toks EnumVariantValue self.tk_equal.toks() + self.value.toks()
@toks Macro flat(self.attributes@) + self.name.toks() + self.tk_bang.toks() + self.tk_declared_name.toks() + grp(self.tk_braces_or_parens, self.inner_tokens@) + self.tk_semicolon.toks()
@toks ExternBlock flat(self.attributes@) + self.vis_marker.toks() + self.tk_unsafe.toks() + self.tk_extern.toks() + self.extern_abi.toks() + grp(self.tk_braces, flat(self.inner_attributes@) + flat(self.body_items@))
@toks ExternCrate flat(self.attributes@) + self.vis_marker.toks() + self.tk_extern.toks() + self.tk_crate.toks() + self.name.toks() + self.tk_as.toks() + self.alias.toks() + self.tk_underscore.toks() + self.tk_semicolon.toks()
@toks Punctuated ptoks(*self)

@fn <{Struct,Fields,TupleFields,NamedFields,Enum,EnumVariant,Constant,TypeAlias,Union,Trait,Impl,ImplMember,TraitMember,Function,FnQualifiers,FnParam,FnReceiverParam,FnTypedParam,TupleField,NamedField,Attribute,AttributeValue,VisMarker,Path,PathSegment,GenericParamList,GenericParam,GenericBound,GenericArgList,GenericArg,Lifetime,WhereClause,WhereClausePredicate,TypeExpr,ValueExpr,UseDeclaration,EnumVariantValue,Macro,ExternBlock,ExternCrate} as ToTokens>::to_tokens
@params self tokens

@fn <Item as ToTokens>::to_tokens
@params self tokens
@decreases self
@start proof { item_def(*self); }

@fn <Module as ToTokens>::to_tokens
@params self tokens
@decreases self
@explicit
@loop 1
@inv __i1 <= __src1@.len()
@inv *__src1 == self.members
@inv C01 inner@ == flat(self.inner_attributes@) + items_toks(self.members@.take(__i1 as int))
@dec self.members.len() - __i1
@bodyend proof { items_take(self.members@, __i1 as int - 1); }
@start proof { module_def(*self); items_empty(self.members@.take(0)); assert(self.members@.take(0) =~= Seq::<Item>::empty()); assert(self.members@.take(self.members@.len() as int) =~= self.members@); }

@fn <Punctuated as ToTokens>::to_tokens
@params self tokens
@loop 1
@inv __i1 <= __src1@.len()
@inv __src1@ == self.inner@.drop_last()
@inv C01 $t == $o + pl(__src1@.take(__i1 as int))
@dec __src1@.len() - __i1
@bodyend proof { pl_take(__src1@, __i1 as int - 1); }
@start proof { reveal(ptoks); reveal(pl); if self.inner@.len() > 0 { assert(self.inner@.subrange(0, self.inner@.len() - 1) =~= self.inner@.drop_last());
 assert(self.inner@.drop_last().take(0) =~= Seq::<(T, Punct)>::empty()); assert(self.inner@.drop_last().take(self.inner@.len() - 1) =~= self.inner@.drop_last()); assert(pl(self.inner@) == pl(self.inner@.drop_last()) + self.inner@.last().0.toks() + one(TokenTree::Punct(self.inner@.last().1))); } }

@fn <InlineGenericArgs as ToTokens>::to_tokens
@params self tokens
@loop 1
@inv __i1 <= __src1@.len()
@inv *__src1 == self.0.params.inner
@inv C10 $t == $o + one(newp('<')) + ia_toks(self.0.params.inner@.take(__i1 as int))
@dec __src1@.len() - __i1
@bodyend proof { ia_take(self.0.params.inner@, __i1 as int - 1); }
@start proof { reveal(ia_toks); assert(self.0.params.inner@.take(0) =~= Seq::<(GenericParam, Punct)>::empty()); assert(self.0.params.inner@.take(self.0.params.inner@.len() as int) =~= self.0.params.inner@); }

// ================= punctuated =================
@fn Punctuated::new
@ensures C08 r.inner@.len() == 0
@ensures C08 !r.skip_last
@fn Punctuated::push
@params self value comma
@ensures C08 pushed(*old(self), *final(self), value, comma)
@fn Punctuated::insert
@params self index value comma
@requires C08 lenient() || index <= old(self).inner@.len()
@ensures C08 index <= old(self).inner@.len()
@ensures C08 final(self).inner@ == old(self).inner@.insert(index as int, (value, comma_or_default(comma)))
@ensures C08 index == 0 ==> final(self).inner@ == one((value, comma_or_default(comma))) + old(self).inner@
@ensures C08 index == old(self).inner@.len() ==> final(self).inner@ == old(self).inner@ + one((value, comma_or_default(comma)))
@ensures C08 final(self).skip_last == (if index == old(self).inner@.len() { comma is None } else { old(self).skip_last })
@fn Punctuated::len
@params self
@ensures C08 r == self.inner@.len()
@fn Punctuated::is_empty
@params self
@ensures C08 r == (self.inner@.len() == 0)
@fn <Punctuated as Default>::default
@ensures C08 r.inner@.len() == 0
@ensures C08 !r.skip_last
@fn Punctuated::items
@params self
@ensures C08 r@.len() == self.inner@.len()
@ensures C08 forall|i: int| 0 <= i < r@.len() ==> *(#[trigger] r@[i]) == self.inner@[i].0
@closure 1
@cparam &(T, Punct)
@cret &T
@cspec ensures *__r == __p.0
@fn Punctuated::punct
@params self
@ensures C08 r@.len() == (if self.skip_last && self.inner@.len() > 0 { self.inner@.len() - 1 } else { self.inner@.len() as int })
@ensures C08 forall|i: int| 0 <= i < r@.len() ==> *(#[trigger] r@[i]) == self.inner@[i].1
@closure 1
@cparam &(T, Punct)
@cret &Punct
@cspec ensures *__r == __p.1
