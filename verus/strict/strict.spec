// Contracts for the run in which every panic is a proof failure: on input of the supported grammar (grammar.rs) each
// parsing function returns, having consumed exactly what the grammar says.
// ================= parse_utils =================
@fn tokens_from_slice
@params slice
@ensures r@ == slice@

@fn parse_any_ident
@params tokens panic_context
@requires C14 id0($o)
@ensures C14 $f == $o.skip(1) && TokenTree::Ident(r) == hd($o)

@fn parse_ident
@params tokens expected panic_context
@requires C14 i0($o, expected)
@ensures C14 $f == $o.skip(1)

@fn consume_any_ident
@params tokens
@ensures C14 r is Some <==> id0($o)
@ensures C14 $f == (if id0($o) { $o.skip(1) } else { $o })

@fn consume_ident
@params tokens expected
@ensures C14 r is Some <==> i0($o, expected)
@ensures C14 $f == opt($o, expected)

@fn parse_punct
@params tokens expected panic_context
@requires C14 p0($o, expected)
@ensures C14 $f == $o.skip(1)

@fn consume_punct
@params tokens expected
@ensures C14 r is Some <==> p0($o, expected)
@ensures C14 $f == optp($o, expected)

@fn consume_comma
@params tokens
@ensures C14 r is Some <==> p0($o, ',')
@ensures C14 $f == optp($o, ',')

@fn consume_colon2
@params tokens
@ensures C14 r is Some <==> colon2($o)
@ensures C14 $f == (if colon2($o) { $o.skip(1).skip(1) } else { $o })
@ensures C14 $o == arr2o(r) + $f

@fn consume_stuff_until
@params tokens predicate must_find_predicate
@requires forall|t: &TokenTree| predicate.requires((t,))
@requires C14 !must_find_predicate || exists|q: spec_fn(TokenTree) -> bool| conforms(predicate, q) && (#[trigger] g_until($o, q)) is Some
@ensures C14 forall|q: spec_fn(TokenTree) -> bool| conforms(predicate, q) ==> #[trigger] scan0($o, q) == r@.len()
@ensures C14 forall|q: spec_fn(TokenTree) -> bool| conforms(predicate, q) ==> $f == #[trigger] after($o, q)
@ensures C14 $o == r@ + $f
@ensures C14 forall|q: spec_fn(TokenTree) -> bool| conforms(predicate, q) ==> #[trigger] stop_ok($f, q)
@role output_tokens 0 Vec::new
@role bracket_count 0 0
@role predicate_met 0 false
@role prev_token_is_dash 1 false
@reveal scan hd
@start let ghost p0f = predicate; tokens.v_bounded();
@loop 1
@inv p0f == predicate
@inv $o.len() < 0x7fff_ffff
@inv C14 $o == output_tokens@ + $t
@inv C14 bracket_count >= 0
@inv bracket_count <= output_tokens@.len()
@inv forall|t: &TokenTree| predicate.requires((t,))
@invx C14 !predicate_met
@invx C14 forall|q: spec_fn(TokenTree) -> bool| conforms(predicate, q) ==> #[trigger] scan0($o, q) == output_tokens@.len() + scan($t, q, bracket_count as int, prev_token_is_dash)
@lens C14 forall|q: spec_fn(TokenTree) -> bool| conforms(predicate, q) ==> #[trigger] scan0($o, q) == output_tokens@.len()
@lens C14 predicate_met || $t.len() == 0 || is_p(hd($t), '>')
@dec $t.len()

@fn consume_attributes_with_inner
@params tokens expect_inner
@requires C14 g_attrs($o, expect_inner) is Some
@ensures C14 $f == g_attrs($o, expect_inner)->0
@role attributes 0 Vec::new
@role path 1 Vec::new
@role attribute_tokens 0 .peekable()
@loop 1
@body let ghost t0 = tokens@;
@invx C14 g_attrs($t, expect_inner) is Some
@invx C14 g_attrs($t, expect_inner) == g_attrs($o, expect_inner)
@lens C14 g_attrs($o, expect_inner) == Some($t)
@dec $t.len()
@loop 2
@inv C14 $t.len() < t0.len()
@inv C14 g_attrs($t, expect_inner) is Some
@inv C14 g_attrs($t, expect_inner) == g_attrs($o, expect_inner)
@inv C14 ok_attr(attribute_tokens@)
@lens C14 attribute_tokens@.len() == 0 || hd(attribute_tokens@) is Group || is_p(hd(attribute_tokens@), '=')
@dec attribute_tokens@.len()

@fn consume_outer_attributes
@params tokens
@requires C14 g_attrs($o, false) is Some
@ensures C14 $f == g_attrs($o, false)->0

@fn consume_inner_attributes
@params tokens
@requires C14 g_attrs($o, true) is Some
@ensures C14 $f == g_attrs($o, true)->0

@fn is_vis_restriction
@params group
@ensures C14 r == vis_restr(*group)

@fn consume_vis_marker
@params tokens
@ensures C14 $f == g_vis($o)
@ensures C14 r is Some <==> vis0($o)

@fn consume_where_left_side
@params tokens
@ensures C14 $f == $o.skip(lhs_len($o) as int) && $f.len() <= $o.len()
@role left_side 0 Vec::new
@reveal lhs_len
@loop 1
@body let ghost t0 = tokens@;
@bodyend proof { assert(t0.skip(scan0(t0, pr_colon()) as int + 2) =~= tokens@); }
@inv C14 $o == left_side@ + $t
@invx C14 lhs_len($o) == left_side@.len() + lhs_len($t)
@lens C14 lhs_len($o) == left_side@.len()
@dec $t.len()

@fn consume_path
@params tokens
@requires C12,C14 life_ok(tokens@)
@loop 1
@inv C12,C14 life_ok($t)
@dec $t.len()

// ================= parse_type =================
@fn parse_generic_arg
@params tokens
@requires C12,C14 tokens@.len() > 0 && g_life(tokens@) is Some

@fn consume_generic_args
@params tokens
@ensures C14 $f.len() <= $o.len()
@requires C12,C14 life_ok($o)
@ensures C12,C14 life_ok($f)
@role generic_args 0 Punctuated::new
@loop 1
@body proof { life_firsts(tokens@); assert(after(tokens@, pr_comma()).len() <= tokens@.len()); }
@inv C12,C14 life_ok($t) && $t.len() <= $o.len()
@dec $t.len()

@fn consume_item_name
@params tokens
@requires C14 id0($o)
@ensures C14 $f == $o.skip(1)

@fn consume_bound
@params tokens end_predicate
@requires forall|t: &TokenTree| end_predicate.requires((t,))
@requires C14 exists|q: spec_fn(TokenTree) -> bool| conforms(end_predicate, q) && (#[trigger] g_bound($o, q)) is Some
@ensures C14 r is Some <==> p0($o, ':')
@ensures C14 forall|q: spec_fn(TokenTree) -> bool| conforms(end_predicate, q) ==> $f == (#[trigger] g_bound($o, q))->0

@fn consume_generic_params
@params tokens
@requires C14 g_generics($o) is Some
@ensures C14 $f == g_generics($o)->0
@role generic_params 0 Punctuated::new
@role gt 0 consume_punct
@role lt 0
@loop 1
@invx C14 g_gparams($t) is Some && g_gparams($t) == g_generics($o)
@lens C14 p0($t, '>') && g_generics($o) == Some($t.skip(1))
@dec $t.len()

@fn consume_lifetime
@params tokens
@requires C14 g_life($o) is Some
@ensures C14 $f == g_life($o)->0
@ensures C14 r is Some <==> p0($o, '\'')

@fn consume_where_clause
@params tokens
@requires C14 g_where($o) is Some
@ensures C14 $f == g_where($o)->0
@ensures C14 r is Some <==> i0($o, "where")
@role items 0 Punctuated::new
@role where_token 0 consume_ident
@loop 1
@inv C14 g_preds($t) is Some && g_preds($t) == g_where($o)
@lens C14 g_where($o) == Some($t)
@dec $t.len()

@fn consume_field_type
@params tokens
@requires C14 scan0($o, pr_comma()) > 0
@ensures C14 $f == after($o, pr_comma())

@fn consume_enum_discriminant
@params tokens
@requires C14 p0($o, '=') ==> $o.skip(1).len() > 0
@ensures C14 $f == (if p0($o, '=') { $o.skip(1).skip(1) } else { $o })
@ensures C07,C14 r is Err <==> p0($o, '=') && !list_end($o.skip(1).skip(1))

@fn parse_tuple_fields
@params token_group
@reveal ok_tfields
@requires C14 ok_tfields(token_group.inner@)
@role fields 0 Punctuated::new
@role tokens 0 .peekable()
@loop 1
@inv C14 ok_tfields($t)
@dec $t.len()

@fn parse_named_fields
@params token_group
@reveal ok_nfields
@requires C14 ok_nfields(token_group.inner@)
@role fields 0 Punctuated::new
@role tokens 0 .peekable()
@loop 1
@inv C14 ok_nfields($t)
@dec $t.len()

@fn parse_enum_variants
@params tokens
@reveal ok_variants
@requires C14 ok_variants(tokens@) is Some
@ensures C07,C14 r is Err <==> ok_variants(tokens@) == Some(true)
@role variants 0 Punctuated::new
@start let ghost all = tokens@;
@loop 1
@inv C14 ok_variants($t) is Some && ok_variants($t) == ok_variants(all)
@lens C14 ok_variants(all) == Some(false)
@dec $t.len()

// ================= parse_fn =================
@fn consume_fn_qualifiers
@params tokens
@ensures C14 $f == q5($o)
@ensures C14 (r.tk_default is Some <==> i0($o, "default")) && (r.tk_const is Some <==> i0(q1($o), "const")) && (r.tk_async is Some <==> i0(q2($o), "async")) && (r.tk_unsafe is Some <==> i0(q3($o), "unsafe")) && (r.tk_extern is Some <==> i0(q4($o), "extern"))
@ensures C14 r.tk_extern is None ==> r.extern_abi is None

@fn parse_fn_params
@params tokens
@reveal ok_params
@requires C14 ok_params(tokens@)
@role fields 0 Punctuated::new
@loop 1
@inv C14 ok_params($t)
@dec $t.len()

@fn consume_fn_return
@params tokens
@requires C14 g_ret($o) is Some
@ensures C14 $f == g_ret($o)->0

@fn FnQualifiers::has_only_const_xor_unsafe
@params self
@ensures C14 r == ((self.tk_const is Some) != (self.tk_unsafe is Some) && self.tk_default is None && self.tk_async is None && self.tk_extern is None && self.extern_abi is None)

@fn consume_fn
@params tokens attributes vis_marker
@reveal g_sig
@requires C14 q_kind($o) != 0 && (q_kind($o) == 1 ==> g_sig(q5($o).skip(1)) is Some)
@ensures C14 match r { Ok(_) => q_kind($o) == 1, Err(NotFunction::ExternCrate) => q_kind($o) == 2, Err(NotFunction::Static) => q_kind($o) == 3, Err(NotFunction::Const) => q_kind($o) == 4, Err(NotFunction::Trait) => q_kind($o) == 5, Err(NotFunction::Impl) => q_kind($o) == 6, Err(NotFunction::Mod) => q_kind($o) == 7, Err(NotFunction::ExternBlock) => q_kind($o) == 8 }
@ensures C02,C14 $f == (if q_kind($o) == 1 { g_sig(q5($o).skip(1))->0 } else { $o })

@fn consume_macro
@params tokens attributes
@reveal g_macro
@requires C14 g_macro($o) is Some
@ensures C02,C14 r is Some && $f == g_macro($o)->0

@fn consume_macro_inner
@params tokens attributes
@reveal g_macro
@requires C14 g_macro($o) is Some
@ensures C02,C14 r is Some && $f == g_macro($o)->0

// ================= parse_impl =================
@fn parse_const_or_static
@params tokens attributes vis_marker
@reveal g_const
@requires C14 g_const($o) is Some
@ensures C02,C14 $f == g_const($o)->0 && TokenTree::Ident(r.tk_const_or_static) == hd($o)
@role value_tokens 0 Vec::new
@loop 1
@inv C14 g_value($t) is Some && g_value($t) == g_const($o)
@lens C14 p0($t, ';')
@dec $t.len()

@fn consume_ty_definition
@params tokens attributes vis_marker
@reveal g_type
@requires C14 g_type($o) is Some
@ensures C02,C14 r is Some && $f == g_type($o)->0

@fn reject_vis_marker
@params vis_marker
@requires C14 vis_marker is None

@fn consume_either_fn_type_const_static_impl
@params tokens attributes vis_marker context
@attr #[verifier::exec_allows_no_decreases_clause]
@reveal g_either g_macro
@start proof { keywords(); }
@requires C14 g_either($o, vis_marker is Some) is Some
@ensures C07,C14 r is Err <==> cx(g_either($o, vis_marker is Some))
@ensures C02,C14 $f == rst(g_either($o, vis_marker is Some))
@ensures C14 i0($o, "type") ==> r is Ok && r->Ok_0 is TypeAlias
@ensures C14 fn_kw($o) && q_kind($o) == 1 ==> r is Ok && r->Ok_0 is Function
@ensures C14 fn_kw($o) && (q_kind($o) == 3 || q_kind($o) == 4) ==> r is Ok && r->Ok_0 is Constant && TokenTree::Ident(r->Ok_0->Constant_0.tk_const_or_static) == hd($o)
@ensures C14 !i0($o, "type") && !fn_kw($o) ==> r is Ok && r->Ok_0 is Macro

@fn parse_impl_body
@params token_group allow_static
@attr #[verifier::exec_allows_no_decreases_clause]
@reveal ok_body g_either
@start proof { keywords(); }
@requires C14 ok_body(token_group.inner@, allow_static)
@role body_items 0 vec![]
@role inner_attributes 0 consume_inner_attributes
@role tokens 0 .peekable()
@loop 1
@inv C14 ok_members($t, allow_static)
@dec $t.len()

@fn parse_impl
@params tokens attributes
@attr #[verifier::exec_allows_no_decreases_clause]
@reveal g_impl
@requires C14 g_impl($o) is Some
@ensures C02,C14 $f == g_impl($o)->0

@fn parse_trait
@params tokens attributes vis_marker
@attr #[verifier::exec_allows_no_decreases_clause]
@reveal g_trait
@requires C14 g_trait($o) is Some
@ensures C02,C14 $f == g_trait($o)->0
@closure 1
@cparam ImplMember
@cret TraitMember
@cspec ensures true

// ================= parse_mod, parse_extern, parse =================
@fn parse_mod
@params tokens attributes vis_marker
@attr #[verifier::exec_allows_no_decreases_clause]
@reveal g_mod
@requires C14 g_mod($o) is Some
@ensures C07,C14 r is Err <==> cx(g_mod($o))
@ensures C02,C14 $f == rst(g_mod($o))
@role mod_members 0 vec![]
@role group 0 match tokens.next()
@start let ghost whole = tokens@;
@loop 1
@inv C14 ok_items($t) is Some && Some(cx(g_mod(whole))) == ok_items($t)
@inv C14 weight($t) < weight(whole)
@dec weight($t)

@fn parse_use_declaration
@params tokens attributes vis_marker
@reveal g_use
@requires C14 g_use($o) is Some
@ensures C02,C14 $f == g_use($o)->0

@fn parse_extern_crate
@params tokens attributes vis_marker
@reveal g_xcrate
@requires C14 g_xcrate($o) is Some
@ensures C02,C14 $f == g_xcrate($o)->0

@fn consume_extern_crate
@params tokens attributes vis_marker
@reveal g_xcrate
@requires C14 g_xcrate($o) is Some
@ensures C02,C14 r is Some && $f == g_xcrate($o)->0

@fn parse_extern_block
@params tokens attributes vis_marker
@attr #[verifier::exec_allows_no_decreases_clause]
@reveal g_xblock
@requires C14 g_xblock($o) is Some
@ensures C02,C14 $f == g_xblock($o)->0

@fn consume_extern_block
@params tokens attributes vis_marker
@attr #[verifier::exec_allows_no_decreases_clause]
@reveal g_xblock
@requires C14 g_xblock($o) is Some
@ensures C02,C14 r is Some && $f == g_xblock($o)->0

@fn consume_item
@params tokens
@attr #[verifier::exec_allows_no_decreases_clause] #[verifier::rlimit(50)]
@reveal g_item g_struct g_enum g_union g_either g_macro
@start proof { keywords(); }
@requires C14 g_item($o) is Some
@ensures C07,C14 r is Err <==> cx(g_item($o))
@ensures C02,C14 $f == rst(g_item($o))

@fn parse_item
@params tokens
@requires C14 g_item(tokens@) is Some && rst(g_item(tokens@)).len() == 0
@ensures C07,C14 r is Err <==> cx(g_item(tokens@))

// ================= editing: only what replaces a contract of edition.spec =================
@fn Item::__no_split_for_impl__
@params
@requires C14 false

@fn WhereClausePredicate::parse
@params tokens
@requires C14 p0(tokens@.skip(lhs_len(tokens@) as int), ':')

@fn TypeExpr::as_path
@params self
@requires C12,C14 life_ok(path_src(self.tokens@))
