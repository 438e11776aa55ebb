// ================= parse_utils =================
@fn tokens_from_slice
@params slice
@ensures C01,C12 r@ == slice@

@fn parse_any_ident
@params tokens panic_context
@ensures C01,C02 $o == r.toks() + $f
@ensures C14 $f == $o.skip(1)

@fn parse_ident
@params tokens expected panic_context
@ensures C01,C02 $o == r.toks() + $f
@ensures C04 r.s_is(expected)

@fn consume_any_ident
@params tokens
@ensures C01,C02 $o == r.toks() + $f
@ensures C04 r is Some <==> ($o.len() > 0 && hd($o) is Ident)

@fn consume_ident
@params tokens expected
@ensures C01,C02 $o == r.toks() + $f
@ensures C04 r is Some <==> i0($o, expected)
@ensures C04 kw(r, expected)

@fn parse_punct
@params tokens expected panic_context
@ensures C01,C02 $o == r.toks() + $f
@ensures C04 r.ch == expected

@fn consume_punct
@params tokens expected
@ensures C01,C02 $o == r.toks() + $f
@ensures C04 r is Some <==> p0($o, expected)
@ensures C04 pu(r, expected)

@fn consume_comma
@params tokens
@ensures C01,C02 $o == r.toks() + $f
@ensures C04 r is Some <==> p0($o, ',')
@ensures C04 pu(r, ',')

@fn consume_colon2
@params tokens
@ensures C01,C02 $o == arr2o(r) + $f
@ensures C04 r is Some <==> colon2($o)

@fn consume_stuff_until
@params tokens predicate must_find_predicate
@requires forall|t: &TokenTree| predicate.requires((t,))
@ensures C01,C02 $o == r@ + $f
@ensures C05 forall|q: spec_fn(TokenTree) -> bool| conforms(predicate, q) ==> #[trigger] scan0($o, q) == r@.len()
@ensures C05 forall|q: spec_fn(TokenTree) -> bool| conforms(predicate, q) ==> #[trigger] scan0(r@, q) == r@.len()
@ensures C05 forall|q: spec_fn(TokenTree) -> bool| conforms(predicate, q) ==> #[trigger] stop_ok($f, q)
@ensures C05 must_find_predicate ==> $f.len() > 0 && predicate.ensures((&hd($f),), true) && !is_p(hd($f), '>')
@role output_tokens 0 Vec::new
@role bracket_count 0 0
@role predicate_met 0 false
@role prev_token_is_dash 1 false
@reveal scan hd
@start let ghost p0f = predicate; tokens.v_bounded(); proof { scan_take_all($o); }
@loop 1
@inv p0f == predicate
@inv $o.len() < 0x7fff_ffff
@inv C01,C02 $o == output_tokens@ + $t
@inv C05 bracket_count >= 0
@inv bracket_count <= output_tokens@.len()
@inv forall|t: &TokenTree| predicate.requires((t,))
@invx C05 !predicate_met
@invx C05 forall|q: spec_fn(TokenTree) -> bool| conforms(predicate, q) ==> #[trigger] scan0($o, q) == output_tokens@.len() + scan($t, q, bracket_count as int, prev_token_is_dash)
@lens C05 forall|q: spec_fn(TokenTree) -> bool| conforms(predicate, q) ==> #[trigger] scan0($o, q) == output_tokens@.len()
@lens C05 predicate_met ==> $t.len() > 0 && predicate.ensures((&hd($t),), true) && !is_p(hd($t), '>')
@dec $t.len()
@end proof { assert(__ret@ =~= $o.take(__ret@.len() as int)); assert forall|q: spec_fn(TokenTree) -> bool| conforms(p0f, q) implies #[trigger] scan0(__ret@, q) == __ret@.len() by { assert(scan0($o, q) == __ret@.len()); }
 assert forall|q: spec_fn(TokenTree) -> bool| conforms(p0f, q) implies #[trigger] stop_ok($t, q) by { assert(scan0($o, q) == __ret@.len()); scan_end($o, q, 0, false); } }

@fn consume_attributes_with_inner
@params tokens expect_inner
@ensures C01,C02 $o == flat(r@) + $f
@wf wf_attrs(r@, expect_inner, $a)
@ensures C06 !expect_inner ==> !p0($f, '#')
@ensures C06 !p0($o, '#') ==> $f == $o
@ensures C06 expect_inner ==> !(p0($f, '#') && $f.len() > 1 && is_p(hd($f.skip(1)), '!'))
@role attributes 0 Vec::new
@role path 1 Vec::new
@role attribute_tokens 0 .peekable()
@role group 0 match tokens.next()
@role tk_hash 0 match tokens.peek()
@role tk_bang 0 if expect_inner
@loop 1
@body let ghost t0 = tokens@;
@inv C01,C02 $o == flat(attributes@) + $t
@inv C06 !p0($o, '#') ==> $t == $o
@winv wf_attrs(attributes@, expect_inner, $a)
@lens C06 !expect_inner ==> !p0($t, '#')
@lens C06 expect_inner ==> !(p0($t, '#') && $t.len() > 1 && is_p(hd($t.skip(1)), '!'))
@dec $t.len()
@loop 2
@inv C01,C02 t0 == tk_hash.toks() + tk_bang.toks() + one(TokenTree::Group(group)) + $t
@inv C01,C02 group.inner@ == path@ + attribute_tokens@
@inv C06 forall|i: int| 0 <= i < path@.len() ==> attr_tok(#[trigger] path@[i])
@lens attribute_tokens@.len() == 0 || hd(attribute_tokens@) is Group || is_p(hd(attribute_tokens@), '=')
@dec attribute_tokens@.len()

@fn consume_outer_attributes
@params tokens
@ensures C01,C02 $o == flat(r@) + $f
@wf wf_attrs(r@, false, $a)
@ensures C06 !p0($f, '#')
@ensures C06 !p0($o, '#') ==> $f == $o

@fn consume_inner_attributes
@params tokens
@ensures C01,C02 $o == flat(r@) + $f
@wf wf_attrs(r@, true, $a)
@ensures C06 !(p0($f, '#') && $f.len() > 1 && is_p(hd($f.skip(1)), '!'))

@fn is_vis_restriction
@params group
@ensures C06 r == vis_restr(*group)

@fn consume_vis_marker
@params tokens
@ensures C01,C02 $o == r.toks() + $f
@ensures C06 wf_vis(r, 6)
@ensures C06 r is Some <==> vis0($o)
@ensures C06 r is Some && i0($o, "pub") && r->0.tk_token2 is None ==> !($f.len() > 0 && hd($f) is Group && vis_restr(hd($f)->Group_0))

@fn consume_where_left_side
@params tokens
@ensures C01,C02 $o == r@ + $f
@ensures C05 r@.len() == lhs_len($o)
@ensures C05 r@.len() == lhs_len(r@)
@end proof { lhs_take($o); assert(__ret@ =~= $o.take(__ret@.len() as int)); }
@role left_side 0 Vec::new
@reveal lhs_len
@loop 1
@body let ghost t0 = tokens@;
@bodyend proof { assert(t0.skip(scan0(t0, pr_colon()) as int + 2) =~= tokens@); }
@inv C01,C02 $o == left_side@ + $t
@invx C05 lhs_len($o) == left_side@.len() + lhs_len($t)
@lens C05 lhs_len($o) == left_side@.len()
@dec $t.len()

@fn consume_path
@params tokens
@ensures C12 r is Some ==> tokens@ == r->0.toks() && wf_path(r->0)
@ensures C12 simple_path(tokens@) ==> r is Some
@role segments 0 vec![]
@role tk_separator_colons 0 consume_colon2
@start let ghost all = tokens@;
@loop 1
@body let ghost t0 = tokens@; proof { reveal_with_fuel(simple_tail, 3); if t0.len() >= 3 { assert(t0.skip(1).skip(2) =~= t0.skip(3)); } }
@bodyend proof { if simple_path(all) { assert(t0.skip(3) =~= tokens@); } }
@inv C12 all == flat(segments@) + (arr2o(tk_separator_colons) + $t)
@inv C12 wf_segments(segments@) && (match tk_separator_colons { Some(c) => wf_colon2(c@), None => segments@.len() == 0 })
@inv C12 segments@.len() > 0 ==> (segments@[0].tk_separator_colons is None ==> !not_path_kw(segments@[0].ident))
@inv C12 segments@.len() == 0 && tk_separator_colons is None ==> !($t.len() > 0 && hd($t) is Ident && not_path_kw(hd($t)->Ident_0))
@invx C12 simple_path(all) ==> simple_tail($t)
@lens C12 segments@.len() > 0 && all == flat(segments@)
@dec $t.len()

// ================= parse_type =================
@fn consume_item_name
@params tokens
@ensures C01,C02 $o == r.toks() + $f

@fn consume_bound
@params tokens end_predicate
@requires forall|t: &TokenTree| end_predicate.requires((t,))
@ensures C01,C02 $o == r.toks() + $f
@ensures C04 r is Some <==> p0($o, ':')
@ensures C04 r is Some ==> r->0.tk_colon.ch == ':'
@ensures C05 r is Some ==> forall|q: spec_fn(TokenTree) -> bool| conforms(end_predicate, q) ==> #[trigger] scan0(r->0.tokens@, q) == r->0.tokens@.len()
@ensures C05 r is Some ==> forall|q: spec_fn(TokenTree) -> bool| conforms(end_predicate, q) ==> #[trigger] scan0($o.skip(1), q) == r->0.tokens@.len()
@ensures C05 forall|q: spec_fn(TokenTree) -> bool| conforms(end_predicate, q) ==> #[trigger] stop_ok($f, q)
@ensures C05 r is None ==> $f.len() > 0 && end_predicate.ensures((&hd($f),), true)

@fn consume_generic_params
@params tokens
@ensures C01,C02 $o == r.toks() + $f
@ensures C04 r is Some <==> p0($o, '<')
@wf wf_generics(r, $a)
@role generic_params 0 Punctuated::new
@role gt 0 consume_punct
@role lt 0
@loop 1
@inv C01,C02 $o == gt.toks() + generic_params.toks() + $t
@winv wf_gparams(generic_params, $a)
@invx skip_ok(generic_params, $t.len() == 0 || p0($t, '>'))
@lens p0($t, '>') && hd($t) == TokenTree::Punct(lt)
@dec $t.len()

@fn parse_generic_arg
@params tokens
@requires C12 tokens@.len() > 0
@ensures C12 r.toks() == tokens@
@ensures C12 wf_garg(r, 4)
@start proof { reveal(toks_Lifetime); }

@fn consume_lifetime
@params tokens
@ensures C01,C02 $o == r.toks() + $f
@ensures C04,C12 r is Some <==> p0($o, '\'')
@ensures C04,C12 wf_lifetime(r, 4)

@fn consume_generic_args
@params tokens
@ensures C12 r is Some ==> p0($o, '<') || (colon2($o) && p0($o.skip(2), '<'))
@ensures C12 $o.len() == 0 || (!p0($o, '<') && !(colon2($o) && p0($o.skip(2), '<'))) ==> r is None
@ensures C12 $o == r.toks() + $f
@ensures C12 wf_garglist(r, 4)
@ensures C12 wf_garglist(r, 5)
@role generic_args 0 Punctuated::new
@role tk_l_bracket 0 '<'
@role tk_turbofish_colons 0 consume_colon2
@loop 1
@inv C12 $o == arr2o(tk_turbofish_colons) + tk_l_bracket.toks() + generic_args.toks() + $t
@inv C12 wf_gargs(generic_args, 4)
@inv C12 wf_gargs(generic_args, 5)
@body proof { assert(scan0($t, pr_comma()) <= $t.len()); }
@inv skip_ok(generic_args, $t.len() == 0 || p0($t, '>'))
@dec $t.len()

@fn consume_where_clause
@params tokens
@ensures C01,C02 $o == r.toks() + $f
@ensures C04 r is Some <==> i0($o, "where")
@wf wf_where(r, $a)
@role items 0 Punctuated::new
@role where_token 0 consume_ident
@loop 1
@inv C01,C02 $o == where_token.toks() + items.toks() + $t
@winv wf_preds(items, $a)
@inv skip_ok(items, g0($t, Delimiter::Brace) || p0($t, ';'))
@lens g0($t, Delimiter::Brace) || p0($t, ';')
@dec $t.len()

@fn consume_field_type
@params tokens
@ensures C01,C02 $o == r@ + $f
@ensures C05 r@.len() == scan0($o, pr_comma()) && r@.len() > 0
@ensures C05 seg(r@, pr_comma()) && stop_ok($f, pr_comma())

@fn consume_enum_discriminant
@reveal hd complex_at
@params tokens
@ensures C01,C02 r is Ok ==> $o == r->Ok_0.toks() + $f
@ensures C04 r is Ok && r->Ok_0 is Some ==> r->Ok_0->0.tk_equal.ch == '='
@ensures C07 r is Ok && r->Ok_0 is None ==> !p0($o, '=')
@ensures C07 r is Ok && r->Ok_0 is Some ==> $f.len() == 0 || p0($f, ',')
@ensures C07 r is Err ==> complex_at($o, 0)

@fn parse_tuple_fields
@params token_group
@ensures C01,C02 r.toks() == one(TokenTree::Group(token_group))
@ensures C04 r.tk_parens.delimiter == token_group.delim
@wf wf_tfields(r.fields, $a)
@role fields 0 Punctuated::new
@role tokens 0 .peekable()
@loop 1
@inv C01,C02 token_group.inner@ == fields.toks() + $t
@winv wf_tfields(fields, $a)
@inv skip_ok(fields, $t.len() == 0 || p0($t, '>'))
@lens $t.len() == 0
@dec $t.len()

@fn parse_named_fields
@params token_group
@ensures C01,C02 r.toks() == one(TokenTree::Group(token_group))
@ensures C04 r.tk_braces.delimiter == token_group.delim
@wf wf_nfields(r.fields, $a)
@role fields 0 Punctuated::new
@role tokens 0 .peekable()
@loop 1
@inv C01,C02 token_group.inner@ == fields.toks() + $t
@winv wf_nfields(fields, $a)
@inv skip_ok(fields, $t.len() == 0 || p0($t, '>'))
@lens $t.len() == 0
@dec $t.len()

@fn parse_enum_variants
@params tokens
@ensures C01,C02 r is Ok ==> r->Ok_0.toks() == tokens@
@ensures C07 r is Err ==> has_complex(tokens@)
@ensures C04 r is Ok ==> wf_variants(r->Ok_0, 4)
@ensures C05 r is Ok ==> wf_variants(r->Ok_0, 5)
@ensures C06 r is Ok ==> wf_variants(r->Ok_0, 6)
@role variants 0 Punctuated::new
@start let ghost all = tokens@; broadcast use complex_cat;
@loop 1
@inv C01,C02 all == variants.toks() + $t
@winv wf_variants(variants, $a)
@inv skip_ok(variants, $t.len() == 0)
@lens $t.len() == 0
@dec $t.len()

// ================= parse_fn =================
@fn consume_fn_qualifiers
@params tokens
@ensures C01,C02 $o == r.toks() + $f
@wf wf_quals(r, $a)

@fn parse_fn_params
@params tokens
@ensures C01,C02 r.toks() == tokens@
@wf wf_fnparams(r, $a)
@role fields 0 Punctuated::new
@start let ghost all = tokens@;
@loop 1
@inv C01,C02 all == fields.toks() + $t
@winv wf_fnparams(fields, $a)
@inv skip_ok(fields, $t.len() == 0)
@lens $t.len() == 0
@dec $t.len()

@fn consume_fn_return
@params tokens
@ensures C01,C02 $o == (match r { Some(x) => arr2(x.0@) + x.1.toks(), None => Seq::empty() }) + $f
@ensures C04 r is Some <==> p0($o, '-')
@ensures C04 r is Some ==> (r->0).0@[0].ch == '-' && (r->0).0@[1].ch == '>'
@ensures C05 r is Some ==> seg((r->0).1.tokens@, pr_ret_end())

@fn FnQualifiers::has_only_const_xor_unsafe
@params self
@ensures C04 r == ((self.tk_const is Some) != (self.tk_unsafe is Some) && self.tk_default is None && self.tk_async is None && self.tk_extern is None && self.extern_abi is None)

@fn consume_fn
@params tokens attributes vis_marker
@wreq wf_attrs(attributes@, false, $a)
@wreq wf_vis(vis_marker, $a)
@ensures C01,C02 match r { Ok(f) => flat(attributes@) + vis_marker.toks() + $o == f.toks() + $f, Err(_) => $f == $o }
@ensures C04 r is Ok ==> wf_fn(r->Ok_0, 4)
@ensures C05 r is Ok ==> wf_fn(r->Ok_0, 5)
@ensures C06 r is Ok ==> wf_fn(r->Ok_0, 6)
@ensures C03 r is Ok ==> $f.len() < $o.len()

@fn consume_macro
@params tokens attributes
@wreq wf_attrs(attributes@, false, $a)
@ensures C01,C02 match r { Some(f) => flat(attributes@) + $o == f.toks() + $f, None => $f == $o }
@ensures C04 r is Some ==> wf_macro(r->0, 4)
@ensures C05 r is Some ==> wf_macro(r->0, 5)
@ensures C06 r is Some ==> wf_macro(r->0, 6)
@ensures C03 r is Some ==> $f.len() < $o.len()

@fn consume_macro_inner
@params tokens attributes
@wreq wf_attrs(attributes@, false, $a)
@ensures C01,C02 match r { Some(f) => flat(attributes@) + $o == f.toks() + $f, None => true }
@ensures C04 r is Some ==> wf_macro(r->0, 4)
@ensures C05 r is Some ==> wf_macro(r->0, 5)
@ensures C06 r is Some ==> wf_macro(r->0, 6)
@ensures C03 r is Some ==> $f.len() < $o.len()

// ================= parse_impl =================
@fn parse_const_or_static
@params tokens attributes vis_marker
@wreq wf_attrs(attributes@, false, $a)
@wreq wf_vis(vis_marker, $a)
@ensures C01,C02 flat(attributes@) + vis_marker.toks() + $o == r.toks() + $f
@wf wf_const(r, $a)
@ensures C03 $f.len() < $o.len()
@role value_tokens 0 Vec::new
@role tk_equals 0 consume_punct
@loop 1
@before let ghost vt0 = tokens@;
@inv C01,C02 vt0 == value_tokens@ + $t
@inv C05 no_semi(value_tokens@)
@inv C04 tk_equals is None ==> value_tokens@.len() == 0 && p0($t, ';')
@lens C04 p0($t, ';')
@dec $t.len()

@fn consume_ty_definition
@params tokens attributes vis_marker
@wreq wf_attrs(attributes@, false, $a)
@wreq wf_vis(vis_marker, $a)
@ensures C04 r is Some
@ensures C01,C02 flat(attributes@) + vis_marker.toks() + $o == r->0.toks() + $f
@wf wf_alias(r->0, $a)
@ensures C03 $f.len() < $o.len()

@fn reject_vis_marker
@params vis_marker
@ensures C01,C02 vis_marker is None

@fn consume_either_fn_type_const_static_impl
@params tokens attributes vis_marker context
@ensures C04 r is Ok ==> r->Ok_0 is Function || r->Ok_0 is TypeAlias || r->Ok_0 is Constant || r->Ok_0 is Impl || r->Ok_0 is Trait || r->Ok_0 is Module || r->Ok_0 is ExternBlock || r->Ok_0 is ExternCrate || r->Ok_0 is Macro
@wreq wf_attrs(attributes@, false, $a)
@wreq wf_vis(vis_marker, $a)
@ensures C01,C02 r is Ok ==> flat(attributes@) + vis_marker.toks() + $o == r->Ok_0.toks() + $f
@ensures C04 r is Ok ==> wf_item(r->Ok_0, 4)
@ensures C05 r is Ok ==> wf_item(r->Ok_0, 5)
@ensures C06 r is Ok ==> wf_item(r->Ok_0, 6)
@ensures C03 r is Ok ==> $f.len() < $o.len()
@decreases weight($o), 2int

@fn parse_impl_body
@params token_group allow_static
@ensures C01,C02 grp(r.0, flat(r.1@) + flat(r.2@)) == one(TokenTree::Group(token_group))
@ensures C04 r.0.delimiter == token_group.delim
@wf wf_attrs(r.1@, true, $a)
@wf wf_imembers(r.2@, allow_static, $a)
@decreases weight(token_group.inner@), 4int
@role body_items 0 vec![]
@role inner_attributes 0 consume_inner_attributes
@role tokens 0 .peekable()
@loop 1
@inv C01,C02 token_group.inner@ == flat(inner_attributes@) + flat(body_items@) + $t
@inv C03 weight($t) <= weight(token_group.inner@)
@winv wf_imembers(body_items@, allow_static, $a)
@lens $t.len() == 0
@dec $t.len()

@fn parse_impl
@attr #[verifier::rlimit(50)]
@params tokens attributes
@wreq wf_attrs(attributes@, false, $a)
@ensures C01,C02 flat(attributes@) + $o == r.toks() + $f
@wf wf_impl(r, $a)
@ensures C03 $f.len() < $o.len()
@decreases weight($o), 1int

@fn parse_trait
@start broadcast use {tmembers_flat, tmembers_wf};
@params tokens attributes vis_marker
@wreq wf_attrs(attributes@, false, $a)
@wreq wf_vis(vis_marker, $a)
@ensures C01,C02 flat(attributes@) + vis_marker.toks() + $o == r.toks() + $f
@wf wf_trait(r, $a)
@ensures C03 $f.len() < $o.len()
@decreases weight($o), 1int
@closure 1
@cparam ImplMember
@cret TraitMember
@cspec ensures __p == imember_of(__r)

// ================= parse_mod, parse_extern, parse =================
@fn parse_mod
@params tokens attributes vis_marker
@wreq wf_attrs(attributes@, false, $a)
@wreq wf_vis(vis_marker, $a)
@ensures C01,C02 r is Ok ==> flat(attributes@) + vis_marker.toks() + $o == module_toks(r->Ok_0) + $f
@ensures C04 r is Ok ==> wf_module(r->Ok_0, 4)
@ensures C05 r is Ok ==> wf_module(r->Ok_0, 5)
@ensures C06 r is Ok ==> wf_module(r->Ok_0, 6)
@ensures C03 r is Ok ==> $f.len() < $o.len()
@decreases weight($o), 1int
@role mod_members 0 vec![]
@role group 0 match tokens.next()
@loop 1
@inv C01,C02 group.inner@ == flat(inner_attributes@) + items_toks(mod_members@) + $t
@inv C03 weight($t) <= weight(group.inner@)
@winv wf_items(mod_members@, $a)
@lens $t.len() == 0
@dec $t.len()

@fn parse_use_declaration
@params tokens attributes vis_marker
@wreq wf_attrs(attributes@, false, $a)
@wreq wf_vis(vis_marker, $a)
@ensures C01,C02 flat(attributes@) + vis_marker.toks() + $o == r.toks() + $f
@wf wf_use(r, $a)
@ensures C03 $f.len() < $o.len()

@fn parse_extern_crate
@params tokens attributes vis_marker
@wreq wf_attrs(attributes@, false, $a)
@wreq wf_vis(vis_marker, $a)
@ensures C01,C02 flat(attributes@) + vis_marker.toks() + $o == r.toks() + $f
@wf wf_xcrate(r, $a)
@ensures C03 $f.len() < $o.len()

@fn consume_extern_crate
@params tokens attributes vis_marker
@wreq wf_attrs(attributes@, false, $a)
@wreq wf_vis(vis_marker, $a)
@ensures C01,C02 r is Some ==> flat(attributes@) + vis_marker.toks() + $o == r->0.toks() + $f
@ensures C04 r is Some ==> wf_xcrate(r->0, 4)
@ensures C05 r is Some ==> wf_xcrate(r->0, 5)
@ensures C06 r is Some ==> wf_xcrate(r->0, 6)
@ensures C03 r is Some ==> $f.len() < $o.len()

@fn parse_extern_block
@params tokens attributes vis_marker
@wreq wf_attrs(attributes@, false, $a)
@wreq wf_vis(vis_marker, $a)
@ensures C01,C02 flat(attributes@) + vis_marker.toks() + $o == r.toks() + $f
@wf wf_xblock(r, $a)
@ensures C03 $f.len() < $o.len()
@decreases weight($o), 1int

@fn consume_extern_block
@params tokens attributes vis_marker
@wreq wf_attrs(attributes@, false, $a)
@wreq wf_vis(vis_marker, $a)
@ensures C01,C02 r is Some ==> flat(attributes@) + vis_marker.toks() + $o == r->0.toks() + $f
@ensures C04 r is Some ==> wf_xblock(r->0, 4)
@ensures C05 r is Some ==> wf_xblock(r->0, 5)
@ensures C06 r is Some ==> wf_xblock(r->0, 6)
@ensures C03 r is Some ==> $f.len() < $o.len()
@decreases weight($o), 0int

@fn consume_item
@attr #[verifier::rlimit(50)]
@params tokens
@ensures C01,C02 r is Ok ==> $o == r->Ok_0.toks() + $f
@ensures C04 r is Ok ==> wf_item(r->Ok_0, 4)
@ensures C02 r is Ok && r->Ok_0 is Struct && r->Ok_0->Struct_0.fields is Tuple && r->Ok_0->Struct_0.tk_semicolon is None ==> !p0($f, ';')
@ensures C05 r is Ok ==> wf_item(r->Ok_0, 5)
@ensures C06 r is Ok ==> wf_item(r->Ok_0, 6)
@ensures C03 r is Ok ==> $f.len() < $o.len()
@decreases weight($o), 3int

@fn parse_item
@params tokens
@ensures C01,C02 r is Ok ==> r->Ok_0.toks() == tokens@
@ensures C04 r is Ok ==> wf_item(r->Ok_0, 4)
@ensures C05 r is Ok ==> wf_item(r->Ok_0, 5)
@ensures C06 r is Ok ==> wf_item(r->Ok_0, 6)
