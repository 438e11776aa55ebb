#!/usr/bin/env python3
"""Writes properties.jsonl (run by hand after editing)."""
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=None)))
PARSE=["src/parse.rs","src/parse_utils.rs","src/parse_type.rs","src/parse_fn.rs","src/parse_impl.rs","src/parse_mod.rs","src/parse_extern.rs"]
p("C01","Printing a parsed declaration gives back its source tokens",
 "Whenever a token stream is parsed successfully, converting the returned item back to tokens yields exactly the tokens that were consumed: the same tokens in the same order, with the same delimiters, spacing and source locations, at every nesting depth. No token is lost, invented, duplicated or reordered, and a clone of the item is the same item.",
 ["inputs","programs"],"every token stream of any length and nesting that parses to an item",
 "The tests round-trip a few dozen hand-written declarations; the guarantee is over every combination of optional parts, separators and nesting, where a token can be dropped by one parser path or one printing path.",
 PARSE+["src/types.rs","src/punctuated.rs"],
 [("every consume_/parse_ function returns a value whose printed form is what it removed from the stream","src/parse*.rs"),("ToTokens implementations","src/types.rs"),("Punctuated printing","src/punctuated.rs")],
 ["parse_item","consume_item","ToTokens for Item"])
p("C02","One item is consumed and the rest of the stream is left untouched",
 "Consuming an item removes the tokens of exactly one declaration, the first one, from the front of the stream and leaves all later tokens available, unchanged and in order, so that consuming repeatedly from a concatenation of declarations yields each of them in turn. Parsing a whole stream never returns an item while tokens are left over: it panics instead.",
 ["inputs","histories"],"every concatenation of declarations and every trailing token sequence, for any number of successive calls",
 "Tests parse single declarations and check one trailing-token panic; over- or under-consumption depends on which kind of item is followed by which token.",
 ["src/parse.rs","src/parse_impl.rs","src/parse_mod.rs","src/parse_fn.rs"],
 [("consume_item takes attributes, visibility, then one declaration","src/parse.rs"),("lookahead is undone by restoring a saved iterator","src/parse_fn.rs"),("leftover check in parse_item","src/parse.rs")],
 ["consume_item","parse_item"])
p("C03","Parsing and printing always finish",
 "For every token stream, well-formed or not, parsing an item, extracting a path from a type and printing a parsed item terminate: they return or panic, and never loop or recurse forever.",
 ["inputs"],"every finite token stream",
 "A test can only show that the inputs it runs finish; a loop that stops making progress needs an input no test has (for instance an unexpected token inside a list).",
 PARSE+["src/types.rs","src/punctuated.rs"],
 [("every loop consumes at least one token per iteration or stops","src/parse*.rs"),("recursion only into the contents of a consumed group","src/parse_impl.rs, src/parse_mod.rs")],
 ["parse_item","consume_item","TypeExpr::as_path"])
p("C04","Every token is stored in the slot of its grammatical role",
 "In every parsed item, the kind of item is the one named by its keyword, and each keyword, name, delimiter, colon, arrow, equals sign and semicolon is found in the slot meant for it; an optional slot is filled exactly when the declaration has that token. Slots that exclude or require each other agree: a function has either a body or a semicolon, an implementation has a trait exactly when it has `for`, a module has either braces or a semicolon, `mut` only goes with `static`, and an extern block is the only place for a static member.",
 ["inputs"],"every token stream that parses to an item, every nested member included",
 "The tests compare snapshots of selected declarations; the combinations of optional keywords and parts, each with its own lookahead, are far more than the snapshots.",
 PARSE+["src/types.rs"],
 [("keyword dispatch","src/parse.rs, src/parse_impl.rs"),("function qualifiers and fallback to const/static/trait/impl/mod/extern","src/parse_fn.rs"),("group delimiters checked before the contents are parsed","src/parse*.rs")],
 ["fields of the returned Item"])
p("C05","Lists, types and bounds are cut only at separators outside angle brackets",
 "Fields, variants, parameters, generic parameters and arguments, where-predicates, bounds, types and initialisers extend exactly up to the separator that ends them: a comma, colon, equals sign, semicolon, keyword or body inside balanced angle brackets or inside a group never ends one, and the tip of a `->` arrow does not close a bracket. No part is cut short, merged with its neighbour or, where the grammar needs one, empty; a constant's value extends to its semicolon whatever `<` and `>` it contains.",
 ["inputs"],"every token stream that parses to an item, with any nesting of angle brackets, groups and arrows",
 "Tests use a handful of nested generic types; the counter of open brackets and the arrow exception have to be right for every nesting and every position.",
 ["src/parse_utils.rs","src/parse_type.rs","src/parse_fn.rs","src/parse_impl.rs","src/parse_mod.rs"],
 [("the scan for a separator with its bracket count","src/parse_utils.rs consume_stuff_until"),("left side of a where predicate and `::`","src/parse_utils.rs"),("list loops","src/parse_type.rs, src/parse_fn.rs")],
 ["fields of the returned Item"])
p("C06","Attributes and visibility belong to the declaration they precede",
 "Every outer attribute in front of an item, field, variant, parameter or member is stored on that element, in source order, with its path and value separated at the first group or equals sign; inner attributes are stored only as inner attributes of the block they open. A visibility marker is recognised exactly when it is one: `pub`, `pub` with a restriction in parentheses, or `crate` not followed by `::`, and a parenthesised type after `pub` in a tuple field stays part of the type.",
 ["inputs"],"every token stream that parses to an item, at every place where attributes or a visibility marker may stand",
 "Tests have one or two attributes on selected elements; the lookahead that tells inner from outer attributes and restrictions from types depends on the tokens that follow.",
 ["src/parse_utils.rs","src/parse.rs","src/parse_type.rs","src/parse_impl.rs","src/parse_mod.rs"],
 [("attribute loop","src/parse_utils.rs consume_attributes_with_inner"),("visibility lookahead","src/parse_utils.rs consume_vis_marker")],
 ["attributes, inner_attributes and vis_marker of items, members, fields, variants, params"])
p("C07","An enum value is one token; longer values give an error, not a panic",
 "A parsed enum variant has a value exactly when the source has one, and that value is the single token tree after the equals sign. An otherwise supported enum with a value of several tokens makes parsing return an error located at that value, also when the enum is nested in modules, and no error is returned for any other reason.",
 ["inputs"],"every enum, at any module depth, with any values on any variants",
 "Tests have one enum with simple values and one with a complex value at top level.",
 ["src/parse_type.rs","src/parse.rs","src/parse_mod.rs"],
 [("value parsing with one token of lookahead","src/parse_type.rs consume_enum_discriminant"),("error propagation","src/parse.rs, src/parse_mod.rs")],
 ["Result of parse_item/consume_item","EnumVariant::value","Error::span"])
p("C08","Comma-separated lists behave as a list with one comma per item",
 "After any sequence of appends and insertions, a list holds the inserted items in order, each with the comma it was given (or a plain default one); its length, emptiness, item and comma iterators agree with that, and inserting past the end panics. It prints its items separated by their commas, with a trailing comma exactly when the last item was added with one; a clone is an equal list.",
 ["histories","inputs"],"every sequence of list operations with any items and commas",
 "No test exercises sequences of operations; the trailing-comma flag has to stay right under every order of appends and insertions.",
 ["src/punctuated.rs"],
 [("push/insert maintain the trailing-comma flag","src/punctuated.rs"),("printing","src/punctuated.rs ToTokens")],
 ["Punctuated::push, insert, items, punct, len, is_empty, Default, ToTokens, slice access"])
p("C09","Adding generic parameters and where-predicates keeps everything else",
 "Adding a generic parameter or a where-predicate to a declaration, a parameter list or a where-clause yields the same declaration with just that element added: lifetimes go in front of all parameters, other parameters at the end, predicates at the end, creating an empty list or clause first when there is none. The derive where-clause is the existing one followed by one predicate per type parameter, in order, binding it to the given trait; constructed parameters and parsed predicates have the kind, name, left side and bound they were given, and print as such.",
 ["inputs","histories"],"every declaration, parameter, predicate and trait, and every sequence of additions",
 "Tests add one parameter to selected structs; order, commas and the untouched rest must hold for every existing list.",
 ["src/types_edition.rs","src/types.rs","src/punctuated.rs"],
 [("with_param, with_where_predicate, create_derive_where_clause","src/types_edition.rs"),("GenericParam constructors, WhereClausePredicate::parse","src/types_edition.rs")],
 ["returned declarations, lists and clauses, printed or inspected"])
p("C10","Generic parameters turn into the matching generic arguments",
 "The inline arguments made from a parameter list name every parameter once, in order, without bounds and without `const`, lifetimes keeping their apostrophe, between angle brackets and separated by commas, both when printed and when converted to an owned argument list, which has as many commas as the parameter list. A declaration has inline arguments exactly when it has a parameter list.",
 ["inputs"],"every generic parameter list",
 "Tests print the arguments of a few lists.",
 ["src/types.rs","src/types_edition.rs"],
 [("printing of inline arguments","src/types.rs"),("to_owned_args, as_inline_args, get_inline_generic_args","src/types_edition.rs")],
 ["InlineGenericArgs printed, InlineGenericArgs::to_owned_args"])
p("C11","Accessors agree with the declaration they read",
 "For every item, the accessors for attributes, name, generic parameters, kind-specific views, fields, field types, parameters by kind, attribute path and value, and the tests on variants, enums and constants return exactly what the declaration holds, in order and for every kind of item. Mutable accessors change only the part they give access to.",
 ["inputs"],"every item of every kind, parsed or constructed",
 "Tests call few of the accessors, on few kinds of items.",
 ["src/types_edition.rs","src/types.rs"],
 [("one match arm per item kind","src/types_edition.rs"),("filters by kind of parameter","src/types_edition.rs")],
 ["return values of the accessors"])
p("C12","A type is read as a path completely, or not at all",
 "When a type is read as a path, the returned path prints exactly the tokens of the type (of the contents of an invisible group around it), and its segments, separators and generic arguments are well formed; the arguments are split at top-level commas, and each is a lifetime, a `name = type` binding or a type according to its tokens. Every plain path, with or without a leading `::`, is accepted, a type that is not a path gives no path, and reading never panics on tokens the compiler can produce.",
 ["inputs"],"every type expression",
 "Tests read a dozen types as paths; silently dropped or misplaced tokens show only for particular argument shapes.",
 ["src/parse_utils.rs","src/parse_type.rs","src/types_edition.rs"],
 [("segment loop","src/parse_utils.rs consume_path"),("generic arguments with roll-back","src/parse_type.rs consume_generic_args, parse_generic_arg")],
 ["TypeExpr::as_path"])
p("C13","Errors keep all their messages, in order, at their locations",
 "An error holds the messages it was made with and, after combining, those of both errors in order; it renders as one compile-error invocation per message, with that message as its text, located at the span or tokens it was created for. Displaying it or asking for its span gives the first message.",
 ["inputs","histories"],"every message, span or token sequence, and every sequence of combinations",
 "No test combines errors or checks the rendered tokens and their locations.",
 ["src/error.rs"],
 [("constructors, combine, to_compile_error, span, Display","src/error.rs")],
 ["Error::new, new_at_span, new_at_tokens, combine, to_compile_error, span, Display"])
p("C14","Every supported declaration is accepted; API calls do not panic",
 "Parsing never panics on a supported declaration: it returns an item, or an error when an enum value has several tokens. Supported are structs, enums, unions, functions, constants, statics, type aliases, implementations, traits, modules, imports, extern crates, extern blocks and macro calls with parentheses or braces, with any attributes, visibility, qualifiers, generic parameters, bounds, where clauses, trailing commas, members and nesting they may have. Not supported: a default for a type parameter without a bound, generic type aliases, parameters whose pattern is more than a name, macro calls with square brackets or a path. Printing, reading and editing an item that was parsed never panics either, except as documented (inserting past the end of a list, a predicate without a colon).",
 ["inputs"],"every declaration of the supported grammar, of any size and nesting, and every call of the public API on a parsed item",
 "Tests parse selected declarations; a lookahead that gives up too early or a missing case panics only for a particular combination of optional parts.",
 PARSE+["src/types_edition.rs","src/types.rs","src/punctuated.rs"],
 [("every panic, unwrap and expect of the parser is unreachable on the supported grammar","src/parse*.rs"),("each function consumes exactly its part of the grammar","src/parse*.rs"),("panics of the editing and printing functions","src/types_edition.rs, src/punctuated.rs")],
 ["parse_item","consume_item","public methods on parsed items"])
p("C15","The span of a node covers the tokens of that node",
 "For every node that reports a span, parsed or constructed, that span is the one of its printed tokens, from the first to the last; tokens taken over from the input keep their own source location.",
 ["inputs"],"every node of every item",
 "Tests never look at locations.",
 ["src/types_edition.rs","src/types.rs"],
 [("span() through the printed tokens","src/types_edition.rs implement_span"),("group spans stored on parsing and restored on printing","src/types.rs GroupSpan")],
 ["span() of every node type"])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
