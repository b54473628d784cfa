#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that shared wording stays consistent)."""
import json, os
ALL = ["src/parse.rs", "src/parse_type.rs", "src/parse_fn.rs", "src/parse_impl.rs", "src/parse_mod.rs",
       "src/parse_extern.rs", "src/parse_utils.rs", "src/types.rs"]
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext),
                  why_tests_cant=why,
                  anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe, hook_needed=None)))

p("C01", "A parsed item quotes back to exactly the tokens it was parsed from",
  "For every token stream, either parsing refuses it (error or panic), or quoting the returned item yields the very same tokens: same text, same order, same nesting and delimiters (invisible groups included) and same spacing of every punctuation character. Nothing is dropped, duplicated, reordered, normalised or invented, whatever the item kind, the size of its lists, its trailing commas or the order of its clauses. Quoting any part of the item (a field, variant, parameter, attribute, bound, clause or member) yields exactly that part's tokens.",
  ["inputs", "programs"], "every token stream, valid Rust or not, of any size and nesting",
  "The tests snapshot a few dozen small declarations; token loss needs a particular combination of optional parts, and tests compare Debug output that omits spacing, commas and several tokens.",
  ALL, [("ToTokens impls mirror the parse order of every type", "src/types.rs"),
        ("lists keep the parsed commas and whether the last one was there", "src/punctuated.rs"),
        ("groups are rebuilt with the original delimiter and span", "src/types.rs GroupSpan::quote_with")],
  ["parse_item / consume_item result, then ToTokens of the item and of each of its parts"])
p("C02", "Every token keeps its source location, and span() covers its element",
  "Every token of a parsed item, as stored in its fields and as quoted back, carries the source location it had in the input; synthesised locations never replace real ones. The span() of an item, field, variant, parameter, attribute, bound, type, where clause or visibility runs from its first token to its last where spans can be joined.",
  ["inputs"], "every accepted declaration with pairwise distinct token locations",
  "The test suite never looks at a span; a lost location only shows as a diagnostic pointing at the wrong place.",
  ["src/types.rs", "src/types_edition.rs", "src/parse_utils.rs", "src/parse_type.rs"],
  [("tokens are moved, not re-created", "src/parse_*.rs"), ("implement_span! via quote's Spanned", "src/types_edition.rs"),
   ("GroupSpan keeps the group's span", "src/types.rs")],
  ["span byte ranges of quoted tokens and of the public token fields, span() results"])
p("C03", "Every well-formed declaration in the supported syntax is accepted",
  "Any well-formed Rust item of a supported kind parses without panic or error, whatever its names (raw, contextual-keyword and non-ASCII identifiers included), the number and order of its attributes, modifiers, parameters and bounds, the presence of trailing commas or empty lists, the punctuation spacing a lexer may produce, or how deep its types and modules nest. The only exceptions are the gaps the documentation and known-findings list name: multi-token enum discriminants, pattern, anonymous and variadic parameters, generic aliases, defaults or attributes on generic parameters, brace macros in headers, path-named macros, and unstable syntax.",
  ["inputs", "programs"], "every well-formed item, drawn from a grammar of Rust items and from the real-world sources installed here",
  "The tests parse one or two shapes per kind, at small sizes; acceptance fails on combinations (a bound with an arrow inside a generic list, a keyword-like name, an operator in an initializer).",
  ALL, [("keyword dispatch", "src/parse.rs consume_item"), ("angle-bracket aware scanning", "src/parse_utils.rs consume_stuff_until"),
        ("qualifier look-ahead and rollback", "src/parse_fn.rs consume_fn")],
  ["result of parse_item on generated and real-world items that an independent parser accepts"])
p("C04", "Items are classified by kind, and accessors agree with the classification",
  "A declaration is classified as the kind its keywords say (struct, enum, union, mod, trait, impl, type alias, function, const/static, use, macro, extern block, extern crate), whatever qualifiers precede them. For that item exactly the accessor of its kind returns a value, and name(), attributes(), generic_params() and their mutable variants give exactly the declared name, attribute list and generic list, or nothing for kinds that have none.",
  ["inputs"], "every well-formed item of every kind with every combination of qualifiers, and every accessor",
  "Tests check one accessor per sample; the ambiguous prefixes (const/unsafe/extern/default/async ...) form a combinatorial space.",
  ["src/parse.rs", "src/parse_fn.rs", "src/parse_impl.rs", "src/types_edition.rs"],
  [("keyword dispatch and NotFunction fallback", "src/parse.rs, src/parse_fn.rs"), ("accessor matches", "src/types_edition.rs")],
  ["all as_*() accessors, name(), attributes(), generic_params(), *_mut()"])
p("C05", "Struct, enum and union contents are reported exactly as declared",
  "For every well-formed struct, enum or union, the parsed value lists exactly the declared fields or variants, in order, each with its own attributes, visibility, name, type tokens and separator, and the right shape (unit, tuple or named). Its own attributes, visibility, name, generics, where clause and final semicolon are those of the declaration, and a comma, angle bracket or arrow inside a type never splits or merges fields.",
  ["inputs"], "every well-formed struct, enum and union, for any number of fields or variants and any field type",
  "Tests use up to three fields with simple types; splitting depends on the interplay of nesting, arrows, brackets and commas.",
  ["src/parse.rs", "src/parse_type.rs", "src/parse_utils.rs"],
  [("parse_named_fields / parse_tuple_fields / parse_enum_variants", "src/parse_type.rs"),
   ("consume_field_type", "src/parse_type.rs")],
  ["public fields of Struct, Enum, Union, Fields, EnumVariant, NamedField, TupleField"])
p("C06", "Enum discriminants are exact or reported as an error at their location",
  "A discriminant made of a single token or group is stored exactly, on the variant it was written for, after any kind of variant contents. If any variant of a top-level enum has a discriminant of several tokens, parsing returns an error (it neither panics nor accepts), the error's location is that discriminant's first token, and rendering it gives a compile_error at that location; the other variants cannot hide it.",
  ["inputs"], "every enum, every position of the discriminant, every token sequence as its value",
  "Two tests cover one literal and one error; position, contents kind, token kinds and the span are never checked.",
  ["src/parse_type.rs", "src/parse.rs", "src/error.rs"],
  [("consume_enum_discriminant", "src/parse_type.rs"), ("error propagation", "src/parse.rs")],
  ["EnumVariant.value, Err(Error), Error::span(), Error::to_compile_error()"])
p("C07", "Function signatures are reported exactly as declared",
  "For every well-formed function, method or foreign function, the parsed value reports exactly the declared qualifiers (default, const, async, unsafe, extern with its ABI), name, generics, parameters in order, return type, where clause, and body or semicolon. A self parameter without a type is a receiver with exactly its reference, lifetime and mut parts; every other parameter (a typed self included) has exactly its attributes, mut, name and type.",
  ["inputs"], "every well-formed signature in item, impl, trait and extern-block position, with any number of parameters",
  "Tests enumerate some single qualifiers and a few parameter lists; combinations of qualifiers, receivers, attributes, arrows in types and where clauses are not covered.",
  ["src/parse_fn.rs", "src/parse_impl.rs", "src/parse_type.rs"],
  [("consume_fn_qualifiers / parse_fn_params / consume_fn_return", "src/parse_fn.rs")],
  ["public fields of Function, FnQualifiers, FnParam, FnReceiverParam, FnTypedParam"])
p("C08", "Generic parameters and where clauses are reported exactly as declared",
  "For every item that has them, the parsed generic list holds exactly the declared lifetime, type and const parameters, in order, each with its kind, name and full bound tokens, and the where clause holds exactly the declared predicates, each split at its own colon into left side and bound. Nested angle brackets, arrows, higher-ranked binders, path separators, associated-type bindings and trailing commas never change that division.",
  ["inputs"], "every generic parameter list and where clause over every item kind that can carry one",
  "Tests have a handful of fixed lists; the division depends on arbitrary bound and type grammar.",
  ["src/parse_type.rs", "src/parse_utils.rs"],
  [("consume_generic_params, consume_bound, consume_where_clause", "src/parse_type.rs"),
   ("consume_predicate_left_side, consume_stuff_until", "src/parse_utils.rs")],
  ["GenericParamList, GenericParam, GenericBound, WhereClause, WhereClausePredicate fields"])
p("C09", "Impl, trait, mod and extern-block headers and members are exact",
  "For every well-formed impl, trait, module or extern block the parsed header (unsafe, generics, trait and self type, supertrait bound, where clause, ABI, name) is exactly the declared one, and the body lists every member once, in order, with its own kind, attributes, visibility and contents. Inner attributes belong to the block and outer ones to the member they precede, at any nesting depth of modules.",
  ["inputs"], "every well-formed block with any sequence of members and any nesting",
  "Tests have one or two members of each kind; ordering, attribute attachment and nesting combinations are unexplored.",
  ["src/parse_impl.rs", "src/parse_mod.rs", "src/parse_extern.rs"],
  [("parse_impl, parse_trait, parse_impl_body", "src/parse_impl.rs"), ("parse_mod", "src/parse_mod.rs"),
   ("parse_extern_block", "src/parse_extern.rs"), ("consume_inner_attributes", "src/parse_utils.rs")],
  ["public fields of Impl, Trait, Module, ExternBlock and their members"])
p("C10", "Attributes and visibility markers are attached and split exactly",
  "Wherever attributes may appear (items, members, fields, variants, parameters, and inner attributes of blocks), each one is stored once, in order, on the element it precedes, split into exactly its path tokens and its value (nothing, delimited group or `=` value); the single-segment query answers the identifier exactly when the path has one segment, and the value query gives exactly the value tokens. A visibility marker is stored exactly when one is written, restriction included, and never swallows the tokens of the type or item after it.",
  ["inputs"], "every attribute path and value, every visibility form, at every position",
  "Tests check a few attributes on structs and functions; visibility ambiguity with tuple types and crate paths is position dependent.",
  ["src/parse_utils.rs", "src/types_edition.rs"],
  [("consume_attributes_with_inner, consume_vis_marker", "src/parse_utils.rs"),
   ("Attribute::get_single_path_segment / get_value_tokens", "src/types_edition.rs")],
  ["Attribute, AttributeValue, VisMarker fields and query methods"])
p("C11", "Const, static, alias, use, extern-crate and macro items are exact",
  "For every well-formed const, static, type alias, use declaration, extern crate declaration and item macro (macro_rules included), the parsed value reports exactly the declared keyword, mut, name, type, bound, initializer, import tree, rename, delimiters and inner tokens. Operators, brackets, blocks and arrows inside an expression, type or macro body never end it early; only its own terminator does.",
  ["inputs"], "every well-formed item of these kinds, at top level and as members",
  "Tests have a couple of literals per kind; initializers and macro bodies are arbitrary token sequences.",
  ["src/parse_impl.rs", "src/parse_mod.rs", "src/parse_extern.rs", "src/parse_fn.rs"],
  [("parse_const_or_static, consume_ty_definition", "src/parse_impl.rs"), ("parse_use_declaration", "src/parse_mod.rs"),
   ("consume_macro", "src/parse_fn.rs"), ("parse_extern_crate", "src/parse_extern.rs")],
  ["public fields of Constant, TypeAlias, UseDeclaration, ExternCrate, Macro"])
p("C12", "Item boundaries in a token stream are exact",
  "Consuming items one after another from a stream of well-formed declarations yields exactly those items, in order; after each one the iterator stands exactly at the first token of the next, whatever follows, and items parsed this way are the same as when parsed alone. Parsing a single item refuses any stream with tokens left over.",
  ["inputs", "histories"], "every sequence of declarations, of any kinds, and every trailing token",
  "Only two tests consume from a longer stream; over- and under-consumption depends on what follows each kind of item.",
  ["src/parse.rs", "src/parse_impl.rs", "src/parse_fn.rs"],
  [("consume_item leaves the rest in the iterator; look-ahead is rolled back", "src/parse.rs"),
   ("parse_item checks for leftovers", "src/parse.rs")],
  ["items returned by consume_item and the tokens remaining in the iterator"])
p("C13", "Type expressions are recognised as paths exactly when they are paths",
  "Interpreting a parsed type as a path succeeds for every plain path (leading ::, any number of segments, generic arguments with or without turbofish, one surrounding invisible group) and gives exactly its segments, separators and arguments, each argument classified as lifetime, associated binding or type/const with exactly its tokens; quoting the path gives the type's tokens back. For references, tuples, arrays, slices, pointers, function pointers, trait objects, impl types, qualified paths, never and macro types it gives nothing, and it never panics on the type of a well-formed declaration.",
  ["inputs"], "every type expression, at any nesting of generic arguments and with any legal punctuation spacing",
  "About ten fixed paths are tested; classification depends on spacing and nesting.",
  ["src/parse_utils.rs", "src/parse_type.rs", "src/types_edition.rs"],
  [("consume_path, consume_colon2", "src/parse_utils.rs"), ("consume_generic_args, parse_generic_arg", "src/parse_type.rs"),
   ("TypeExpr::as_path", "src/types_edition.rs")],
  ["TypeExpr::as_path, Path, PathSegment, GenericArgList, GenericArg"])
p("C14", "Generic argument lists derived from parameters name every parameter",
  "The inline generic arguments of an item quote to the names of all its generic parameters, in declaration order, with lifetimes ticked, without bounds, const keywords or types, and form a valid argument list for that item; an owned copy lists the same arguments with the right lifetime or type/const classification. Deriving them does not change the item.",
  ["inputs", "histories"], "every generic parameter list, parsed or built",
  "Three tests use one fixed list each.",
  ["src/types.rs", "src/types_edition.rs"],
  [("InlineGenericArgs::to_tokens", "src/types.rs"), ("InlineGenericArgs::to_owned_args", "src/types_edition.rs")],
  ["as_inline_args, get_inline_generic_args, to_owned_args and their quoted tokens"])
p("C15", "Editing builders add exactly what was asked and keep the item valid",
  "After any sequence of adding generic parameters and where predicates to a struct, enum or union, the item has exactly the original and added parameters (an added lifetime goes to the front of the list, an added type or const parameter to its end) and predicates (in order), everything else untouched, and it quotes to a valid declaration with properly separated lists, trailing commas or missing lists in the original notwithstanding. A derived where clause holds every original predicate plus exactly one bound on the given trait per type parameter, and leaves the item itself unchanged.",
  ["histories", "inputs"], "every sequence of builder calls on every parsed struct, enum and union",
  "Tests apply one or two calls to fixed items; separators depend on the history and on how the original list ended.",
  ["src/types_edition.rs", "src/punctuated.rs"],
  [("with_param, with_where_predicate, create_derive_where_clause", "src/types_edition.rs"),
   ("GenericParam constructors, WhereClausePredicate::parse", "src/types_edition.rs"), ("Punctuated::push / insert", "src/punctuated.rs")],
  ["quoted tokens and fields after each builder call; independent parser accepts the result"])
p("C16", "The punctuated list behaves like a sequence with separators",
  "After any sequence of pushes, inserts, clones and slice edits the list holds exactly the values a plain sequence would hold in the same positions; length, emptiness, item iteration, separator iteration and indexing agree with it; inserting past the end panics and changes nothing. It always quotes as the values in order with exactly one comma between neighbours (the given comma when one was given with push), and a final comma exactly when the last push supplied one.",
  ["histories"], "every sequence of operations with every mix of given and missing commas",
  "Punctuated is only exercised through two builder tests; its behaviour is a function of the whole history.",
  ["src/punctuated.rs"], [("skip_last flag maintained by push/insert", "src/punctuated.rs"), ("ToTokens for Punctuated", "src/punctuated.rs")],
  ["Punctuated public API compared with a reference model after every operation"])
p("C17", "Errors keep every message, in order, at its location",
  "An error built from any text and location, and combined with any others in any grouping, renders as one compile_error invocation per message, in combination order, each with exactly the message text (any characters) and located from the first to the last token it was created for; rendering is repeatable and does not consume the error. Its displayed text and span() are those of the first message, errors at empty token lists fall back to the call site, and clones are independent.",
  ["inputs", "histories"], "every message text, span and combination tree",
  "No test looks at a combined error, an odd message or any span.",
  ["src/error.rs"], [("Error::combine, new_at_tokens, to_compile_error", "src/error.rs")],
  ["to_compile_error tokens and spans, Display, Debug, span()"])
p("C18", "Parsing is a pure function of its input",
  "Parsing the same tokens always gives the same outcome (same refusal or same item), no matter what was parsed, refused, edited or dropped before, how often, on which thread or how many threads parse at the same time, or in which process; parsing one stream never changes a clone of that stream or another item.",
  ["histories", "schedules"], "every history of earlier calls, refusals included, and every set of concurrent threads",
  "Each test parses each input once in a fresh process, so any carried-over state is invisible.",
  ALL + ["src/types_edition.rs"], [("no global or thread-local state; input consumed by value", "src/")],
  ["outcome digests of the same inputs at different points of long histories, on several threads and in several processes"])
p("C19", "No undefined behaviour and no memory leaks",
  "Parsing, refusing, inspecting, quoting, formatting, editing, cloning and dropping never touch memory invalidly, never race and never leave memory allocated once all values are dropped (refusal by panic included), for any input.",
  ["inputs", "schedules"], "every input and every public operation",
  "Tests run without any memory checker; invalid accesses and leaks are invisible to assertions.",
  ALL + ["src/types_edition.rs", "src/punctuated.rs", "src/error.rs"], [("safe Rust only, owned values", "src/")],
  ["Miri, AddressSanitizer, a counting allocator around every operation"])
p("C20", "Work is bounded: parsing always terminates, in near-linear work",
  "Every call on every input, well-formed or not, returns or refuses after a bounded amount of work: doubling the size of a declaration (its lists, its nesting, its token counts) at most roughly quadruples the work, and never multiplies it without bound. No input makes a call loop forever or grow exponentially with nesting.",
  ["inputs"], "every input family scaled in length and in nesting depth, and arbitrary token streams",
  "Tests have tiny inputs and no cost bound; exponential reparsing or a missed end condition only shows at scale or on refusal paths.",
  ALL, [("single pass with one-item look-ahead", "src/parse*.rs"), ("loops stop at the end of the stream", "src/parse_utils.rs")],
  ["count of control-flow edges executed inside the library per call"])
p("C21", "Debug output and clones are faithful and independent",
  "Every parsed or edited value, and every path or argument list derived from one, can be formatted for debugging, compactly and prettily, without panicking, identically for a clone, and the output shows every identifier and literal of it, as often as it is written (list separators and delimiters may be left out). A clone quotes identically, and editing or dropping either one never affects the other.",
  ["inputs", "histories"], "every accepted declaration and every edit of a clone",
  "Snapshots freeze the output for specific small inputs only.",
  ["src/types.rs", "src/punctuated.rs"], [("Debug impls", "src/types.rs"), ("derived Clone", "src/types.rs")],
  ["format!(\"{:?}\") and {:#?} of every value, quoted tokens of original and clone"])
p("C22", "Convenience queries agree with the declaration",
  "The field names, field tokens and field types of a struct are those of its declared fields in order (consecutive indices from 0 for tuples, at any length); an enum is C-like exactly when every variant is a unit variant, a variant is empty exactly when it is a unit variant, and its single type is given exactly when it is a tuple of one. The lifetime, type and const parameter queries partition the generic parameters in order, and const/static and parameter-kind predicates agree with the keywords written.",
  ["inputs"], "every struct, enum, union, constant and generic list, of any length",
  "Tests check two-field samples.",
  ["src/types_edition.rs", "src/types.rs"], [("query methods", "src/types_edition.rs")],
  ["field_names, field_tokens, field_types, is_c_enum, is_empty_variant, get_single_type, get_*_params, is_*"])
p("C23", "The guarantees hold inside a real compiler's procedural macros",
  "Used from attribute, derive and function-like macros under the installed compiler, parsing real declarations (including those whose parts come from other macros' expansions) gives items that quote back the very tokens the compiler supplied, spacing and locations included, and generated impls compile against the annotated types. Errors the library returns or renders appear as compiler diagnostics with the right text at the right source line.",
  ["programs", "inputs"], "every declaration the compiler hands to a macro",
  "All tests run on the fallback token implementation, never inside rustc, where spacing, invisible groups and spans come from the compiler.",
  ALL + ["src/error.rs", "src/types_edition.rs"], [("only the proc_macro2 API is used", "src/")],
  ["an instrumented proc macro run by rustc on generated crates, and rustc's JSON diagnostics"])
p("C24", "Malformed declarations are refused, never half-parsed",
  "A token stream that is not a declaration because a required part is missing, doubled, replaced or cut off (keyword, name, body, parameter list, colon, return arrow, angle bracket of a generic list, terminator, a macro's `!`, the comma between variants or after a receiver, an attribute's `#` or brackets, a discriminant's `=` or value) is refused by an error or panic instead of yielding an item. Doubled or leading commas in field, variant, parameter and generic lists, members that cannot occur in a block, stray tokens among members or in front of the item, misplaced inner attributes, visibility or qualifiers where none are allowed, and `const mut` are refused likewise. (Type, expression, bound and import tokens are taken as they come, so a defect inside them is not detected.)",
  ["inputs"], "every well-formed declaration with one such defect injected at any place",
  "Tests check about a dozen should-panic inputs; refusal must hold for defects at any position and in any combination of surrounding parts.",
  ALL, [("parse_* helpers panic on the unexpected token", "src/parse_utils.rs"),
        ("assertions in list and block parsers", "src/parse_*.rs")],
  ["outcome of parse_item on well-formed declarations with injected defects"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
