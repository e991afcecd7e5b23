#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the properties)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

prop("C01", "Only like quantities can be added, subtracted, compared or assigned",
 "Adding, subtracting, taking a remainder, comparing, or assigning (including the in-place forms) compiles exactly when both quantities have the same dimension, the same scale, the same storage type and the same brand, and then yields that same type with the result of the operation on the stored numbers. Any difference in one of the eight dimension exponents, one of the four scale exponents, the storage type or the brand makes the program fail to compile. Rescaling compiles exactly when dimension, storage type and brand agree, whatever the scales.",
 ["programs"], "for all ordered pairs of quantity types (8 dimension exponents x 4 scale exponents x 14 numeric storage types x brands) and all of + - % += -= %= < <= > >= partial_cmp, assignment and rescale",
 "Four compile-fail cases exist (length+time, one wrong assignment, two comparisons); they touch two of twelve exponent slots, f64 only, no brand. An impl made too generic in one slot, for one operator or one storage type passes every one of them.",
 ["src/arithmetic.rs", "src/arithmetic_quantity_types.rs", "src/api.rs", "src/quantity.rs", "src/scale_conversion.rs"],
 [("operator impl macros bound to one quantity type", "src/arithmetic.rs quantity_quantity_add_sub_interface, ..._assign_interface, quantity_quantity_partial_ord_interface"), ("quantity type macros", "src/arithmetic_quantity_types.rs"), ("rescale signatures", "src/api.rs define_float_rescale, define_int_rescale")],
 [("register type", "dimension vector, scale vector, storage type and brand of a quantity", "src/quantity.rs Quantity")],
 ["whether a program using the operator type-checks", "the result type's exponents and the result's stored number"])

prop("C02", "Products, quotients and inverses have exactly the derived unit and number",
 "Multiplying or dividing two quantities yields a quantity whose every dimension and scale exponent is the exact sum or difference of the operands' exponents, and whose stored number is the product or quotient of the stored numbers. Multiplying, dividing or taking the remainder by a plain number and negating keep the unit; a plain number divided by a quantity negates every exponent. Floating-point results are the IEEE results of the same operations on the stored numbers, signed zeros, infinities and NaN included. This holds for every exponent in the supported range, every storage type and every brand, along any chain of operations.",
 ["programs", "histories"], "for all operand types with exponents in -200..200 (results in -400..400), all 14 storage types and all finite chains of operations",
 "The tests multiply a handful of low-order units in f64/i32; the type-level arithmetic is table driven (about 1200 hand-listed entries), and a single wrong entry or a swapped exponent slot only shows for specific exponents.",
 ["src/arithmetic.rs", "src/arithmetic_quantity_types.rs", "src/api.rs", "whippyunits-core/src/num.rs", "whippyunits-core/src/dimension_exponents.rs"],
 [("mul/div/inverse impls and their where clauses", "src/arithmetic.rs, src/api.rs define_arithmetic_signed/define_arithmetic"), ("type-level integers", "whippyunits-core/src/num.rs N<X>, tables __link_num_to_typenum/__link_typenum_to_num"), ("type-level dimension vectors", "whippyunits-core/src/dimension_exponents.rs TypeDimensionExponents")],
 [("exponent vectors", "dimension and scale of the running quantity", "type parameters of Quantity")],
 ["exponents and stored number of the result type after each operation"])

prop("C03", "Floating-point rescaling preserves the physical quantity",
 "Rescaling an f32 or f64 quantity from any scale to any other scale of the same dimension multiplies the stored number by the true ratio of the two scales, to within a few units in the last place (growing at most linearly with the exponents involved). Consequently rescaling there and back returns the original number to within rounding and rescaling through an intermediate scale agrees with rescaling directly. Zero keeps its sign, infinities and NaN stay what they are, and rescaling in a constant expression gives what it gives at run time.",
 ["inputs", "histories"], "for all scale pairs (in and beyond the library's power tables, |2|,|3|,|5| <= 100, |pi| <= 8, as long as the ratio is a normal f64), all finite inputs and all chains of rescalings",
 "Tests rescale between a few decimal prefixes; the factor comes from about 640 generated table entries over four bases and from per-storage-type generated functions, so one wrong entry or swapped argument shows only for the unit pairs that reach it.",
 ["src/scale_conversion.rs", "src/api.rs", "src/rescale_macro.rs", "proc-macros/src/pow_lookup_macro.rs"],
 [("power tables", "proc-macros/src/pow_lookup_macro.rs expand_float/expand_pi_float"), ("factor aggregation", "src/api.rs define_aggregate_scale_factor_float!"), ("rescale functions and macro", "src/scale_conversion.rs _define_float_rescale, src/rescale_macro.rs")],
 None, ["stored number and unit after rescale / rescale_f32 / rescale! / value!"])

prop("C04", "Integer rescaling is exact rational arithmetic or a visible failure",
 "Rescaling an integer quantity yields the exact rational multiple of the stored number (pi being taken as 355/113) truncated toward zero whenever that result is representable in the storage type (and the conversion factor's numerator and denominator in 128 bits), even if the intermediate product is not. When the result is not representable the operation fails visibly (compile error or panic). It never returns a wrapped, sign-flipped, truncated or otherwise unrelated number, and it always terminates; in a constant expression it gives the same number, or does not compile.",
 ["inputs", "configurations"], "for all 12 integer storage types, all scale pairs, and all stored numbers including negatives and values at the type's limits",
 "Tests rescale small positive i32 numbers by powers of ten; the overflow heuristic, narrow types, negative numbers, zero and non-decimal or irrational scales are never reached.",
 ["src/scale_conversion.rs", "src/api.rs", "proc-macros/src/pow_lookup_macro.rs"],
 [("rational factor", "src/api.rs define_aggregate_scale_factor_rational!, src/scale_conversion.rs reduce_rational"), ("overflow handling", "src/scale_conversion.rs _define_int_rescale"), ("power tables", "proc-macros/src/pow_lookup_macro.rs expand_rational/expand_pi_rational")],
 None, ["stored number after rescale_<int>, or the panic / compile error"])

prop("C05", "Every unit symbol denotes its internationally defined unit",
 "Every unit in the catalogue has the dimension, magnitude and zero-point of the internationally defined unit of that name, and every SI prefix its defined power of ten, so that any prefixed or unprefixed symbol or name resolves to exactly that unit. Symbols and names are unambiguous: no written unit, prefixed or not, resolves to two different meanings or to a meaning other than its SI reading.",
 ["inputs"], "for all units of the catalogue, all their symbols and names, all 24 SI prefixes in both symbol and long form",
 "Unit tests check a dozen conversions; the catalogue has about 90 units in 30 dimensions and 24 prefixes, giving thousands of writable symbols whose values nobody compares with the definitions.",
 ["whippyunits-core/src/units.rs", "whippyunits-core/src/dimensions.rs", "whippyunits-core/src/prefix.rs", "whippyunits-core/src/parser.rs", "whippyunits-core/src/scale_exponents.rs"],
 [("unit table", "whippyunits-core/src/units.rs"), ("dimension table", "whippyunits-core/src/dimensions.rs"), ("prefix table and stripping", "whippyunits-core/src/prefix.rs"), ("symbol resolution", "whippyunits-core/src/parser.rs get_unit_info, evaluate_with_mode")],
 None, ["dimension, scale, factor and offset reported for each written unit"])

prop("C06", "All ways of writing a unit agree on type and value",
 "A unit written in a quantity or unit macro, as a declarator method, as a literal suffix, in a value read-out, or in a runtime string denotes the same dimension and scale and converts numbers identically. In particular the declared number equals the written number times the unit's conversion factor plus its zero-point offset, for every storage type the syntax offers, up to that type's own rounding.",
 ["programs", "inputs"], "for all catalogue units and all prefixed forms, all declaration syntaxes (quantity!, unit!, method, literal, value!, string), and storage types f64/f32/integers where offered",
 "Each syntax is produced by a separate code generator; the tests use a few metres, seconds and feet in each, so a generator that disagrees for one unit, one prefix or one storage type is not seen.",
 ["proc-macros/src/generate_default_declarators_macro.rs", "proc-macros/src/quantity_macro.rs", "proc-macros/src/unit_macro.rs", "proc-macros/src/value_macro.rs", "proc-macros/src/lib.rs", "src/default_declarators.rs", "src/serialization.rs"],
 [("declarator traits", "proc-macros/src/generate_default_declarators_macro.rs"), ("macros", "proc-macros/src/{quantity,unit,value}_macro.rs"), ("literals", "src/default_declarators.rs literals")],
 None, ["type exponents and stored number of each declared quantity"])

prop("C07", "Unit expressions evaluate compositionally; bad ones are rejected",
 "A unit expression's dimension, scale and conversion factor are the product, quotient and power of its parts, with implicit and explicit exponents, dot and star, nesting and numeric powers of ten all agreeing. An expression that is malformed, names an unknown unit, or uses a number that cannot be represented is rejected rather than silently read as something else. Evaluation of any string terminates with a unit or an error and never panics.",
 ["inputs", "programs"], "for all strings over the expression grammar (nesting up to some hundreds of levels, any unit symbols, any exponents) and arbitrary malformed strings",
 "About fifteen fixed expressions are tested, all well formed; the grammar is recursive and unbounded and the rejection side is not tested at all.",
 ["whippyunits-core/src/parser.rs", "src/serialization.rs", "proc-macros/src/unit_macro.rs", "proc-macros/src/quantity_macro.rs"],
 [("recursive-descent parser and evaluator", "whippyunits-core/src/parser.rs UnitExpr"), ("conversion factors", "whippyunits-core/src/parser.rs calculate_unit_conversion_factors"), ("runtime entry", "src/serialization.rs parse_ucum_unit")],
 None, ["parsed dimension/scale or error for each string", "accept/reject of the macros"])

prop("C08", "Reading a quantity in any compatible unit inverts its declaration",
 "Declaring a number in one unit and reading it back in a unit of the same dimension gives the number multiplied by the true ratio of the two units, with zero-point offsets applied correctly when both are temperatures written on a point scale. Integers are cut towards zero. Reading back in the declaring unit returns the original number up to rounding; reading in a unit of another dimension does not compile.",
 ["inputs", "programs"], "for all pairs of catalogue units of equal dimension (prefixed, non-storage and affine included), all finite numbers, f64, f32 and integer storage",
 "The read-out macro has separate code paths for storage, non-storage, affine and compound units, each with its own factor direction; tests cover a few unit pairs with one number each.",
 ["proc-macros/src/value_macro.rs", "proc-macros/src/quantity_macro.rs", "whippyunits-core/src/parser.rs"],
 [("read-out", "proc-macros/src/value_macro.rs"), ("declaration", "proc-macros/src/quantity_macro.rs"), ("unit factors", "whippyunits-core/src/parser.rs")],
 None, ["numbers returned by the read-out macro"])

prop("C09", "Erasure to plain numbers keeps the represented value and nothing else",
 "Converting a dimensionless or purely angular quantity to a plain number yields its represented value at unit scale (ratio, or radians to the appropriate power), for every target number type offered: to within rounding for floats, truncated (or a panic when it does not fit) for the same integer type, and the truncated value whenever it is representable in the target when source and target types differ (infinities and NaN pass unchanged between float types). Erasing the angle from a compound quantity removes only the angle exponent and leaves every other exponent, the scale, the brand and the stored number untouched. No quantity with any other nonzero dimension converts to a plain number.",
 ["programs", "inputs"], "for all residual scales, all angle powers in the supported range, all source and target number types, all dimensions",
 "Tests erase a few f64 ratios and degrees; the conversions are several hundred generated impls over angle powers and number-type pairs.",
 ["src/quantity.rs", "proc-macros/src/generate_all_radian_erasures_macro.rs", "proc-macros/src/generate_all_dimensionless_cross_type_macro.rs"],
 [("erasure impl macros", "src/quantity.rs define_from_dimensionless*, define_from_for_radians*"), ("generated instantiations", "proc-macros/src/generate_all_radian_erasures_macro.rs")],
 None, ["which Into conversions exist and the numbers they return"])

prop("C10", "Deserialisation accepts exactly compatible input and converts it truly",
 "Reading a quantity from JSON or from text succeeds exactly when the input is well formed and its unit has the requested dimension, and then the result is the written number converted by the true ratio between the written and the requested unit. Every other input, including unknown units, missing or duplicated fields and arbitrary text, gives an error. No input makes it panic.",
 ["inputs"], "for all input strings/JSON documents, all written units of any dimension and scale, and all target quantity types",
 "Tests parse six well-formed strings; incompatible, unknown, non-storage, affine, prefixed and malformed inputs are not exercised.",
 ["src/serialization.rs", "whippyunits-core/src/parser.rs"],
 [("input splitting", "src/serialization.rs parse_string_input, parse_json_input"), ("dimension check and conversion", "src/serialization.rs deserialize_core, deserialize_core_quantity, calculate_conversion_factor"), ("serde visitor", "src/serialization.rs QuantityVisitor")],
 None, ["Ok number / Err of from_json!, from_string!, serde_json::from_str"])

prop("C11", "Serialising and reading back returns the same physical quantity",
 "For every quantity type, the serialised form states a number and a unit string that together denote the same physical quantity as the value in memory, and reading it back at the same type returns the original number up to rounding. Reading it back at a different scale of the same dimension returns the rescaled number, and at a different dimension an error.",
 ["inputs", "programs", "histories"], "for all quantity types (dimension, scale, brand), all finite stored numbers whose value in SI units is a normal f64, and both serialisation functions",
 "One test serialises 5 m; the written unit string is built from the dimension alone, so scaled, mass-bearing and compound quantities are never round-tripped.",
 ["src/serialization.rs", "src/print/name_lookup.rs", "whippyunits-core/src/storage_unit.rs"],
 [("unit string", "src/serialization.rs to_ucum_unit"), ("Serialize impl and serialize_to_json", "src/serialization.rs"), ("reader", "src/serialization.rs deserialize_core_quantity")],
 None, ["serialised JSON and the quantity read back"])

prop("C12", "Formatting in a requested unit prints the true converted number",
 "Formatting a quantity in a requested unit prints the stored quantity converted by the true ratio (and zero-point offset) to that unit, followed by that unit, honouring the requested precision. If the requested unit is unknown or of another dimension the output says so and contains no converted number.",
 ["inputs"], "for all quantity types, all unit strings (symbols, long names, prefixed, compound, unknown, malformed), all finite numbers and precision/width specifiers",
 "Tests format a few lengths, times and masses; conversion goes through a separate string resolver from the compile-time path.",
 ["src/quantity.rs", "src/print/format_specifiers.rs", "whippyunits-core/src/parser.rs"],
 [("formatter", "src/quantity.rs Quantity::fmt, QuantityFormatter"), ("unit string resolution", "whippyunits-core/src/parser.rs")],
 None, ["formatted text"])

prop("C13", "The displayed unit denotes the quantity's actual unit",
 "The unit printed by the display and debug formats of a quantity, read as ordinary unit notation, denotes exactly the dimension and scale of that quantity's type (to the printed precision where a numeric factor is shown), and the printed number is the stored number to the printed precision. The debug format's listed exponents are exactly the type's exponents.",
 ["inputs", "programs"], "for all dimension vectors and scale vectors, both short and long forms, all storage types and finite numbers",
 "Tests print a dozen familiar units and mostly do not assert on the text; the name is assembled from table lookups with prefix arithmetic that depends on the exponent combination.",
 ["src/print/prettyprint.rs", "src/print/display_traits.rs", "src/print/name_lookup.rs", "whippyunits-core/src/storage_unit.rs", "whippyunits-core/src/lib.rs"],
 [("pretty printer", "src/print/prettyprint.rs pretty_print_quantity*"), ("unit naming", "whippyunits-core/src/storage_unit.rs generate_unit_literal")],
 None, ["Display and Debug text"])

prop("C14", "Local scale preferences change storage, never the physical quantity",
 "A declarator set with preferred base scales stores every declared quantity at exactly the scale those preferences imply for its dimension, and the stored number is the written number converted by the true ratio, so the physical quantity is unchanged. This holds for its macro, its methods and its literals, for every storage type offered; a set whose preferences are not scales of their dimensions is refused. Quantities declared under a brand carry that brand and cannot be combined with unbranded or differently branded ones.",
 ["configurations", "programs"], "for all choices of eight preferred base scales and brand, all units and unit expressions, and all declaration syntaxes of the generated module",
 "Tests declare two local systems and a few units in each; the stored scale is derived by lifting each unit through the preferences for arbitrary exponents and prefixes.",
 ["proc-macros/src/define_unit_declarators_macro.rs", "proc-macros/src/local_unit_type_macro.rs", "proc-macros/src/generate_local_unit_literals_macro.rs", "proc-macros/src/define_local_quantity_macro.rs"],
 [("declarator set generator", "proc-macros/src/define_unit_declarators_macro.rs"), ("lifting", "proc-macros/src/local_unit_type_macro.rs")],
 None, ["type exponents, brand and stored number of locally declared quantities"])

prop("C15", "Scale-generic dimension traits admit exactly their dimensions",
 "A generic dimension defined by a dimension expression (products, quotients, powers, named, symbolic or derived dimensions, or an alternative list of them) is satisfied by quantities of exactly those dimensions, at every scale and storage type, and by no quantity of any other dimension. The predefined dimension traits satisfy the same rule for their names.",
 ["programs"], "for all dimension expressions over the named dimensions and all quantity dimensions and scales",
 "Tests define three such traits and only use them positively; a trait that admits a wrong dimension, or a mistaken exponent in one named dimension, is invisible to them.",
 ["proc-macros/src/define_generic_dimension_macro.rs", "src/dimension_traits.rs", "whippyunits-core/src/dimensions.rs"],
 [("expression evaluator", "proc-macros/src/define_generic_dimension_macro.rs DimensionExpr"), ("named dimensions", "whippyunits-core/src/dimensions.rs"), ("predefined traits", "src/dimension_traits.rs")],
 None, ["which quantity types satisfy which traits"])

prop("C16", "The language-server proxy relays every message intact and in order",
 "Every message in either direction is delivered exactly once, in order, as a correctly framed message, whatever the sizes and timing of the reads and writes. Editor-to-server messages, and server messages that carry no unit types, arrive with an unchanged body; messages that are rewritten remain valid and keep every part that does not describe a unit type. Malformed or unknown content is relayed rather than dropped, and the session ends cleanly when either side closes.",
 ["schedules", "histories", "inputs"], "for all message sequences in both directions, all chunkings of the byte streams, all permitted header forms, all body contents (any JSON, any UTF-8)",
 "The proxy tests call the text-rewriting functions on single strings; no test runs the framing loop, two directions at once, or chunked input.",
 ["lsp-proxy/src/main.rs", "lsp-proxy/src/lib.rs", "lsp-proxy/src/lsp_structures.rs"],
 [("framing loops", "lsp-proxy/src/main.rs read_lsp_message, relay loops"), ("message rewriting", "lsp-proxy/src/lib.rs process_incoming")],
 [("stream state", "bytes received, header parsed, bytes outstanding, messages relayed", "lsp-proxy/src/main.rs")],
 ["bytes written to the editor and to the server"])

prop("C17", "Pretty-printed types denote the type they replace; other text is kept",
 "Wherever hover texts, inlay hints or compiler messages are rewritten, each replaced quantity type is shown as a unit that denotes that type's dimension and scale with its storage type and brand, and the text around it is unchanged. Text without quantity types passes through unchanged, and partially known types are never shown as a definite wrong unit. No input text causes a panic.",
 ["inputs"], "for all texts containing any number of fully or partially resolved quantity types in any context, and arbitrary other text (any UTF-8)",
 "About thirty fixed strings are tested, nearly all metres, millimetres and seconds; exponents, scales, storage types and surroundings are unbounded.",
 ["lsp-proxy/src/unit_formatter.rs", "lsp-proxy/src/hover_processor.rs", "lsp-proxy/src/inlay_hint_processor.rs", "lsp-proxy/src/quantity_detection.rs", "whippyunits-pretty/src/main.rs", "whippyunits-pretty/src/rustc_pretty.rs"],
 [("type-text parser and formatter", "lsp-proxy/src/unit_formatter.rs"), ("hover/inlay processors", "lsp-proxy/src/hover_processor.rs, inlay_hint_processor.rs"), ("compiler output filter", "whippyunits-pretty/src/rustc_pretty.rs")],
 None, ["rewritten text"])

prop("C18", "Both build configurations implement the same unit algebra",
 "The default stable build and the build using generic constant expressions accept the same programs and give the same units and numbers wherever exponents are within the stable build's range. The generic-constant build additionally supports the full 16-bit exponent range with the same algebra.",
 ["configurations", "programs"], "for all programs over the public operations, under both configurations",
 "The two configurations have separate type-level arithmetic and separate impl bounds; the tests run a fixed small set of programs on each.",
 ["src/arithmetic_quantity_types.rs", "src/api.rs", "whippyunits-core/src/num.rs", "build.rs"],
 [("configuration-specific impls", "src/api.rs and src/arithmetic_quantity_types.rs cfg(has_generic_const_exprs)"), ("type-level integers", "whippyunits-core/src/num.rs mod cge / mod stable")],
 None, ["unit and number after each operation, per configuration"])

prop("C19", "Every feature selection offers the same algebra and what is listed for it",
 "For every selection of the std, alloc and serde features, the selection offers what the documentation lists for it and no more: Display and Debug with alloc; serialisation, the JSON and text readers and formatting with serde; declarations, dimensional safety, arithmetic, rescaling, reading, erasure and generic dimensions always, also in crates without the standard library. A program that is accepted with two selections gives the same units and numbers with both, and a program that uses only the core of the library is accepted in a no_std crate exactly if it is accepted in an ordinary one.",
 ["configurations", "programs"], "for all selections of features and all programs over the public operations and macros",
 "The tests run with the default features only, in ordinary crates; the other selections, and what the macros expand to in a crate without the standard library, are never compiled.",
 ["src/lib.rs", "src/alloc.rs", "src/print", "src/serialization.rs", "src/api.rs", "proc-macros/src"],
 [("feature table and no_std claims", "src/lib.rs crate documentation"), ("conditional modules", "src/lib.rs, src/alloc.rs, src/print/mod.rs"), ("macro expansions", "proc-macros/src, src/api.rs")],
 None, ["acceptance per selection", "unit and number after each operation"])

prop("C20", "Macro arguments are ordinary expressions of the caller",
 "The value given to quantity!, value!, rescale!, from_json!, from_string! or the quantity! of a declarator module may be any expression of the required type. It is evaluated exactly once, from left to right, with the names of the caller's scope whatever they are called, and control flow in it (return, ?, blocks, closures, branches, nested macros) means what it means outside the macro; the result is the one the macro gives for the plain value. The type and brand arguments name types of the caller's scope, whatever they are called. The macros need nothing of the crate that uses them beyond its dependency on whippyunits.",
 ["programs"], "for all expressions, names bound in the caller's scope, units, storage types and brands, and all macros that take a value",
 "Tests and examples pass literals and single variables from crates that depend on all three packages and import everything; a temporary, import or item of an expansion that captures a name of the caller, or an argument repeated in an expansion, shows only with that name, or with an argument that has effects.",
 ["proc-macros/src/quantity_macro.rs", "proc-macros/src/value_macro.rs", "src/rescale_macro.rs", "src/serialization.rs", "proc-macros/src/define_unit_declarators_macro.rs"],
 [("expansion of declarations", "proc-macros/src/quantity_macro.rs expand_with_declarator, expand_with_conversion_factors"), ("expansion of read-outs", "proc-macros/src/value_macro.rs expand"), ("rescaling and deserialising macros", "src/rescale_macro.rs, src/serialization.rs from_json, from_string"), ("quantity! of declarator modules", "proc-macros/src/define_unit_declarators_macro.rs")],
 None, ["whether the program is accepted", "the effects of the argument, in order", "type and number of the result"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
