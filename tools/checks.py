"""What decides each property: Verus recipes, Kani harnesses, and the bounded native stand-in."""

KANI = "Kani (CBMC) loop-free harnesses over the full domain of the real crate's functions, i.e. complete proofs"
VERUS = "Verus contracts on functions extracted mechanically from /repo on every run"
NATIVE = "; a bounded native run of the real crates stands in for what no verifier reaches and supplies failing inputs"

CHECKS = {
    "C01": {
        "level": "proof", "technique": "contract proof: Kani full-domain harnesses on the real number type" + NATIVE,
        "note": "All u64, i64 and f64 inputs proved for construction and accessors; the text form (itoa/ryu) is bounded only. Trusts CBMC's float model and rustc.",
        "kani": {"number": ["c01_from_u64", "c01_from_i64", "c01_from_small_ints", "c01_from_f64", "c01_reachable"]},
        "verus": [],
        "native": True,
        "assume": ["text form of floats (ryu) and integers (itoa) is only checked by the bounded stand-in"],
    },
    "C02": {
        "level": "proof", "technique": "contract proof: " + VERUS + ", plus Kani full-domain harnesses" + NATIVE,
        "note": "Every checked operation proved against a mathematical integer/float specification for all operands; f64 operators are uninterpreted total functions in Verus.",
        "kani": {"number": ["c02_neg", "c02_add_sub_int", "c02_int_mul", "c02_float_mul_valid", "c02_float_div_valid"]},
        "kani_thorough": {"number": ["c02_float_add", "c02_float_sub"]},
        "verus": ["number_ops"],
        "native": True,
        "assume": ["f64 operators are total functions of their operands (uninterpreted in Verus)",
                   "signed `/` and `%` on i128 truncate, as the Rust reference defines"],
    },
    "C03": {
        "level": "proof", "technique": "contract proof: Kani full-domain harnesses on the real Eq/Ord/Hash impls" + NATIVE,
        "note": "Proved for all pairs of numbers against an exact mathematical comparison; transitivity follows from agreement with the mathematical order.",
        "kani": {"number": ["c03_cmp_is_mathematical_order", "c03_equal_numbers_hash_alike", "c03_reflexive", "c01_reachable"]},
        "verus": [],
        "native": True,
        "assume": [],
    },
    "C04": {
        "level": "proof", "technique": "contract proof: " + VERUS + NATIVE,
        "note": "escape_markers/unescape_markers and their helpers proved for all strings against a recursive specification, with unescape(escape(s)) == s as a lemma; the parser's own treatment of escaped markers is bounded only.",
        "verus": ["template_markers"], "native": True,
        "assume": ["std's char iterators, slice windows and str slicing behave as documented"],
    },
    "C05": {
        "level": "proof", "technique": "contract proof: " + VERUS + NATIVE,
        "note": "Both writers of quoted strings proved for all strings: what they write, read with the escape table extracted from the parser, is the original text and has no control character; the parser's fragment combinators themselves are bounded only.",
        "verus": ["escape_edit", "escape_fmt", "template_markers", "templated"], "native": True,
        "assume": ["the parser tries fragments in the order the reading specification states (combinators, bounded check only)",
                   "writers append exactly the bytes given", "write! of {:04X} writes four upper-case hexadecimal digits"],
    },
    "C06": {
        "level": "proof", "technique": "contract proof: " + VERUS + NATIVE,
        "note": "is_id_start/is_id_continue/is_ident and the Ident constructors proved for all strings, relative to the two unicode-ident tables; parsing and printing of identifiers is bounded only.",
        "verus": ["ident"], "native": True,
        "assume": ["unicode-ident's XID tables are total functions on char"],
    },
}

EVAL = ["evaluation of the whole tree is assembled from contracts: each eval_* recipe proves its own functions and assumes the contracts the other eval_* recipes prove",
        "numbers are opaque here (their operations are proved under C01-C03); equality and Display of values are uninterpreted",
        "IndexMap, VecMap, Vec and VecDeque wrappers behave as std/indexmap document (insertion order, distinct keys)",
        "a template expression's text parses to a strictly smaller tree, so evaluation is well-founded (termination itself is not proved: partial correctness)",
        "closures and iterator chains are desugared into matches and loops as std defines them; usize is 64 bit"]


def _eval(recipes, note):
    return {"level": "proof", "technique": "contract proof: " + VERUS + NATIVE, "note": note, "verus": recipes, "native": True, "assume": EVAL}


CHECKS.update({
    "C09": _eval(["eval_ops"], "UnaryOp/BinaryOp/Operation evaluation proved equal to the operator table for all operands and contexts."),
    "C10": _eval(["eval_vars", "eval_dispatch"], "Context lookup/declaration and the expression dispatcher (literals, arrays, objects, object keys) proved against the recursive meaning of expressions, for all contexts and trees."),
    "C11": _eval(["eval_call"], "FuncCall::evaluate, FuncDef::call, FuncArgs::new, ParamType::is_satisfied_by and the Value accessors proved for all calls: the function body is reached only with conforming arguments."),
    "C12": _eval(["eval_access"], "Traversal and splat evaluation proved for all values and operator sequences."),
    "C13": _eval(["eval_for"], "ForExpr::evaluate, Conditional::evaluate, Collection and its iterator proved for all collections, conditions and groupings."),
    "C14": _eval(["eval_template"], "Template rendering (elements, interpolation, directives, strip markers, unwrapping) proved for all parsed templates; what text parses to is bounded (C19, C27)."),
})

FMT_ASSUME = ["the writer appends the bytes it is given", "escaping of strings and template markers, is_templated and is_ident are decided under C04, C05 and C06",
              "quoted_template, itoa and the text of numbers are opaque (C01, C02, bounded)", "map entries are visited in insertion order",
              "fewer than 2^64 levels of nesting", "an identifier is a non-empty text on one line (C06)", "partial correctness: termination of the mutually recursive format functions is not proved"]
CHECKS.update({
    "C15": {"level": "proof", "technique": "contract proof: " + VERUS + NATIVE,
        "note": "The operator tables, the Pratt driver of hcl-edit, the pratt crate's own parse loop and the parser state's on_binary_ops are proved, for operator chains of every length, to build the tree whose root is the last operator of the lowest level; the combinators that collect the tokens are bounded only.",
        "verus": ["pratt"], "native": True,
        "assume": ["std's Peekable behaves as documented", "decor and span of an expression are no part of the grouping",
                   "partial correctness: termination of the mutually recursive Pratt functions is not proved",
                   "the winnow combinators hand over operand (operator operand)* in source order and recognise each operator by its text (bounded check)",
                   "fewer than 2^60 operators in one chain"]},
    "C16": {"level": "proof", "technique": "contract proof: " + VERUS + NATIVE,
        "note": "The six functions of util.rs, Template::dedent, HeredocTemplate::dedent and the encoding of heredoc templates are proved for all texts and element sequences, with the theorem that a template whose indentation was taken off prints like the template; what text the parser makes into which elements is bounded only.",
        "verus": ["heredoc", "template_markers"], "native": True,
        "assume": ["std's str functions (split_inclusive, trim_start, strip_suffix, split_at, trim_end_matches, chars) behave as documented; char::is_whitespace holds for the line ending characters and the blank and not for `$`, `%`, `{`",
                   "writers append exactly the bytes given; what interpolations, directives and decor print is opaque here",
                   "heredoc templates the parser makes have no empty literal and end with a line ending or an element (bounded check)",
                   "elements are changed in place one by one (an `&mut` loop as take out, change, put back)"]},
    "C17": {"level": "proof", "technique": "contract proof: " + VERUS + NATIVE,
        "note": "locate_error and is_continuation_byte proved for every input and offset: line, column (counted in characters) and the quoted line are those of the offset; which offset winnow reports is bounded only.",
        "verus": ["locate"], "native": True,
        "assume": ["winnow's error offset is a character border of the input and at most its length", "the input is valid UTF-8 and shorter than usize::MAX bytes",
                   "String::from_utf8_lossy is the identity on valid UTF-8"]},
    "C08": {"level": "proof", "technique": "contract proof: " + VERUS + NATIVE,
        "note": "Every operation of Body and BodyBuilder that edits, looks up or consumes (45 functions) is proved to be its plain-list counterpart for all bodies, positions and structures; the `&mut` views (get_mut, iter_mut, get_blocks_mut, ...), Eq and Clone are bounded only.",
        "verus": ["body_edit"], "native": True,
        "assume": ["Vec behaves as vstd specifies it; a boxed lazy iterator yields what its chain of adapters yields, in order", "Into<Structure> conversions of the caller give the structure that is passed",
                   "derive(Default) gives an empty body"]},
    "C18": {"level": "proof", "technique": "contract proof: " + VERUS + NATIVE,
        "note": "The builder, the formatter's own functions and every Format impl are proved to write the construct's parts in order, with every gap the one the options and the nesting ask for, and to leave the formatter as they found it; a theorem over these contracts shows that two option sets give the same parts but for gaps of the allowed shapes and the spelling of identifier keys. That a parser skips such gaps is bounded only.",
        "verus": ["format_impls"], "native": True,
        "assume": FMT_ASSUME + ["the parser reads over every gap of the proved shapes (bounded check)"]},
    "C20": {"level": "exploration", "technique": "contract proof of the formatter's half: " + VERUS + "; parsing the text back is bounded",
        "note": "What every construct is printed as is proved (every Format impl against a specification of its text); that the parser reads this text back as an equal tree is bounded: generated trees and a corpus of constructs, not proved.",
        "verus": ["format_impls"], "native": True, "assume": FMT_ASSUME + ["parsing back: bounded check"]},
    "C19": {"level": "exploration", "technique": "contract proof of the printing half: " + VERUS + "; that the grammar's tree holds the whole input is bounded",
        "note": "Printing is proved: the encoder as a whole writes exactly the text of a tree (every token, decor, stored spelling and escape mode in its place), every `despan` keeps that text while it turns spans of the input into text, and parse_body, parse_expr and parse_template return the grammar's tree with its text as it was. That the text of the grammar's tree is the input is bounded: generated texts and fixtures, not proved.",
        "verus": ["encode_edit"], "native": True,
        "assume": ["fmt::Write::write_str appends its argument or fails", "Vec, Option, Range, str::trim_end_matches, str::split_at, Peekable over a slice and mem::replace as in their documentation",
                   "VecMap iterates in order over what it holds; iter_mut2 hands out each entry in place",
                   "encode_indented (C16), encode_escaped and escape_markers (C04, C05) and the Display of numbers (C01) are specification functions here",
                   "`EncodeState::new(f)` is the formatter with the escape mode off; a closure passed to a writer is a function of what it captures",
                   "the stored spelling of a number is never a span", "termination of the mutually recursive encoder"]},
    "C21": {"level": "exploration", "technique": "contract proof of the way through values: " + VERUS + "; the way through text is bounded",
        "note": "Through values is proved: every method of the value serializer, of the map key serializer and of the value deserializer (macros expanded) against serde's data model, so that every piece of data has the value the specification says, or is refused; data of every shape (all integer and float types, options, newtypes, lists, tuples, maps, structs, all four kinds of enum variants) is rebuilt from its value, and a value as a value is itself.  Through HCL text is bounded (a zoo of types).",
        "verus": ["serde_value"], "native": True,
        "assume": ["a Serialize implementation makes the calls of its data, as derive generates them (the calls themselves are made, for every kind of data, by the recipe's `Datum`)",
                   "a Deserialize implementation rebuilds what it is shown, as derive generates it (specification function `dec`)",
                   "serde's SeqDeserializer, MapDeserializer, StringDeserializer, serialize_entry and forward_to_deserialize_any as in their documentation",
                   "the generic serializer and deserializer of Value's own impls are instantiated with the value serializer and deserializer",
                   "Number::from_f64 keeps the number (C01), From of lists and maps of values (C22)", "IndexMap: insert replaces in place or appends; iteration in order"]},
    "C28": {"level": "proof", "technique": "contract proof: " + VERUS + NATIVE,
        "note": "Every `From` of expr/edit.rs, template/edit.rs and structure/edit.rs, in both directions, is proved to keep the tree (both representations are read as one kind of ghost tree), with the constructors, builders and collections they use; theorems over these contracts: plain to editable and back is the same tree, editable to plain keeps every part.",
        "verus": ["edit_convert"], "native": True,
        "assume": ["VecMap: collecting and inserting replace the value of an equal key in place; keys are equal when their trees are (not so for keys that differ in blanks inside of a template: the known finding)",
                   "the text of a template is a fixed point of printing and parsing, a text that is no template becomes the empty one (C19, C27: bounded)",
                   "Decor, RawString, Ident and Number are moved and never looked into",
                   "Body::has_attribute as proved in C08",
                   "Vec, Option, Box and iterator functions of std as in their documentation",
                   "the conversions call each other through trait instances: each instance is a stub that calls the proved function of its impl",
                   "termination of the mutually recursive conversions"]},
    "C23": {"level": "proof", "technique": "contract proof: " + VERUS + NATIVE,
        "note": "Every evaluate_in_place (expressions, object keys, vectors, objects, traversals, calls, conditionals, operations, for expressions, templates, structures and bodies), evaluate_nested_exprs, the Errors type, the conversion of values to expressions and the evaluation of bodies are proved: in place succeeds exactly where evaluating does and leaves the expression of the same value, an error list is never empty, and what is left gives the same result as what was there in every context that extends the given one.",
        "verus": ["eval_place"], "native": True,
        "assume": EVAL + ["what `evaluate` returns is what C09-C14 prove", "more definitions do not change what an evaluated template text gives (proved for every other kind of expression)",
                          "object keys that are distinct stay distinct when they are evaluated (where they do not, entries are merged: the known finding)",
                          "iter_mut changes each element in place (take out, change, put back)"]},
    "C22": {"level": "proof", "technique": "contract proof: " + VERUS + NATIVE,
        "note": "json_spec.rs as a whole, the conversions and collections of Expression and Value it uses, and From<Expression> for Value (19 functions) are proved for all bodies: the value is the fold of the structures; what is found at the path of a block is its bodies in document order, an attribute is found under its name, and no name is invented. Blocks of one identifier whose labels go on where another's end replace each other: the known finding. Reading a document as a Value through serde is bounded.",
        "verus": ["json_spec"], "native": True,
        "assume": ["IndexMap: insert, entry and collect keep one entry per key, in order of first insertion; VecMap keeps all entries whose keys have different texts",
                   "Body::into_iter yields its structures in order; Vec, Option and iterator functions of std as in their documentation",
                   "the texts of templates and of expressions without a plain value are opaque here (C20); to_interpolated_string does not fail",
                   "the conversions call each other through trait instances: each instance is a stub that calls the proved function of its impl",
                   "termination of the mutually recursive conversions"]},
    "C29": {"level": "proof", "technique": "contract proof: " + VERUS + NATIVE,
        "note": "visit.rs and visit_mut.rs as a whole (the 66 functions and the 93 default methods, macros expanded), and the accessors and iterators of hcl-edit they walk over, are proved for every visitor whose hooks keep a log: each appends exactly the calls listed for its node, in document order; a mutable walk leaves everything but the parts it hands out as it was.",
        "verus": ["visit"], "native": True,
        "assume": ["a visitor is any type whose hooks append their call to a ghost log (the functions are generic over it, so they can do nothing else with it)",
                   "Vec and VecMap iterate in order over what they hold; iter_mut hands out each element in place",
                   "&Box<T> coerces to &T; &Decorated<T> through the Deref impl that is under contract"]},
})

# Properties for which only the bounded stand-in decides so far; each gains a proof entry above as
# its functions come under contract.
BOUNDED = ["C25", "C27"]
for _i in BOUNDED:
    CHECKS.setdefault(_i, {
        "level": "exploration", "technique": "bounded check of the real crates against a reference model (stand-in for contracts)",
        "note": "Bounded only: generated and enumerated inputs run through the real crates and compared with an independent oracle; nothing is proved.",
        "verus": [], "native": True, "assume": [],
    })

NOT_APPLICABLE = {}
