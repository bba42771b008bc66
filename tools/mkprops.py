#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as source because the lines are long)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=(), state=()):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
                          "observe_at": list(observe), "hook_needed": None}})

PR, RS, ED = "crates/hcl-primitives/src/", "crates/hcl-rs/src/", "crates/hcl-edit/src/"

p("C01", "A Number holds exactly the value it was made from, never NaN or infinity",
  "Making a number from any integer or any finite float gives a number with exactly that mathematical value, and making one from NaN or an infinity is refused. Reading the number back as an integer or float gives the original value whenever the target type can represent it and nothing otherwise, and exactly the integral values in the 64-bit ranges are stored as integers. Printing it and reading the text back gives an equal number.",
  ["inputs"], "every u64, i64, f64 bit pattern (2^64 each), and every narrower integer type",
  "The tests build a few dozen small literals; the ranges where a float and an integer meet (2^53..2^64, negative zero, subnormals) are never sampled.",
  [PR+"number.rs", ED+"parser/number.rs"],
  [("Number::from_f64 / N::from_finite_f64 classification", PR+"number.rs"), ("as_i64/as_u64/as_f64 accessors", PR+"number.rs"), ("Display via itoa/ryu", PR+"number.rs")],
  ["Number::from*", "Number::as_*", "Number::to_string", "serde of Number"])
p("C02", "Number arithmetic is exact on integers and never leaves the finite range",
  "Adding, subtracting, multiplying, negating and taking remainders of integer numbers gives the exact mathematical result whenever that is an integer in the 64-bit ranges, and dividing does so whenever the quotient is exact; otherwise the result is the correctly rounded float operation. No operation ever wraps around, depends on the build profile, or yields NaN or an infinity as a number: such results are reported as a missing result (or a panic of the plain operator).",
  ["inputs"], "all pairs of numbers: integers in [-2^63, 2^64) and all finite floats",
  "The tests add small literals; overflow at the i64/u64 border, mixed signs and float/integer mixes are an unbounded space.",
  [PR+"number.rs"],
  [("checked_add/sub/mul/div/rem, coerce, from_i128", PR+"number.rs"), ("operator impls for owned and borrowed operands", PR+"number.rs")],
  ["+ - * / % on Number", "Number::checked_*"])
p("C03", "Number equality, ordering and hashing agree with the mathematical values",
  "Comparing two numbers gives the order of their mathematical values, whatever way they are stored. Equality is reflexive, symmetric and transitive, agrees with the ordering, and equal numbers have equal hashes, so they can be used as keys.",
  ["inputs"], "all pairs and triples of numbers",
  "Laws over pairs/triples of the whole 64-bit domain; the tests compare a handful of equal-representation values.",
  [PR+"number.rs"], [("PartialEq/PartialOrd/Hash for N", PR+"number.rs")], ["==, partial_cmp, Hash on Number"])
p("C04", "Escaping literal text for templates is undone exactly by unescaping",
  "Escaping any text so that it is safe to place in a template leaves no unescaped interpolation or directive marker in it, and unescaping the result gives back exactly the original text. Unescaping touches only escaped markers, every other character is kept unchanged and in order, and text without markers is passed through as it is.",
  ["inputs"], "all strings",
  "Strings are unbounded and the markers overlap (runs of dollar and percent signs before a brace); the tests sample a handful of strings.",
  [PR+"template.rs"], [("escape_markers", PR+"template.rs"), ("unescape_markers", PR+"template.rs")], ["escape_markers, unescape_markers (public)"])
p("C05", "Every string survives being written as a quoted HCL string and read back",
  "Writing any Unicode string as a quoted string in an HCL document, through the serializer, the formatter or the format-preserving encoder, gives text that parses back to exactly that string. The written text contains no raw line break or other control character below U+0020 and never introduces an interpolation that was not there.",
  ["inputs"], "all Unicode strings, in attribute values, block labels, object keys and template literals",
  "All strings over all scalar values with combinations of quotes, backslashes, control characters and template markers; tests sample a few.",
  [RS+"format/escape.rs", ED+"encode/mod.rs", ED+"parser/string.rs", RS+"util.rs", PR+"template.rs"],
  [("write_escaped_string and its escape table", RS+"format/escape.rs"), ("encode_escaped", ED+"encode/mod.rs"), ("escaped_char / string fragments", ED+"parser/string.rs"), ("is_templated decision", RS+"util.rs")],
  ["hcl::to_string / hcl::from_str", "hcl_edit encode / parse"])
p("C06", "Only valid HCL identifiers can be made, and sanitizing always makes one",
  "Making an identifier from text succeeds exactly when the text is non-empty, starts with an identifier-start character and goes on with identifier characters or dashes, and the identifier then is that text. Sanitizing any text gives a valid identifier, leaves valid ones unchanged, and is idempotent.",
  ["inputs"], "all Unicode strings",
  "All strings over all scalar values; the tests sample a few.",
  [PR+"ident.rs", RS+"ident.rs"], [("Ident::try_new / sanitized / is_id_start / is_id_continue", PR+"ident.rs"), ("wrapper type", RS+"ident.rs")], ["Ident::new, try_new, sanitized, TryFrom, Deserialize"])
p("C08", "An editable body keeps its order and lookups exact through every edit history",
  "After any sequence of pushes, insertions, removals, extensions and clears on an editable body, iterating it yields exactly the structures that a plain list subjected to the same edits would hold, in that order. Looking up an attribute or the blocks with a name finds exactly those in that list, and refused insertions (an attribute whose key is already there) leave the body unchanged.",
  ["histories", "inputs"], "all sequences of edit operations with all structures and positions",
  "Edit histories are unbounded; tests run a few fixed sequences and mostly on small bodies.",
  [ED+"structure/body.rs", RS+"structure/body.rs"],
  [("Body::{insert, push, remove, remove_attribute, remove_blocks, clear, ...} over a Vec of structures", ED+"structure/body.rs"), ("duplicate attribute check", ED+"structure/body.rs")],
  ["hcl_edit::structure::Body API"])
p("C09", "Operators evaluate by HCL's rules and reject operands of wrong type",
  "Evaluating a unary or binary operation gives the result the HCL specification defines for its operand values: arithmetic and ordering on numbers only, logic on booleans only, equality on any two values with differing types unequal. Any other operand type, division by zero and results that are not finite numbers are reported as errors, never a panic or a wrong value.",
  ["inputs", "programs"], "all operators with all pairs of operand values",
  "Every operator times every pair of value types and numbers; the tests sample one or two pairs per operator.",
  [RS+"eval/impls.rs", RS+"eval/expr.rs", PR+"expr.rs"],
  [("private::Sealed / Evaluate for BinaryOp and UnaryOp", RS+"eval/impls.rs")], ["Evaluate::evaluate on operations"])
p("C10", "Variables resolve to the innermost definition and scopes never leak",
  "A variable evaluates to the value of its innermost enclosing definition, later definitions in the same scope replace earlier ones, and an unknown variable is an error. Evaluating any expression leaves the caller's context as it was; names bound inside a for expression are not visible outside it, and functions resolve the same way.",
  ["inputs", "programs", "histories"], "all chains of nested contexts, all definitions and shadowings",
  "Nesting depth and shadowing patterns are unbounded; tests use one or two levels.",
  [RS+"eval/mod.rs", RS+"eval/impls.rs", RS+"eval/expr.rs"],
  [("Context::{child, declare_var, declare_func, lookup_var, lookup_func}", RS+"eval/mod.rs")], ["Context API, Evaluate"])
p("C11", "A function body runs only with arguments that match its declared parameters",
  "Calling a user-defined function passes it exactly the evaluated arguments in order, with an expanded last array spliced in, and only if their number is right for the positional and variadic parameters and each value has the declared type. Otherwise the call is an error that names the function, and the function body is not run.",
  ["inputs", "programs"], "all function signatures and all argument lists",
  "Signatures (nested parameter types, nullable, one-of, variadic) and argument lists are unbounded.",
  [RS+"eval/func.rs", RS+"eval/expr.rs", RS+"eval/impls.rs"],
  [("ParamType::is_satisfied_by", RS+"eval/func.rs"), ("FuncDef::call", RS+"eval/func.rs"), ("evaluate_args expansion", RS+"eval/impls.rs")], ["Evaluate on FuncCall"])
p("C12", "Index, attribute and splat access return exactly the addressed elements",
  "An index or attribute access returns the element with that position or key of the value it is applied to, and is an error when the value has no such element, the index is not a whole non-negative number, or the value is not of a fitting type. A splat applies what follows it to every element of the list in order, treats null as an empty list and any other single value as a list of one; an attribute-only splat stops at the first index operator.",
  ["inputs", "programs"], "all values and all chains of accessors",
  "Chains of accessors and nesting of values are unbounded; the tests sample a few paths.",
  [RS+"eval/expr.rs", RS+"eval/impls.rs"],
  [("evaluate_traversal", RS+"eval/expr.rs"), ("evaluate_array_value / evaluate_object_value", RS+"eval/expr.rs"), ("legacy index / splat", RS+"eval/expr.rs")], ["Evaluate on Traversal"])
p("C13", "For and conditional expressions compute the collections HCL defines",
  "A for expression visits every element of its collection once in order, binds key and value, keeps those whose condition is true, and collects the results in order into a list or an object; grouping collects all values of a key in order, and without it a duplicate key is an error. A conditional evaluates to the branch its boolean condition selects, without the other branch influencing the result, and a condition that is not boolean is an error.",
  ["inputs", "programs"], "all collections, all bodies, conditions and key expressions",
  "Collections and bodies are unbounded; tests sample few of them, with small lists.",
  [RS+"eval/impls.rs", RS+"eval/expr.rs"],
  [("Evaluate for ForExpr, Collection", RS+"eval/impls.rs"), ("Evaluate for Conditional", RS+"eval/impls.rs")], ["Evaluate on ForExpr and Conditional"])
p("C14", "Template evaluation concatenates its parts and strips only marked whitespace",
  "Evaluating a template gives the concatenation, in order, of its literals and of its interpolations, conditionals and loops rendered as text, with a lone interpolation keeping its value's type. A strip marker removes exactly the blank space that touches it in the neighbouring literal, up to and including the first line break, and nothing else; without a marker every character of a literal is kept.",
  ["inputs", "programs"], "all templates: sequences and nestings of literals, interpolations, if and for directives with all strip marker combinations",
  "The combinations of strip markers, neighbours and whitespace runs are unbounded; tests sample a few.",
  [RS+"eval/template.rs", RS+"eval/impls.rs"],
  [("evaluate_template / evaluate_directive", RS+"eval/template.rs"), ("strip_literal", RS+"eval/template.rs")], ["Evaluate on Template and TemplateExpr"])
p("C15", "Operators group by HCL's precedence, and from left to right among equals",
  "In any chain of binary operators the parser groups higher-precedence operators first, in the order HCL defines, and operators of the same precedence from left to right, while parentheses and unary operators bind tighter. No operand or operator of the source is dropped, and every operator's text maps to that operator and back.",
  ["inputs", "programs"], "all chains of operands and binary operators",
  "Thirteen operators in chains of any length; the tests sample a few chains, of two or three operators.",
  [PR+"expr.rs", ED+"parser/pratt.rs", ED+"parser/expr.rs"],
  [("BinaryOperator::precedence", PR+"expr.rs"), ("Parser / parse_expr pratt machine", ED+"parser/pratt.rs"), ("FromStr/Display of operators", PR+"expr.rs")], ["hcl_edit::parser, hcl::parse"])
p("C16", "Heredoc indentation is removed and restored without changing the text",
  "Removing indentation from an indented heredoc takes the smallest leading whitespace found on its non-blank lines off every line (a blank line loses at most that much) and changes nothing else, so every line keeps its relative indentation, its content and its line ending. Lines inside the branches of a directive are not the heredoc's own text and are kept as they are. Printing the heredoc again gives back the document it was parsed from.",
  ["inputs"], "all heredoc bodies: lines with any mix of spaces, tabs, empty lines, interpolations and line endings",
  "Bodies are unbounded and mix blanks, tabs, empty lines and interpolations; tests use a handful of documents.",
  [ED+"util.rs", ED+"template/mod.rs", ED+"parser/string.rs", ED+"encode/template.rs"],
  [("min_leading_whitespace, dedent_by, indent_by", ED+"util.rs"), ("HeredocTemplate::dedent", ED+"template/mod.rs")], ["hcl_edit heredoc parse and encode"])
p("C17", "Parse errors point at a real position of the input",
  "Every parse error reports a line that exists in the input, and as column the number of characters of that line in front of the error position, both counted from one; the position lies in that line, on its line break or at the end of the input. The reported text is that line without its line feed.",
  ["inputs"], "all inputs that fail to parse, including multi-byte text, tabs, CRLF and errors at the very end",
  "Inputs are unbounded, including multi-byte characters around the error; tests look at a few ASCII ones.",
  [ED+"parser/error.rs"], [("locate_error / translate_position", ED+"parser/error.rs")], ["hcl_edit::parser::Error::{location,line}"])
p("C18", "Formatter options change layout only, never the meaning of the output",
  "Whatever indentation and compactness options a formatter is used with, and whatever was formatted with it before, its output parses to the value that was formatted. Nesting returns to its start after each value, so the indentation of every line is the indent string repeated as often as the line is nested.",
  ["inputs", "configurations"], "all values, all combinations of formatter options",
  "Values nest without bound and options combine; tests fix a few of both.",
  [RS+"format/mod.rs", RS+"format/impls.rs"],
  [("Formatter begin/end array/object/block state machine", RS+"format/mod.rs")], ["hcl::format with FormatterBuilder"])
p("C19", "Parsing a document and printing it unchanged gives back the same text",
  "Every document the format-preserving parser accepts is printed back byte for byte when it was not modified, including comments, blank space, number spellings, heredocs and line endings. The only freedom is in how a character inside a quoted string is spelled: one written with an alternative or needless escape sequence may be printed in the usual spelling of that character.",
  ["inputs", "programs"], "all documents the parser accepts",
  "The set of documents is unbounded; tests have a fixed set of files.",
  [ED+"parser/", ED+"encode/", ED+"raw_string.rs", ED+"repr.rs"],
  [("spans replaced by raw strings (despan)", ED+"raw_string.rs"), ("Encode impls", ED+"encode/")], ["hcl_edit::parser::parse_body().to_string()"])
p("C20", "Formatting a value and parsing the text gives back an equal value",
  "Formatting any body, expression or template that was parsed from text, and any plain value, gives a document that parses to an equal one, whatever options the formatter has. No construct changes meaning through missing parentheses, delimiters, escapes or line breaks.",
  ["inputs", "programs"], "all bodies, expressions and templates that some text parses to, and all values",
  "Trees are unbounded; tests sample a fixed set.",
  [RS+"format/impls.rs", RS+"format/mod.rs", RS+"format/escape.rs", ED+"parser/"],
  [("Format impls", RS+"format/impls.rs")], ["hcl::format::to_string, hcl::parse"])
p("C21", "Serde data survives a round trip through HCL text and through values",
  "Serializing plain data (structs, maps, sequences, options, enums, finite numbers, strings without template markers, booleans, blocks with labels) to HCL and deserializing it as the same type gives equal data; so does going through an in-memory value. Data HCL cannot hold is refused with an error; only what HCL has one spelling for is merged: a non-finite float is null, nested options and options of unit share null, and a list of one block is that block.",
  ["inputs", "programs"], "all values of serializable types",
  "Types and values are unbounded; tests sample a few structs.",
  [RS+"ser/", RS+"de/", RS+"value/ser.rs", RS+"value/de.rs", RS+"expr/ser/", RS+"expr/de.rs", RS+"structure/ser/", RS+"structure/de.rs"],
  [("Serializer/Deserializer impls", RS+"ser/mod.rs"), ("value/expr serializers", RS+"value/ser.rs")], ["hcl::{to_string,from_str,to_value,from_value}"])
p("C22", "Bodies convert to plain values without losing attributes or blocks",
  "Turning a body into a plain value keeps every attribute under its name and every block under the nesting of its identifier and labels; blocks that share identifier and labels become a list in document order, and a block next to others keeps all their contents. No block is dropped or attributed to another, and an attribute is replaced only by a later structure of the same name that is no block next to it (an attribute and a block of one name exclude each other, the later wins).",
  ["inputs", "programs"], "all bodies with any mix of repeated attributes and blocks with any labels",
  "Collisions between blocks with different numbers of labels and repetitions are unbounded; tests sample a few.",
  [RS+"structure/json_spec.rs", RS+"structure/de.rs"],
  [("IntoJsonSpec / deep_merge", RS+"structure/json_spec.rs")], ["Value::from(Body), hcl::from_str::<Value>, hcl2json"])
p("C23", "Evaluating in place agrees with evaluating, and keeps what cannot be evaluated",
  "When evaluating an expression, template or body succeeds, evaluating it in place succeeds and leaves the same value; when it fails, evaluating in place reports at least one error. Parts that could not be evaluated are left so that evaluating them later with the missing definitions gives the same result.",
  ["inputs", "programs"], "all expressions, templates and bodies, with all contexts",
  "Programs are unbounded; tests sample a few.",
  [RS+"eval/impls.rs", RS+"eval/mod.rs"], [("evaluate_in_place impls", RS+"eval/impls.rs"), ("EvalResultExt / Errors", RS+"eval/error.rs")], ["Evaluate::{evaluate,evaluate_in_place}"])
p("C25", "Parsing any text returns a result; it never panics",
  "Parsing any text as a body, an expression or a template ends with a value or an error, never a panic or an endless loop.",
  ["inputs"], "all texts (nesting bounded by the stack)",
  "All texts; tests sample a few malformed ones.",
  [ED+"parser/"], [("winnow parsers", ED+"parser/")], ["hcl::parse, hcl_edit::parser::*"])
p("C27", "Every parsed node's span covers exactly its own text",
  "After parsing with spans, the span of every expression, structure, key, label and template element that carries one lies on character borders inside the document and inside its parent's span, siblings do not overlap and come in order, and the text under the span of an expression parses to an equal expression.",
  ["inputs", "programs"], "all documents the parser accepts",
  "Documents are unbounded; tests look at one.",
  [ED+"parser/repr.rs", ED+"parser/", ED+"repr.rs"], [("spanned / decorated combinators", ED+"parser/repr.rs")], ["Span::span on parsed nodes"])
p("C28", "Converting between the plain and the editable tree keeps every part",
  "Converting a body (attribute names unique within a body), expression or template (with valid template texts) from the plain to the editable representation and back gives an equal tree, and converting a parsed editable tree to the plain one keeps every structure, operand, label, literal and strip mode.",
  ["inputs", "programs"], "all trees",
  "Trees are unbounded; tests sample a few.",
  [RS+"expr/edit.rs", RS+"template/edit.rs", RS+"structure/edit.rs"],
  [("From conversions", RS+"expr/edit.rs")], ["From/Into between hcl and hcl_edit types"])
p("C29", "Walking a tree reaches every part once, in document order",
  "The functions and default methods of Visit and VisitMut of hcl-edit call, for a node, the hook of each of its parts exactly once, in document order, and nothing else; so a walk with default hooks reaches every node of the tree. A mutable walk hands the parts out in place (keys of attributes and objects excepted): after it the tree differs from before only in what the hooks changed.",
  ["inputs", "programs"], "all trees, all visitors",
  "Trees and visitors are unbounded; the only test counts one kind of node in one document.",
  [ED+"visit.rs", ED+"visit_mut.rs"],
  [("visit_* functions and the visit_methods! macros", ED+"visit.rs"), ("visit_*_mut functions", ED+"visit_mut.rs")], ["the calls a Visit or VisitMut implementation receives, and the tree afterwards"])
if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    assert all(len(x["title"]) <= 80 for x in P), [x["title"] for x in P if len(x["title"]) > 80]
    with open(out, "w") as f:
        for x in P:
            f.write(json.dumps(x, ensure_ascii=False) + "\n")
    print(len(P))
