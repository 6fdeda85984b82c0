#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (committed; run after changing the list of properties)."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT + "/bin")
sys.dont_write_bytecode = True
import tasks

P = "src/parsers/"
TY = "src/types/"
ALL = ("the inputs are unbounded texts; the tests read a few dozen fixed ones, mostly one per element and with one nesting", ["inputs"])


def mech(*xs):
    return [{"name": a, "where": b} for a, b in xs]


L = []


def prop(pid, title, statement, quant, why, files, mechanism, over=("inputs",), tech=None):
    L.append(dict(id=pid, title=title, statement=statement, quantifier={"over": list(over), "text": quant}, why_tests_cant=why,
                  anchors={"files": files, "mechanism": mech(*mechanism)}, tech=tech))


prop("C01", "Goal formulas are read as they are written",
     "Every well-formed PDDL 3.1 goal formula - atoms, equality, `not`, `and`, `or`, `imply`, `exists`, `forall` and numeric comparisons, nested in any way - is accepted and read to its end. "
     "The syntax tree has exactly the connectives, quantified variables with their types, operators, terms, numbers and names of the text, in the written order and nesting. "
     "Names that merely resemble or begin with a keyword stay names.",
     "every goal formula of the grammar", "Tests read about ten fixed goals; nesting, order of alternatives and keyword-like names interact, and each pair is a new case.",
     [P + "gd.rs", P + "atomic_formula.rs", P + "literal.rs", P + "term.rs", P + "f_comp.rs", TY + "gd.rs"],
     [("parse_gd", P + "gd.rs"), ("literal, atomic_formula", P + "atomic_formula.rs")])
prop("C02", "Preconditions and preferences are read as they are written",
     "Every well-formed action precondition or problem goal, with `and`, `forall` and (named or unnamed) preferences anywhere the grammar allows them, is accepted and read to its end. "
     "The result lists exactly the written conditions in order, with each preference's name and formula and each quantifier's variables.",
     "every precondition of the grammar", "Tests read a handful of preconditions; preferences inside quantifiers inside conjunctions are not sampled.",
     [P + "pre_gd.rs", P + "pref_gd.rs", TY + "pre_gd.rs", TY + "preference.rs"], [("parse_pre_gd", P + "pre_gd.rs"), ("parse_pref_gd", P + "pref_gd.rs")])
prop("C03", "Action effects are read as they are written",
     "Every well-formed effect - added and deleted atoms, numeric and object assignments, conditional and universal effects and conjunctions of them - is accepted and read to its end. "
     "The result says exactly the same: the same operation on the same target with the same value, under the same conditions and quantifiers, in the written order.",
     "every effect of the grammar", "Tests read a handful of effects; deletion, assignment, `when` and `forall` in combination are not sampled.",
     [P + "effects.rs", P + "c_effect.rs", P + "p_effect.rs", P + "cond_effect.rs", TY + "c_effect.rs"], [("parse_effect", P + "effects.rs"), ("parse_p_effect", P + "p_effect.rs")])
prop("C04", "Durative actions are read as they are written",
     "Every well-formed durative action, and each of its parts - duration constraints, timed conditions, timed, conditional, quantified and continuous effects - is accepted and read to its end. "
     "The result keeps every part, with the written time points and intervals, comparison and assignment operators, expressions and order.",
     "every durative action of the grammar", "Tests read two durative actions; the combinations of time points, quantifiers and expressions are not sampled.",
     [P + "da_def.rs", P + "da_gd.rs", P + "da_effect.rs", P + "timed_effect.rs", P + "timed_gd.rs", P + "duration_constraint.rs", P + "f_assign_da.rs"],
     [("parse_da_def", P + "da_def.rs"), ("parse_da_effect", P + "da_effect.rs")])
prop("C05", "Numeric expressions and metrics are read as they are written",
     "Every well-formed numeric expression, durative numeric expression or optimization metric is accepted and read to its end. "
     "The result has the written operators, operands in order, function heads with their arguments, and number values, whether an operator has one, two or many operands.",
     "every numeric expression of the grammar", "Tests read a few expressions with one or two operators; arity, nesting and argument kinds multiply.",
     [P + "f_exp.rs", P + "f_exp_da.rs", P + "metric_f_exp.rs", P + "metric_spec.rs", P + "f_head.rs"], [("parse_f_exp", P + "f_exp.rs"), ("parse_metric_f_exp", P + "metric_f_exp.rs")])
prop("C06", "Trajectory constraints are read as they are written",
     "Every well-formed trajectory constraint, nested in any way with `and`, `forall`, preferences, the modal operators and their time bounds, is accepted and read to its end. "
     "The result has the written operators, numbers, operands in order, and goal formulas.",
     "every trajectory constraint of the grammar", "The tests read single unnested constraints; nesting was broken on the pinned commit without a test noticing.",
     [P + "con_gd.rs", P + "pref_con_gd.rs", TY + "con_gd.rs"], [("parse_con_gd", P + "con_gd.rs"), ("parse_pref_con_gd", P + "pref_con_gd.rs")])
prop("C07", "Typed lists give each element its written type, in order",
     "In every well-formed typed list of names, variables or functions, each element gets exactly the type written behind its group - a single type or an `either` of several - and the default type when none is written. "
     "All elements are kept, in order, and nothing else is.",
     "every typed list: any number of groups and elements, any types", "Tests use a few fixed lists; grouping, defaults and type names near `object`, `number` or `either` multiply.",
     [P + "typed_list.rs", P + "function_typed_list.rs", P + "type.rs", P + "primitive_type.rs", TY + "typed.rs"],
     [("typed_list", P + "typed_list.rs"), ("function_typed_list", P + "function_typed_list.rs")])
prop("C08", "Layout and comments never change what a text means",
     "Between any two tokens, any mixture of blanks, tabs, line ends and `;` comments is accepted and means the same as a single blank; none is needed in front of a parenthesis or behind an opening one. "
     "The syntax tree does not depend on the layout, for every element of the grammar.",
     "every well-formed text and every layout of it", "Layout is a choice at every place of every text; the tests write nearly all texts with single blanks.",
     [P + "utilities.rs", P + "comments.rs", P + "empty_or.rs", P + "domain.rs", P + "problem.rs"],
     [("ws, separator, parens, prefix_expr", P + "utilities.rs"), ("ignore_eol_comment", P + "comments.rs")])
prop("C09", "Every text gets an answer, and reported positions are true",
     "For every text and every element of the grammar, parsing ends with a result or an error; it never panics, whatever the characters. "
     "The unread remainder and every error position lie inside the text, with the offset and line number of the place they point at, and a remainder reaches to the end of the text.",
     "every text, read as each of the 72 elements", "Panics hide behind particular characters at particular places; the tests read hardly any malformed text.",
     ["src/parsers/mod.rs", P + "utilities.rs", P + "number.rs", P + "length_spec.rs", P + "requirements.rs"], [("ParseResult, Span", "src/parsers/mod.rs")])
prop("C10", "Requirements stand for exactly what PDDL says they do",
     "A requirement contains itself, everything it is shorthand for and nothing else; expanding it lists exactly the basic requirements it stands for. "
     "The effective requirements of a list are the union of the expansions, whatever the order and repetitions, and `:strips` alone for an empty list.",
     "every pair and every list of requirements", "Tests check a few pairs; the algebra is over all pairs and lists.",
     [TY + "requirement.rs", TY + "requirements.rs"], [("contains, expand", TY + "requirement.rs"), ("to_effective", TY + "requirements.rs")])
prop("C11", "Numbers are finite and consistently ordered, equal and hashed",
     "A number can be made from exactly the finite floating point values and from every integer of up to 32 bits, and keeps the (rounded) value. "
     "Comparison of numbers is a total order that agrees with the numeric values, equality agrees with it (0 and -0 are equal), and equal numbers hash alike. "
     "Comparing a number with a plain integer or float gives the same answers.",
     "every pair of 32-bit floats, every 8- to 32-bit integer", "2^64 pairs of floats; the tests compare a handful.",
     [TY + "number.rs"], [("Ord, PartialEq, Hash for Number", TY + "number.rs")], tech="Kani (CBMC bounded model checking, SAT) on the compiled crate")
prop("C12", "A name is its text, however and whenever it was made",
     "Two names are equal and hash alike exactly when their texts are the same, whichever way each was made - from strings, static texts, copies, parsed text or other symbols, interned or not. "
     "A name keeps its text and length (in characters) for ever, whatever names are made later.",
     "every sequence of names and ways of making them", "Identity of names depends on all names made before; tests make one or two.",
     [TY + "name.rs", TY + "type.rs", TY + "predicate.rs", TY + "variable.rs"], [("interning, NameVariant", TY + "name.rs")], over=("inputs", "histories"))
prop("C13", "The fixed vocabulary is spelled one way, in both directions",
     "Each requirement key, operator, comparison, time specifier, interval and optimization word has exactly its PDDL spelling: displaying it, converting it to text and comparing it with text agree, and that text converts and parses back to it and nothing else. "
     "A text that is not one of these spellings is never taken for one, neither whole nor as the beginning of a longer word; the deprecated `change` is read as `assign`.",
     "every member of the ten vocabularies and every text", "Tests spell the members once; near-miss texts are unbounded.",
     [TY + "requirement.rs", TY + "assign_op.rs", TY + "binary_comp.rs", TY + "binary_op.rs", TY + "multi_op.rs", TY + "d_op.rs", TY + "time_specifier.rs", TY + "interval.rs", TY + "optimization.rs"],
     [("TryFrom<&str>, Display, as_str", TY + "requirement.rs"), ("keyword", P + "utilities.rs")])
prop("C14", "A domain is read with all its sections, each with its content",
     "Every well-formed domain is accepted and read to its end, with any subset of the optional sections and any number of actions, durative actions and derived predicates. "
     "Every section and definition of the text appears in the result with exactly its written content and order, and sections not written are empty.",
     "every domain of the grammar", "The sections combine freely; the tests read three fixed domains.",
     [P + "domain.rs", P + "action_def.rs", P + "derived_predicate.rs", P + "structure_def.rs", P + "functions_def.rs", P + "predicates_def.rs", TY + "domain.rs"],
     [("parse_domain", P + "domain.rs")])
prop("C15", "A problem is read with all its sections, each with its content",
     "Every well-formed problem is accepted and read to its end, with any subset of the optional sections. "
     "Every object, initial literal, timed literal, initial function value, goal, constraint, metric and length of the text appears in the result with exactly its written content and order, and sections not written are empty.",
     "every problem of the grammar", "The sections and kinds of initial elements combine freely; the tests read two fixed problems.",
     [P + "problem.rs", P + "init_el.rs", P + "init_def.rs", P + "goal_def.rs", P + "length_spec.rs", P + "objects_def.rs", TY + "problem.rs"], [("parse_problem", P + "problem.rs")])
prop("C16", "Names and variables are exactly the longest run of name characters",
     "A name begins with a letter and continues with letters, digits, `-` and `_`; a variable is `?` directly followed by a name. "
     "Reading one takes exactly the longest such run, keeps its characters unchanged, leaves the rest of the text unread, and fails if the text does not begin with one.",
     "every text, for each kind of name", "Unbounded texts; the tests use a few plain names.",
     [P + "name.rs", P + "variable.rs", P + "predicate.rs", P + "function_symbol.rs", P + "action_symbol.rs", P + "pref_name.rs", P + "primitive_type.rs"], [("parse_name", P + "name.rs"), ("parse_variable", P + "variable.rs")])
prop("C17", "Values built by hand equal those that are read, and give back their parts",
     "Rebuilding a syntax tree from its parts through the public constructors, conversions and builders gives a value equal to the one read from the text. "
     "Accessors, iteration, length and emptiness of the collection-like values agree with their elements, in order; taking the single element succeeds exactly when there is one.",
     "every syntax tree, rebuilt in each way the constructors offer", "Each constructor and accessor must be right for every value; the tests call few of them.",
     [TY + "gd.rs", TY + "pre_gd.rs", TY + "effects.rs", TY + "con_gd.rs", TY + "domain.rs", TY + "problem.rs"], [("new_*, with_*, From, try_get_single", TY)])
prop("C18", "Malformed text is rejected, and nothing of an accepted text is lost",
     "A text that is not well-formed is never accepted whole: cut off anywhere, with a parenthesis missing or too many, with a foreign character inside, or with a keyword misspelt. "
     "Where a changed text is accepted, it is itself well-formed, and its syntax tree says what that text says: every name, number and operator of it, in its place, and nothing else.",
     "every text within one change of a well-formed one", "Every place of every text is a different malformed text; the tests contain almost none.",
     ["src/parsers/"], [("parsers", "src/parsers/")])
prop("C19", "Number literals have the written value",
     "A number is a run of digits, optionally followed by a point and another run of digits; reading one takes exactly that and leaves the rest unread. "
     "Its value is the single-precision number nearest to the written decimal; text that does not begin with a digit, or a value too large to be represented, is an error.",
     "every text and every digit string", "Unbounded digit strings; the tests read a handful.",
     [P + "number.rs", TY + "number.rs"], [("parse_number", P + "number.rs")])
prop("C20", "All ways to read an element give the same answer",
     "For every text and element, the parse function and the parser trait's ways in agree: all accept with equal values and the same remainder, or all reject; reading the element inside a longer text gives the same value and correspondingly shifted positions. "
     "Each element's well-formed texts are read whole on their own, and a value equals its copy.",
     "every text and every one of the 72 elements", "72 implementations over unbounded texts; tests call one way for one text.",
     ["src/parsers/mod.rs"] , [("Parser", "src/parsers/mod.rs")])
prop("C21", "Values are equal exactly when they say the same",
     "Two syntax trees are equal if and only if they have the same structure, operators, names, numbers and order. "
     "In particular, texts that differ only in layout or comments give equal values, and any other difference in what two accepted texts say makes the values unequal.",
     "every pair of texts of the same element", "Pairs of unbounded texts; the tests compare values only with what they should equal.",
     [TY], [("PartialEq", TY)])

TECH = "symbolic execution of the compiled crate; Z3 decides branches and assertions"
NOTE = ("Holds for every input within the stated bounds (see the evidence's bounds, functions and queries); trusted: rustc/LLVM for wasm32, the executor "
        "engine/, Z3, the grammar generator and canonical printer of harness/. Counterexamples and sampled paths are replayed natively.")

done = [p for p in L if p["id"] in tasks.PROPS]
with open(ROOT + "/properties.jsonl", "w") as f:
    for p in L:
        if p in done:
            f.write(json.dumps({k: v for k, v in p.items() if k != "tech"}) + "\n")
checks = []
for p in done:
    checks.append({"property": p["id"], "quick_cmd": f"bin/check {p['id']} quick", "thorough_cmd": f"bin/check {p['id']} thorough",
                   "technique": p["tech"] or TECH, "level": "model_checking", "level_note": tasks.PROPS[p["id"]].get("note", NOTE)})
json.dump({"version": 1, "setup_cmd": "bin/setup", "checks": checks, "not_applicable": json.load(open(ROOT + "/bin/not_applicable.json")),
           "notes": "See DESIGN.md. No hooks in /repo; the fixes are listed in known_findings.txt."},
          open(ROOT + "/MANIFEST.json", "w"), indent=1)
for p in L:
    assert len(p["title"]) <= 80, p["id"]
