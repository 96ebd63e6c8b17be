#!/usr/bin/env python3
"""Writes properties.jsonl"""
import json
import os

P = []


def prop(id, title, statement, over, quant, why, files, mech, observe,
         state=None):
    anchors = {"files": files,
               "mechanism": [{"name": n, "where": w} for n, w in mech],
               "observe_at": observe, "hook_needed": None}
    if state:
        anchors["state"] = [{"name": n, "meaning": m, "where": w}
                            for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": quant},
              "why_tests_cant": why, "anchors": anchors})


prop("C01", "Every text is split into exactly the tokens the language defines",
     "For every text, lexing yields exactly the tokens of the language "
     "reference manual (kind, value, line, column and extent), with longest "
     "match for delimiters, or a single lexing error located at the first "
     "malformed token. In particular integer, decimal and string literals "
     "have the value the manual gives them (digit groups, bases, escapes, "
     "and the whitespace rules of triple quoted strings). Lexing terminates "
     "and never fails internally.",
     ["inputs"], "all source texts",
     "The unit tests lex about two dozen hand written snippets; the "
     "interaction of end-of-file, quotes, comments, digit groups and "
     "delimiters is a product space they do not cover.",
     ["trlc/lexer.py"],
     [("character classes and the token state machine",
       "trlc/lexer.py TRLC_Lexer.token"),
      ("three character window and position tracking",
       "trlc/lexer.py Lexer_Base.advance / skip_whitespace"),
      ("value of triple quoted strings",
       "trlc/lexer.py triple_quoted_string_value")],
     ["TRLC_Lexer.token()", "field values of record objects"])

prop("C02", "Check expressions are grouped as the grammar's precedence demands",
     "Every sequence of expression tokens in a check is either rejected with "
     "a syntax error or given exactly the structure the grammar of the "
     "language reference manual prescribes: operator precedence, "
     "associativity, non-chaining of relations and of boolean operators, "
     "unary operators, conditional and quantified expressions.",
     ["programs"], "all token sequences of check expressions",
     "Tests contain a few hand picked expressions; precedence bugs need "
     "specific neighbouring operators, and wrongly accepted sequences are "
     "rarely tested at all.",
     ["trlc/parser.py"],
     [("recursive descent expression parser",
       "trlc/parser.py parse_expression .. parse_primary"),
      ("non-associativity of and/or mixtures, ranges, xor and implies",
       "trlc/parser.py parse_expression, parse_relation")],
     ["verdict of processing a file set", "value of the check"])

prop("C03", "An expression is accepted exactly if it is well typed",
     "A user defined check is accepted if and only if every operator, "
     "membership test, range test, quantifier, conditional, field access, "
     "index and built-in function call in it is applied to operands of the "
     "types the language reference manual permits. An ill-typed check is "
     "rejected when the rsl file is processed, with an error located in that "
     "check, irrespective of whether any object exists.",
     ["programs"], "all operators applied to all combinations of operand "
     "types (including record inheritance, unions, tuples, arrays, optional "
     "and null)",
     "The combination space operator x type x type is in the thousands; the "
     "system tests sample some tens of rejections and mostly well typed "
     "positives.",
     ["trlc/ast.py", "trlc/parser.py"],
     [("ensure_type and typ comparison in expression nodes",
       "trlc/ast.py Binary_Expression/Unary_Expression/Range_Test/"
       "Conditional_Expression/Quantified_Expression constructors"),
      ("built-in function signatures", "trlc/parser.py parse_builtin"),
      ("field access on records, tuples and unions",
       "trlc/ast.py Field_Access_Expression, Union_Type")],
     ["messages and result of Source_Manager.process()"])

prop("C04", "Expressions evaluate to the value the language defines",
     "For every well typed check expression and every object, the evaluation "
     "yields the value defined by the language reference manual: integer and "
     "exact rational arithmetic, floor division, remainder, power, rounding, "
     "string operations, equality of every type (record references compare "
     "by identity), membership, ranges, short-circuit logic, conditionals, "
     "quantifiers and null comparison.",
     ["programs", "inputs"],
     "all well typed expressions and all objects they are evaluated on",
     "Tests evaluate each operator on a handful of values; signs, rounding "
     "ties, boundaries, null, empty arrays and subtype combinations multiply "
     "beyond that.",
     ["trlc/ast.py", "trlc/math.py"],
     [("evaluate methods of the expression nodes", "trlc/ast.py"),
      ("rounding and remainder", "trlc/math.py"),
      ("equality of values", "trlc/ast.py Value")],
     ["which user check messages are emitted"])

prop("C05", "An undefined evaluation is always reported, never passed over",
     "Whenever evaluating a check for an object needs a value the language "
     "leaves undefined - null used other than in a comparison with null, "
     "division or remainder by zero, an index outside of the array, a field "
     "of a null reference - processing reports an error at the offending "
     "expression and fails, instead of ignoring the check, inventing a value "
     "or failing internally. Operands which short-circuit evaluation or a "
     "conditional skips are not evaluated and cause no error.",
     ["programs", "inputs"],
     "all operators with an undefined operand in every operand position",
     "The position of the undefined operand, the operator and the evaluation "
     "order combine multiplicatively; tests try few of them.",
     ["trlc/ast.py"],
     [("null and range guards in evaluate methods",
       "trlc/ast.py Binary_Expression.evaluate and others"),
      ("short-circuit evaluation", "trlc/ast.py Binary_Expression.evaluate")],
     ["messages and result of Source_Manager.process()"])

prop("C06", "Exactly the applicable user checks fire, in the defined order",
     "For every record object, exactly those checks of its own type, of all "
     "the types it extends and of all tuple values it contains whose "
     "expression is false are reported, once each, with their message, "
     "severity, details and anchor location; checks of a base type come "
     "before those of its extension and checks in one block are in order. A "
     "failed fatal check stops the remaining checks of that object only. "
     "Processing fails if and only if an error or fatal check failed.",
     ["programs", "histories"],
     "all arrangements of check blocks over an inheritance chain and tuples, "
     "all severities and all truth assignments",
     "The number of combinations of severity, position, inheritance depth "
     "and result is exponential; tests sample single failing checks.",
     ["trlc/ast.py", "trlc/trlc.py", "trlc/parser.py"],
     [("check iteration and fatal handling",
       "trlc/ast.py Record_Object.perform_checks, Check.perform"),
      ("tuple checks", "trlc/ast.py Tuple_Aggregate, Array_Aggregate, "
       "perform_type_checks"),
      ("severity defaults", "trlc/parser.py parse_check_block")],
     ["sequence of messages", "result of process()"])

prop("C07", "Names are unique up to case and underscores, and scoped",
     "Two entities whose names differ only in letter case or underscores "
     "cannot be declared in the same scope (package, type including "
     "inherited components, enumeration, object namespace), and a "
     "declaration never hides a built-in or the name of a visible package. "
     "A name resolves to an entity of the current package, or of an imported "
     "package when qualified, and anything else is an error.",
     ["programs"],
     "all declarations and uses of names over all pairs of scopes",
     "Scopes, kinds of entities and spelling variants multiply; tests have "
     "a few pairs.",
     ["trlc/ast.py", "trlc/parser.py"],
     [("sufficiently distinct names", "trlc/ast.py Symbol_Table.simplified_name, "
       "register"),
      ("qualified name resolution", "trlc/parser.py parse_qualified_name, "
       "trlc/ast.py Compilation_Unit.is_visible")],
     ["messages and result of process()"])

prop("C08", "The result is independent of file naming and registration order",
     "Processing a set of files gives the same verdict, the same objects and "
     "the same set of check messages regardless of the order in which files "
     "are registered, of file names, of the order of objects and packages, "
     "and of hash randomisation. Packages are processed after the packages "
     "they import, whatever the import graph, and cyclic imports between rsl "
     "files are rejected.",
     ["inputs", "histories", "configurations"],
     "all import graphs and all permutations of file names, registration "
     "orders and declaration orders of objects",
     "Tests use one fixed naming and order per example.",
     ["trlc/trlc.py", "trlc/ast.py"],
     [("topological processing of packages",
       "trlc/trlc.py build_graph, parse_rsl_files"),
      ("late resolution", "trlc/trlc.py resolve_record_references")],
     ["messages, result and objects of process()"],
     [("dependency graph", "imports of packages by kind of file",
       "trlc/trlc.py Source_Manager.dep_graph")])

prop("C09", "Include paths add exactly the files that are needed",
     "Files found through an include path influence the result if and only "
     "if they belong to the transitive closure of the packages imported by "
     "the primary files, and then the result is as if they had been given "
     "explicitly. Files outside of the closure contribute no objects, types "
     "or messages other than errors in their preamble.",
     ["configurations", "inputs"],
     "all import graphs over a set of packages and all splits into primary "
     "and include files",
     "Tests contain a handful of include set-ups.",
     ["trlc/trlc.py"],
     [("closure over the dependency graph", "trlc/trlc.py build_graph"),
      ("include registration", "trlc/trlc.py register_include")],
     ["symbol table and messages after process()"])

prop("C10", "A record object is accepted exactly if it satisfies its type",
     "A record object is accepted if and only if its type is not abstract, "
     "all components without value that are neither optional nor frozen are "
     "given, no component is given twice, no frozen component is given, no "
     "unknown component is given, and each value conforms to the component's "
     "type including array bounds and element types. The values it then has "
     "(own, inherited, frozen and null) are exactly the ones written.",
     ["programs", "inputs"],
     "all record types over a small set of component kinds and all "
     "assignment sequences",
     "Combinations of inheritance, optionality, freezing and assignment "
     "sequences grow multiplicatively.",
     ["trlc/parser.py", "trlc/ast.py"],
     [("record object parsing", "trlc/parser.py parse_record_object_declaration,"
       " parse_value"),
      ("frozen components", "trlc/ast.py Composite_Type, Record_Type.is_frozen")],
     ["result of process()", "Record_Object.to_python_dict()"])

prop("C11", "A type declaration is accepted exactly if it is legal",
     "An rsl file is accepted if and only if its type declarations obey the "
     "rules of the language reference manual: extension of known and "
     "non-final record types, freezing of existing unfrozen components with "
     "a conforming value, non-empty enumerations, the separator and optional "
     "rules of tuples, union types of distinct record types, "
     "and no use of a type before its declaration except a record's own type.",
     ["programs"], "all small type declarations",
     "The rule set interacts (modifier x extension x freezing x component "
     "modifiers), tests have one negative per rule.",
     ["trlc/parser.py", "trlc/ast.py"],
     [("type declarations", "trlc/parser.py parse_type_declaration and others")],
     ["messages and result of process()"])

prop("C12", "Tuple values are read as their type's separators demand",
     "For every legal tuple type, a sequence of value tokens is accepted as a "
     "value of that type if and only if it follows the form the type "
     "defines (bracketed, or with exactly the declared separators and only "
     "trailing optional components omitted together with their separators). "
     "The components have exactly the written values, and omitted ones are "
     "null.",
     ["programs", "inputs"],
     "all tuple types up to three components and all value token sequences",
     "Tests use a few tuple types with one or two values each.",
     ["trlc/parser.py", "trlc/ast.py"],
     [("tuple values", "trlc/parser.py parse_value"),
      ("value checks", "trlc/ast.py Tuple_Aggregate.assign")],
     ["to_python_dict()", "messages and result of process()"])

prop("C13", "References are resolved late and only to conforming objects",
     "Every record reference and every markup reference resolves to the one "
     "object of that name in the named (or current) package, regardless of "
     "declaration order, files and cycles, if the object exists, its package "
     "is visible, and its type is the referenced type, an extension, or a "
     "member of the union (or an extension of one). Otherwise processing "
     "fails with an error at the reference.",
     ["programs", "histories"],
     "all reference graphs over a few objects, types, packages and all "
     "placements of references (components, arrays, tuples, markup)",
     "Tests have single references; placement x type relation x order x "
     "package is a product.",
     ["trlc/ast.py", "trlc/parser.py", "trlc/trlc.py"],
     [("reference resolution", "trlc/ast.py Record_Reference.resolve"),
      ("markup parsing", "trlc/parser.py Markup_Parser, parse_all_references")],
     ["targets of references", "messages and result of process()"])

prop("C14", "Every input gets a diagnosed verdict, never an internal failure",
     "For every set of input files, processing terminates with a symbol "
     "table or with none, without any internal exception. If it gives no "
     "result then at least one error has been reported, and every reported "
     "error is counted, so that an erroneous file set never ends with zero "
     "errors and a syntax, name or type error never ends with a result. "
     "Every message points into one of the files and can be printed.",
     ["inputs"],
     "all token sequences, in particular all truncations and all single "
     "token insertions, deletions and replacements of valid files",
     "Tests contain finished files; truncated or mutated files reach parser "
     "states they do not.",
     ["trlc/parser.py", "trlc/trlc.py", "trlc/ast.py", "trlc/errors.py",
      "trlc/lexer.py"],
     [("error handling and recovery", "trlc/parser.py Parser, "
       "trlc/trlc.py process"),
      ("message emission", "trlc/errors.py Message_Handler.emit")],
     ["process()", "Message_Handler.errors"])

prop("C15", "Error recovery and lint mode never change the verdict",
     "A file set is accepted with error recovery exactly if it is accepted "
     "without, and all messages up to and including the first error are the "
     "same. Enabling or disabling linting and brief or detailed output "
     "changes neither the verdict nor the errors nor the objects, only the "
     "additional hints. A file set accepted completely is also accepted when "
     "only its rsl files are processed.",
     ["programs", "configurations"],
     "all single and double mistakes in a file set, all combinations of the "
     "processing options",
     "Each test is run in one or two fixed modes.",
     ["trlc/parser.py", "trlc/trlc.py", "trlc/lint.py", "trlc/errors.py"],
     [("skipping to a recovery point", "trlc/parser.py Parser.skip_until_newline, "
       "parse_trlc_file, parse_rsl_file"),
      ("mode switches", "trlc/trlc.py Source_Manager.process")],
     ["messages and result per mode"])

prop("C16", "Static verification of checks is sound",
     "If static verification reports no potential problem for a check, then "
     "evaluating that check never fails with an evaluation error on any "
     "object its type admits. It also never claims a check is always true "
     "(or its failure branch unreachable) if some object violates it, and a "
     "counter-example shown for a problem really triggers the problem. "
     "Static verification itself never fails internally.",
     ["programs", "inputs"],
     "all small checks and all objects with values from a small domain",
     "Soundness of a translation quantifies over all programs and all their "
     "inputs; tests compare the output for samples with golden files.",
     ["trlc/vcg.py", "trlc/lint.py"],
     [("translation of checks to verification conditions",
       "trlc/vcg.py VCG.tr_expression and others"),
      ("feedback", "trlc/vcg.py Feedback, create_counterexample")],
     ["messages of verify mode against evaluation"])

prop("C17", "Error messages point at the construct that is wrong",
     "The location of every diagnostic for an erroneous construct is the "
     "file, line and column of that construct as written in the source, "
     "whatever precedes it in the file (whitespace, comments, multi-line "
     "strings), and the quoted source line with its marker shows exactly "
     "that text.",
     ["inputs"],
     "all placements of an erroneous construct after all layouts",
     "Golden files pin positions of fixed files only.",
     ["trlc/lexer.py", "trlc/errors.py", "trlc/nested.py"],
     [("position tracking", "trlc/lexer.py Source_Reference"),
      ("context lines", "trlc/lexer.py Source_Reference.context_lines"),
      ("positions in markup", "trlc/nested.py source_location")],
     ["Location of messages", "printed output"])

prop("C18", "The API presents exactly the objects, values and sections written",
     "Iterating the resulting symbol table yields every record object of the "
     "processed files exactly once, each with its name, its sections from "
     "outermost to innermost, and its python form containing exactly the "
     "component values written (numbers, strings, enumeration literals, "
     "arrays, tuples, references, null). Iterating again, or processing "
     "other file sets before, gives the same.",
     ["inputs", "histories"],
     "all section nestings and all value shapes, all sequences of API calls",
     "Tests call each API once on small fixed files.",
     ["trlc/ast.py", "trlc/parser.py"],
     [("python form", "trlc/ast.py to_python_object, to_python_dict"),
      ("sections", "trlc/parser.py parse_section_declaration"),
      ("iteration", "trlc/ast.py Symbol_Table.iter_record_objects, "
       "iter_record_objects_by_section")],
     ["Symbol_Table iteration", "to_python_dict"])

prop("C19", "The command line's exit status and summary reflect the outcome",
     "The command line tool exits with zero if and only if there was no "
     "error (and no warning, when warnings are to be treated as errors), and "
     "its summary states exactly the numbers of files, errors and warnings. "
     "Options which suppress or redirect output change what is printed and "
     "where, but not the exit status.",
     ["configurations", "inputs"],
     "all combinations of options with all combinations of problems",
     "The system tests run three fixed option sets and do not check the exit "
     "status.",
     ["trlc/trlc.py", "trlc/errors.py"],
     [("exit status and summary", "trlc/trlc.py trlc"),
      ("counters", "trlc/errors.py Message_Handler")],
     ["exit status, stdout, log file"])

prop("C20", "The reStructuredText converter renders each record exactly once",
     "The converter renders every selected record object exactly once, under "
     "its own section path, with the text of the selected fields and every "
     "markup reference replaced by a cross-reference to its own target. "
     "Records that were not selected do not appear.",
     ["inputs", "configurations"],
     "all section trees over a few names, all placements of records and all "
     "filters",
     "Six golden files exist, two of which are not part of the stable tests.",
     ["tools/trlc_rst/trlc_rst.py"],
     [("tree construction", "tools/trlc_rst/trlc_rst.py convert_symbols_to_tree"),
      ("rendering", "tools/trlc_rst/trlc_rst.py render_to_file, "
       "_resolve_markup_references")],
     ["the generated rst text"])

prop("C21", "The linter reports exactly the documented issues",
     "For every accepted file set, the linter reports each construct its user "
     "guide describes as an issue (final types, abstract types without "
     "extensions, array bounds, separators, unary minus, union types, partial "
     "field access, unused imports) exactly once, with its category at the "
     "place of the construct, and nothing else. With linting switched off it "
     "reports nothing.",
     ["inputs", "configurations"],
     "all small type hierarchies, bounds, tuples, unions, expressions and "
     "mentions of packages",
     "About 15 golden files show single issues.",
     ["trlc/lint.py", "trlc/parser.py"],
     [("sanity checks", "trlc/lint.py Linter"),
      ("hints while parsing", "trlc/parser.py Parser.parse_simple_expression, "
       "parse_name, parse_record_declaration")],
     ["issue messages"])

prop("C22", "The Sphinx domain resolves each reference to its one definition",
     "After every build, incremental or parallel, whatever was edited, added "
     "or removed before, each requirement reference in the documents is a "
     "link to the page and anchor of its definition if there is exactly one "
     "definition of that name in the current documents, and plain text with "
     "a warning (not found or ambiguous) otherwise. The requirement index "
     "and the list of objects contain every definition in the current "
     "documents, and nothing else, with the index grouped by first letter "
     "and sorted.",
     ["histories", "schedules"],
     "all edit histories of a few documents and all schedules of parallel "
     "builds",
     "There are no tests of the extension; its state outlives a build, and "
     "is put together from several processes.",
     ["tools/sphinx/extensions/trlc/trlc.py"],
     [("domain data", "tools/sphinx/extensions/trlc/trlc.py "
       "RequirementsDomain.add_requirement, clear_doc, merge_domaindata"),
      ("references", "tools/sphinx/extensions/trlc/trlc.py "
       "RequirementsDomain.resolve_xref"),
      ("index", "tools/sphinx/extensions/trlc/trlc.py RequirementsIndex")],
     ["resolved documents, index entries and warnings"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),
                   "properties.jsonl")
with open(out, "w", encoding="UTF-8") as fd:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        fd.write(json.dumps(p) + "\n")
