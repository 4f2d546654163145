"""Writes properties.jsonl (one place to edit the wording)."""
import json, os

EXPR = "src/ast/expression/mod.rs"
P = []

def p(id, title, statement, over, text, why, files, mech, observe, state=None, hook="cfg(elm_parser_verif): elm_parser::verif::parse"):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

TREE = ["the tree or error that parsing a module text yields (as elm-parser-dump prints it)"]

p("C01", "Parsing any text ends normally, with a tree or a located error",
  "For every UTF-8 text, parsing it ends with either a syntax tree or an error report. It never panics, aborts, overflows or touches memory it should not, whatever the text holds: unfinished constructs, stray characters, any Unicode, any line endings.",
  ["inputs"], "all UTF-8 texts",
  "The unit tests feed about 150 short, mostly well-formed ASCII snippets to single productions; none feeds arbitrary, truncated or non-ASCII text to the whole parser.",
  ["src/ast/mod.rs", "src/ast/helpers.rs", "src/ast/expression/character.rs", "src/ast/statement/comment.rs"],
  [("file parser over all statements", "src/ast/mod.rs: file"), ("character code conversion", "src/ast/expression/character.rs: character_content"),
   ("infix precedence conversion", "src/ast/statement/infix.rs"), ("comment scanning", "src/ast/statement/comment.rs"), ("indent arithmetic", "src/ast/helpers.rs: spaces_or_new_lines_and_indent")],
  TREE + ["panics, signals and sanitizer reports of the parsing process"])

p("C02", "The effort of parsing grows moderately with length and nesting",
  "The work done to parse a text, accepted or rejected, grows at most about quadratically with its length and with its nesting depth. In particular, wrapping a construct in one more bracket, block or other construct never multiplies the work, whatever constructs are combined and wherever an error sits.",
  ["inputs"], "all texts, of every combination of nested constructs, valid or with an error at any depth",
  "Tests parse snippets at most three levels deep, where a production that is tried twice per level costs nothing noticeable; the growth law needs families of ever deeper and longer inputs.",
  [EXPR, "src/ast/type_/mod.rs", "src/ast/expression/function.rs", "src/ast/statement/mod.rs"],
  [("each alternative of a term is recognised by its first characters", EXPR + ": term, expression"),
   ("brackets and tuples share one production", EXPR + ": tuple; src/ast/type_/mod.rs: type_tuple"),
   ("a let entry that starts like a binding is not retried as a function", EXPR + ": let_bindings")],
  ["heap allocations made while parsing one text", "CPU time of parsing one text"])

p("C03", "An accepted text is represented completely, in order and verbatim",
  "When a text is accepted, its tree accounts for every token of it: each name, literal, operator, keyword and delimiter appears once, in source order and spelled as written, and the tree holds nothing that is not in the text. Every pair of parentheses encloses exactly one subtree, and only comments inside a declaration and the layout itself may leave no trace.",
  ["inputs"], "all accepted texts, including odd ones no one would write",
  "The tests compare a fixed list of snippets with fixed trees; a production that drops, duplicates, reorders or regroups something for an unlisted combination passes them.",
  [EXPR, "src/ast/type_/mod.rs", "src/ast/statement/mod.rs", "src/ast/mod.rs"],
  [("whole input must be consumed", "src/ast/mod.rs: file (eof)"), ("folding of application lists", EXPR + ": application_or_var"),
   ("folding of arrow lists", "src/ast/type_/mod.rs: type_annotation"), ("operator plus remainder", EXPR + ": binary")],
  TREE)

p("C04", "Expressions get the tree their syntax dictates",
  "Every expression built from names, applications, operators, parentheses, lists, tuples, units, records, record updates, field accesses and accessor functions, nested to any depth, parses to exactly the tree its syntax dictates. Application associates to the left and binds tighter than operators, an operator chain nests to the right in source order, every list, tuple, record and access keeps all its elements in order, and parentheses group without leaving a node of their own.",
  ["inputs", "programs"], "all expressions of the grammar, of every nesting and size, with or without redundant parentheses",
  "Tests cover single constructs with one or two elements and at most two levels; interactions (which construct follows or contains which) are unbounded.",
  [EXPR, "src/ast/expression/access.rs", "src/ast/expression/access_function.rs", "src/ast/expression/variable.rs"],
  [("term alternatives", EXPR + ": term"), ("application fold", EXPR + ": application_or_var"), ("binary", EXPR + ": binary"), ("records", EXPR + ": record, record_update, simplified_record")],
  TREE)

p("C05", "Literals are recognised in full and keep their value",
  "Every integer (decimal or hexadecimal, signed or not), float (with fraction, exponent or both), string, triple-quoted string and character literal parses, in any expression or pattern position, to one literal of its own kind. Numbers and strings keep their source spelling exactly (escapes included), characters denote the character written or escaped, and nothing inside a literal is taken for other syntax.",
  ["inputs"], "all literals: all digit strings, all string contents including comment markers, quotes, escapes, keywords and any Unicode, all characters and escapes",
  "The tests hold about fifteen literals, nearly all ASCII and alone in the input; contents that resemble other syntax and neighbours that touch the literal are not sampled.",
  ["src/ast/expression/integer.rs", "src/ast/expression/float.rs", "src/ast/expression/string.rs", "src/ast/expression/character.rs"],
  [("float before integer", EXPR + ": term"), ("string patterns", "src/ast/expression/string.rs"), ("character escapes", "src/ast/expression/character.rs: character_content")],
  TREE)

p("C06", "Blocks attach to the construct that opened them",
  "Programs built from if, case, let, lambda and operators nested in one another to any depth, laid out over any number of lines with any consistent indentation, parse to exactly the tree the layout dictates. Each branch belongs to the case whose branch column it sits at, each let entry to its own let, each else to its own if, and bodies extend as far as their indentation does.",
  ["programs", "inputs"], "all nestings of block constructs, all indentation widths, on one line or many",
  "Tests contain one nested case and a few lets; which block an inner line joins depends on combinations of columns over several levels that the tests never vary.",
  [EXPR, "src/ast/helpers.rs", "src/ast/expression/function.rs"],
  [("indentation passed down as a parameter", EXPR), ("indent comparison", "src/ast/helpers.rs: spaces_or_new_lines_and_indent"), ("branches at equal indent", EXPR + ": cases"), ("entries at equal indent", EXPR + ": let_bindings")],
  TREE, state=[("indentation", "column the current block is held against", "src/ast/expression/mod.rs, argument of every production")])

p("C07", "Misplaced block lines are rejected, never reattached",
  "A let entry or case branch whose column differs from that of its siblings and from every enclosing block is never accepted as one: the text is rejected rather than given a different tree. In every accepted text, the branches of a case and the entries of a let that begin on lines of their own all begin in the same column. A definition stands in the column of its type signature, at top level and in a let.",
  ["inputs", "programs"], "all programs with a line of a block, or the definition under a signature, moved left or right by any amount",
  "No test checks that bad indentation inside a let or case is refused; the tests for indentation call the whitespace helper alone, on three strings.",
  [EXPR, "src/ast/helpers.rs"],
  [("equal indent between siblings", EXPR + ": cases, let_bindings"), ("greater indent for arguments", EXPR + ": application_or_var"), ("indent comparison", "src/ast/helpers.rs")],
  TREE)

p("C08", "Formatting never changes the tree",
  "Two texts that differ only in formatting parse to the same tree: the number of spaces between tokens (and just inside brackets and around commas whether there are any), trailing spaces, blank lines, where lines are broken and how deep continuation lines are indented (beyond their block), redundant parentheses, and line comments placed at line ends or on their own lines between the parts of a list, tuple, record, application, operator chain, let, case, type or exposing list. Nor does it matter whether the file ends in a newline.",
  ["inputs", "programs"], "all pairs of layouts of all programs",
  "Each test has one layout of one snippet; none compares two layouts.",
  ["src/ast/helpers.rs", EXPR, "src/ast/type_/mod.rs", "src/ast/statement/mod.rs"],
  [("whitespace with comments and indent", "src/ast/helpers.rs: spaces_or_new_lines_and_indent"), ("blank space between statements", "src/ast/statement/mod.rs: statements")],
  TREE)

p("C09", "Type expressions get the tree their syntax dictates",
  "Every type built from variables, qualified constructors with arguments, functions, records, extensible records, tuples, unit and parentheses, nested to any depth and in any position a type can occupy, parses to exactly the tree its syntax dictates. The arrow associates to the right and binds weaker than constructor application, fields, elements and arguments keep their order, and parentheses group without leaving a node of their own.",
  ["inputs", "programs"], "all types of the grammar, of every nesting, in signatures, aliases, union types, ports and let signatures",
  "About twenty fixed types are tested, at most three levels deep, in one position each.",
  ["src/ast/type_/mod.rs", "src/ast/type_/core.rs"],
  [("arrow fold", "src/ast/type_/mod.rs: type_annotation"), ("constructor arguments", "src/ast/type_/mod.rs: type_constructor, type_parameter"), ("records", "src/ast/type_/mod.rs: type_record, type_record_constructor")],
  TREE)

p("C10", "Union type and alias declarations keep every part",
  "Every union type declaration parses to its name, its type parameters and all its constructors with all their arguments, in source order, on one line or many. Every alias declaration parses to its name, its parameters and the type it stands for, and the two kinds are never confused.",
  ["inputs", "programs"], "all type and alias declarations, any number of parameters, constructors and arguments, any layout",
  "Tests have at most four constructors, all without arguments, and four aliases.",
  ["src/ast/statement/type_declaration.rs"],
  [("alias tried before union", "src/ast/statement/mod.rs: statement"), ("constructors separated by bars", "src/ast/statement/type_declaration.rs: type_declaration")],
  TREE)

p("C11", "Module headers and imports report exactly what they name",
  "Every module header (plain, port or effect) and every import parses to exactly the module name, alias, settings and exposing list it spells, on one line or several. The list keeps values, operators, types, types with all constructors and types with listed constructors apart and in source order, and an absent alias or list is reported as absent.",
  ["inputs", "programs"], "all headers and imports, any number of name parts and exposed items, any layout",
  "Tests have exposing lists of at most three entries and single-part module names.",
  ["src/ast/statement/module.rs", "src/ast/statement/import.rs", "src/ast/statement/export.rs", "src/ast/helpers.rs"],
  [("exposing lists", "src/ast/statement/export.rs: exports"), ("module names", "src/ast/helpers.rs: module_name"), ("optional alias and list", "src/ast/statement/import.rs")],
  TREE)

p("C12", "Definitions keep their name, signature, arguments and body",
  "Every value or function definition, named or operator, at top level or in a let, parses to its name, all its argument patterns in order, its body, and its type signature exactly if one precedes it, which must be for that name. Port declarations and definitions and infix declarations likewise yield the name, type or body, arguments, associativity and precedence they spell.",
  ["inputs", "programs"], "all definitions, ports and infix declarations, with any patterns, any number of arguments, with and without signature",
  "Tests have a handful of definitions with at most two plain arguments, and three infix declarations.",
  ["src/ast/expression/function.rs", "src/ast/statement/port.rs", "src/ast/statement/infix.rs", EXPR],
  [("optional signature", "src/ast/expression/function.rs: function"), ("let entries", EXPR + ": let_bindings"), ("ports", "src/ast/statement/port.rs"), ("infix", "src/ast/statement/infix.rs")],
  TREE)

p("C13", "Comments between declarations are kept, those inside are inert",
  "Every line comment and every block comment (nested ones included) between declarations appears in the tree at its place, with its text unaltered. A line comment inside a declaration changes nothing, whatever its text, and no comment text is ever read as code nor code as a comment.",
  ["inputs"], "all comment texts (code, quotes, comment markers, any Unicode) at all places comments may stand",
  "Four tests parse one comment each, alone in the input.",
  ["src/ast/statement/comment.rs", "src/ast/helpers.rs", "src/ast/statement/mod.rs"],
  [("comment statements", "src/ast/statement/comment.rs: comment"), ("comments as white space", "src/ast/helpers.rs: single_line_comment")],
  TREE)

p("C14", "Declarations are parsed independently and in order",
  "A module parses to the sequence of its declarations and comments in source order, each with the tree it has when parsed alone. So putting two accepted modules one after the other, on separate lines, yields the one's declarations followed by the other's, and adding, removing or reordering declarations leaves the trees of the others as they were.",
  ["inputs", "programs"], "all sequences of declarations of all kinds, with any number of blank lines between them",
  "The tests parse one declaration at a time; two tests parse two declarations and check only that parsing succeeded.",
  ["src/ast/statement/mod.rs", "src/ast/mod.rs", "src/ast/expression/function.rs"],
  [("ordered alternatives of a statement", "src/ast/statement/mod.rs: statement"), ("separated list", "src/ast/statement/mod.rs: statements"), ("indent zero ends a declaration", "src/ast/expression/function.rs")],
  TREE)

p("C15", "Malformed text is rejected as a whole",
  "A text is rejected, never partly parsed and reported as good, if its brackets do not balance, a string, character or block comment is left open, a required keyword, arrow, equals sign, name or operand is missing, a comma has nothing beside it, a keyword occurs without its partner, an exposing list, record update, extensible record type or let holds nothing, a signature is for another name than the definition under it, or anything that is not a declaration stands before, between or after declarations.",
  ["inputs", "fault_sequences"], "all texts obtained from well-formed ones by such a fault, at any place and depth",
  "The tests contain five rejections, all of single productions; none damages a larger well-formed text.",
  ["src/ast/mod.rs", EXPR, "src/ast/type_/mod.rs", "src/ast/statement/export.rs", "src/ast/expression/string.rs"],
  [("whole input must be consumed", "src/ast/mod.rs: file (eof)"), ("required delimiters", EXPR), ("open strings and comments", "src/ast/expression/string.rs, src/ast/statement/comment.rs")],
  TREE)

p("C16", "Names are classified by case and reserved words are never names",
  "Every lower-case identifier that is not a reserved word, however closely it resembles one, can name a value, argument, field or type variable, and every upper-case identifier a type, constructor or module part; names come out exactly as written, qualified ones split at their dots. No reserved word (module, where, import, as, exposing, type, alias, port, if, then, else, let, in, case, of) and no reserved operator (= . .. -> -- | : \\) is ever accepted as a name, and no name of the wrong case is accepted.",
  ["inputs"], "all identifiers and operators in all positions a name can stand in",
  "Tests use about thirty names; one checks a reserved operator and none checks a reserved word.",
  ["src/ast/helpers.rs", "src/ast/expression/variable.rs"],
  [("reserved lists", "src/ast/helpers.rs: RESERVED_WORDS, RESERVED_OPERATORS"), ("name patterns", "src/ast/helpers.rs: lo_name, up_name, operator"), ("type variables", "src/ast/type_/mod.rs: type_variable")],
  TREE)

p("C17", "An error points to the first declaration that cannot be parsed",
  "When a text is rejected, the report shows a remainder that is the exact end of the text, from the point where parsing stopped. Everything before that point is accepted by itself, and when the fault lies at the start of a declaration or makes it unparsable from its start, the remainder begins with that very declaration, whatever precedes and follows it.",
  ["inputs", "fault_sequences"], "all rejected texts",
  "No test looks at the content of an error.",
  ["src/ast/mod.rs", "src/ast/statement/mod.rs"],
  [("end of input check", "src/ast/mod.rs: file"), ("statements stop at the first failure", "src/ast/statement/mod.rs: statements")],
  TREE)

p("C18", "Parsing is a pure function of the text",
  "Parsing a text gives the same result every time: on repetition, after any history of other texts, accepted or rejected, from any number of threads at once, and in a fresh process. It reads and writes nothing but its input and its result: parsing itself prints nothing.",
  ["histories", "schedules", "inputs"], "all sequences and concurrent interleavings of parses",
  "Every test parses one text once; the order and the overlap of parses are left to the test runner, and output is captured and ignored.",
  ["src/ast/mod.rs", "src/ast/helpers.rs", "src/ast/expression/character.rs"],
  [("no shared state", "src/ast"), ("no output while parsing", "src/ast/expression/character.rs")],
  TREE + ["bytes written to standard output and standard error while parsing"])

p("C19", "elm-parser-dump shows exactly the result of parsing the file",
  "For a file, elm-parser-dump prints the complete tree if and only if the whole content parses, and otherwise the error, and nothing else on standard output. With -q or --quiet it prints one line with the path as given and whether the file parsed, which always agrees with what the full output shows.",
  ["inputs", "configurations"], "all files and contents, with and without the quiet option in either spelling and position",
  "No test runs the program; it is only compiled.",
  ["src/dump.rs", "src/ast/mod.rs"],
  [("file reading and printing", "src/dump.rs: dump_file"), ("option handling", "src/dump.rs: main")],
  ["standard output and exit status of elm-parser-dump"], hook=None)

p("C20", "elm-parser-dump covers every .elm file under a directory exactly once",
  "Given a directory, elm-parser-dump reports on every regular file with the extension .elm under it, at any depth and under any name, exactly once and with the same result as when given that file alone, and on no other file. A file that fails to parse or cannot be read does not keep it from reporting on the rest.",
  ["inputs", "configurations", "fault_sequences"], "all directory trees: any depth, names, mixtures of files, directories named like files, links, unreadable and undecodable files",
  "No test runs the program on a directory.",
  ["src/dump.rs"],
  [("directory walk", "src/dump.rs: dump_directory"), ("extension filter", "src/dump.rs: dump_directory")],
  ["standard output and exit status of elm-parser-dump"], hook=None)

p("C21", "elm-parser-check lists exactly the imported values, in order",
  "For a file that parses, elm-parser-check prints the list of all values and operators that the imports of the file name in their exposing lists, in source order, repeated as often as they are named, and nothing else: no types, constructors, modules, aliases or names that the module itself exposes or defines. For a file that does not parse it prints the error.",
  ["inputs"], "all files: any number, order and form of imports among other declarations",
  "No test runs the program; it is only compiled.",
  ["src/check.rs", "src/ast/statement/import.rs"],
  [("collection of names", "src/check.rs: get_imported_names, get_export_set_imports")],
  ["standard output and exit status of elm-parser-check"], hook=None)

p("C22", "The tools only read, and fail visibly on what they cannot open",
  "Running elm-parser-dump or elm-parser-check never creates, changes or removes any file, and gives the same output each time it is run on the same content. Asked for a path that does not exist, or a single file that is not valid UTF-8, a tool ends with a failure status and prints no tree, list or verdict for it.",
  ["inputs", "configurations", "fault_sequences"], "all invocations on existing, missing, unreadable and undecodable paths",
  "No test runs the programs.",
  ["src/dump.rs", "src/check.rs"],
  [("opening and reading", "src/dump.rs: dump_file; src/check.rs: main")],
  ["standard output, standard error and exit status of the tools", "the directory tree before and after a run"], hook=None)

if __name__ == "__main__":
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(here, "properties.jsonl"), "w") as f:
        for x in P:
            f.write(json.dumps(x, ensure_ascii=False) + "\n")
    print(len(P), "properties")
