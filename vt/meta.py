"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os, subprocess, sys
sys.dont_write_bytecode = True
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
PR = []


def prop(id, title, statement, over, text, why, files, mech, observe=None, note="", claimed=True, reason=""):
    PR.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, observe=observe or ["text returned by the formatting API"], note=note, claimed=claimed, reason=reason))


AST, REC, LEX, CLEX = "src/parser/lua_ast.rs", "src/formatting/reconstruction.rs", "src/parser/lua_lexer.rs", "src/parser/comment_lexer.rs"
GRAM, CGRAM, CAST = "src/parser/lua_syntax.lalrpop", "src/parser/comment_syntax.lalrpop", "src/parser/comment_ast.rs"
DEC, LIST, HINT, UTIL = "src/formatting/decoration.rs", "src/formatting/list.rs", "src/formatting/loc_hint.rs", "src/formatting/util.rs"
CFG, FU, FMT, MAIN = "src/config.rs", "src/file_util.rs", "src/formatter.rs", "src/main.rs"
NOTE = "Symbolic execution of the LLVM IR of the whole formatter (lexers, generated parsers, layout code) through its public API, Z3 decides branches and assertions, counterexamples are replayed natively. "

prop("P01", "Formatting keeps the sequence of code tokens",
     "Formatting a valid Lua program leaves its sequence of code tokens (names, keywords, operators, literals) as it is, apart from field separators in tables, whose spelling and trailing occurrence are configurable. This holds for every combination of options that only add or replace white space by blanks.",
     ["programs", "inputs", "configurations"], "every valid program with any white space and comments between its tokens, under every token-safe configuration",
     "the tests compare fixed outputs for some hundred fixed inputs; a token may be lost, doubled or merged for a construct, a gap content or an option combination that no test has",
     [AST, LEX, DEC, LIST, HINT, GRAM], [("writing of every syntax node with the text between its tokens", AST), ("text between tokens and hints", HINT), ("lists and separators", LIST)], note=NOTE)
prop("P02", "Formatting keeps every comment, in order, with its text",
     "Unless comments are to be removed, every comment of the input is in the output, in the same order, of the same kind and with the same text (up to blanks at its edges when an option asks for hints around the text), and no comment appears that was not there.",
     ["programs", "inputs", "configurations"], "every valid program with any run of comments in any gap between tokens, under every token-safe configuration",
     "a comment can be dropped, merged with code or changed in kind only for particular gaps, texts and options; the tests sample a few of each",
     [CLEX, CAST, CGRAM, HINT, AST, DEC], [("lexer and grammar of the text between tokens", CLEX), ("writing of comments", CAST), ("gap handling", HINT)], note=NOTE)
prop("P03", "Comment removal removes all comments and nothing else",
     "With the option to remove comments the output has no comment, and its code tokens are those of the input: no two tokens around a removed comment are merged.",
     ["programs", "inputs", "configurations"], "every valid program with comments in any gap, under every token-safe configuration",
     "the tests remove comments from a few programs; whether two tokens merge depends on the tokens on both sides, the comment kinds and the other options",
     [CAST, CLEX, HINT, AST], [("writing of comments under the option", CAST), ("gap handling", HINT)], note=NOTE)
prop("P04", "A line range confines formatting to the statements it touches",
     "With a line range, text outside the statements and comments that the lines touch comes out byte for byte as it was (white space of a gap partly in the range and the final line break apart), code tokens and comments are all kept, a range of all lines formats like no range, and the lines of some statements are formatted as these statements are alone.",
     ["programs", "inputs", "configurations"], "every valid program, every line range, any characters (also multi-byte ones) around the range",
     "the range is turned into character positions that every node and gap is compared with; an error shows only for particular positions of particular nodes",
     [UTIL, AST, HINT, LIST, CFG], [("line range to positions", UTIL), ("copying of nodes outside the range", AST), ("gaps partly in the range", HINT)], note=NOTE)
prop("P05", "Formatting never crashes and always answers",
     "For every text, valid Lua or not, and every configuration the formatter returns either formatted text or an error with a message; it never panics and never runs on.",
     ["inputs", "configurations"], "every text (also truncated literals and comments, non-ASCII characters, arbitrary line ranges) and every configuration",
     "no test uses arbitrary bytes or arbitrary option values; slicing at character boundaries, index arithmetic and unwraps fail only for particular inputs",
     [LEX, CLEX, "src/parser/lexer_util.rs", UTIL, DEC, FMT, REC], [("lexers", LEX), ("line range arithmetic", UTIL), ("layout tests on the output written so far", DEC)], note=NOTE)
prop("P06", "Formatting is idempotent with the shipped configuration",
     "With the configuration file that ships with the project (also with another maximal width), formatting the output of a formatting run again gives the same text. Programs with a comment directly in front of a trailing field separator are excepted.",
     ["programs", "inputs", "configurations"], "every valid program with any white space and comments",
     "no test formats twice; a layout that depends on the previous layout shows only for particular gaps and widths",
     [AST, DEC, LIST, HINT, REC, ".luafmt.lua"], [("layout decisions", DEC), ("gap handling", HINT), ("lists", LIST)], note=NOTE)
prop("P07", "Literals keep their value",
     "Numerals, quoted strings and long strings are written exactly as they were read. When quotes are to be converted, every single-quoted string becomes a double-quoted string that denotes the same bytes, and nothing else changes.",
     ["inputs", "configurations"], "every string and numeral literal anywhere in a program, conversion on or off",
     "the tests convert a handful of strings; the value depends on every combination of quotes, backslashes and escapes",
     [AST, LEX], [("literal lexing", LEX), ("quote conversion", AST)], note=NOTE)
CNOTE = "Symbolic execution of the LLVM IR of the command-line program with a modelled file system, Z3 decides branches and assertions, counterexamples are replayed natively on real files. "
prop("P08", "In-place formatting never harms a file",
     "With -i a file comes to hold exactly its formatted text; a file that cannot be read, opened for writing, parsed or configured stays byte for byte as it was and is named in an error message, and the other files are processed all the same. Without -i no file changes, and standard output gets exactly the formatted text of the files in order, or that of standard input.",
     ["inputs", "files", "faults"], "every set of files, readable, writable, valid or not, in any order",
     "no test runs the program on files",
     [MAIN, FMT, FU], [("command line", MAIN), ("formatting of one file", FMT)], observe=["files after the run, standard output, standard error"], note=CNOTE)
prop("P09", "Exactly the files that were asked for are formatted",
     "A file named on the command line is processed; of a directory the files with the extension lua, with -r also those of all directories below, without the configuration files; no other file is touched, and a path that does not exist is reported.",
     ["directory trees", "names"], "every directory tree and every file name",
     "no test walks a directory; names with unusual dots, prefixes and extensions are decided by string comparisons",
     [FU, MAIN], [("selection of files", FU), ("command line", MAIN)], observe=["files after the run, standard error"], note=CNOTE)
prop("P10", "The nearest configuration file governs each file",
     "Without a format option on the command line each file is formatted with the configuration file of its directory or else of the nearest directory above that has one; a line range stays in force. With any format option no configuration file is used. If there is none, or it is not valid, the file is not formatted and an error is reported.",
     ["directory trees", "configurations"], "every nesting of directories with and without configuration files",
     "no test looks for a configuration file",
     [FU, FMT, CFG], [("search in the directories above", FU), ("choice of the configuration", FMT), ("loading", CFG)], observe=["formatted text, files after the run, standard error"], note=CNOTE)
prop("P11", "Every option sets exactly what it names",
     "Setting an option by its name, on the command line or in a configuration file, sets this option to the given value and no other one; a value or a name that is not valid changes nothing. Assignments in a configuration file and options on the command line have the same meaning, a later one wins.",
     ["configurations"], "every option, every value",
     "the tests set a few options; a name bound to the wrong field or the wrong type shows for this option only",
     [CFG, MAIN], [("table of options", CFG), ("command line", MAIN)], observe=["configuration after setting, formatted text"], note=CNOTE)
prop("P12", "Every valid program is accepted and gives a valid program",
     "The formatter accepts every valid Lua 5.3 program, and what it writes is again a valid program with the same tokens.",
     ["programs"], "every program that can be derived from the grammar of the Lua manual",
     "the tests parse some hundred programs; the tables of the generated parser cover unboundedly many combinations of constructs",
     [GRAM, LEX, AST, CGRAM], [("grammar", GRAM), ("lexer", LEX), ("writing of nodes", AST)], note=NOTE)
prop("P13", "A text that is not a program is reported, not rewritten",
     "A text that is not a Lua program gives an error with a message and no output; a text that is a program gives output with the same tokens. Nothing is dropped, inserted or guessed to make a text parse.",
     ["inputs"], "every text near a program: with tokens left out, doubled, replaced or put in, and with any characters in it",
     "the tests have few negative examples; an over-liberal lexer rule or grammar rule silently rewrites broken programs",
     [GRAM, LEX, "src/parser/lexer_util.rs", FMT], [("grammar", GRAM), ("lexer", LEX), ("literal ends", "src/parser/lexer_util.rs")], note=NOTE)
prop("P14", "Statement layout options give one statement per line, indented by depth",
     "With the statement layout options on, every statement stands on its own line, indented by the indentation string once per enclosing block or table, and once more per enclosing binary operator (operators of a chain count once), and block keywords stand on lines of their own; with one of the options off the construct it names stays on its line. The result does not depend on how the input was laid out.",
     ["programs", "inputs", "configurations"], "every comment-free valid program, every combination of the seven statement layout options",
     "the tests fix the layout of selected statements, one option at a time, mostly unnested",
     [AST, DEC, REC, HINT], [("layout of every statement form", AST), ("line breaks and indentation", DEC)], note=NOTE)
prop("P15", "Blanks between tokens are canonical",
     "With white space removal on, the blanks between two tokens on a line are determined by the tokens alone: one blank around binary operators, `=`, keywords and after commas, none inside parentheses, brackets and before arguments, none in front of a semicolon unless a parenthesis follows it, the configured hint inside table braces. How many blanks or line breaks the input had makes no difference.",
     ["programs", "inputs", "configurations"], "every comment-free valid program with any white space between its tokens",
     "the tests have a few spacings for a few constructs; the rule is for every pair of neighbouring tokens",
     [AST, HINT, LIST], [("hints between tokens", HINT), ("writing of syntax nodes", AST), ("separators", LIST)], note=NOTE)
prop("P16", "The newline at the end of the file is exactly as asked",
     "With the option to write a newline at the end of the file, the output ends with a newline and has no blanks in front of it when blanks are removed; without it no newline is added; the option changes nothing but the end of the output.",
     ["programs", "inputs", "configurations"], "every valid program with any white space or comment at its end",
     "the tests end in a few ways; the end depends on the comment or white space kind and on the removal options",
     [AST, HINT, DEC], [("end of the chunk", AST), ("line breaks", DEC)], note=NOTE)
prop("P18", "Without options the text is left as it is",
     "When no format option is set, formatting returns the input unchanged, except that a comment ending the file gets its line break and white space in front of the closing brace of an empty table may be normalised.",
     ["programs", "inputs"], "every valid program with any white space and comments",
     "the tests show this for fixed programs; the text is put together again from nodes and gaps, each of which can drop or move characters",
     [AST, HINT, LIST, CAST], [("writing of nodes and gaps", AST), ("comment writing", CAST)], note=NOTE)
prop("P17", "Table separators are exactly as configured",
     "With field_separator set every separator between the fields of every table is the configured one, otherwise each is as in the input. With write_trailing_field_separator off no table has a separator after its last field; with it on (and field_separator set) every table with fields ends in one, except that with force_single_line_table those written on one line have none; unset, the input decides. No field is lost or gains a separator elsewhere.",
     ["programs", "inputs", "configurations"], "every valid program with tables, any separators, nesting and layout",
     "the tests have a few tables; separators depend on nesting, layout, comments and three options",
     [AST, LIST, DEC], [("separators of lists", LIST), ("table constructors", AST), ("single-line layout test", DEC)], note=NOTE)
prop("P19", "Lines break exactly when max_width demands it",
     "With the shipped configuration and any max_width, a comment-free table, if statement or local function is written on one line exactly if it is one that may be collapsed and ends before column max_width, counted in characters; a line breaks in front of a binary operator, a list item or a suffix exactly if it does not fit behind what precedes it.",
     ["programs", "inputs", "configurations"], "every valid comment-free program, every max_width",
     "the tests fix the layout of a few programs at one or two widths; being off by one, counting bytes or measuring from a wrong column shows only at particular widths, depths and characters",
     [DEC, AST, LIST], [("single-line layout test", DEC), ("collapsible constructs", AST), ("list items", LIST)], note=NOTE)
prop("P20", "Expression and table layout options break and indent exactly the lines they name",
     "Without a maximal width, line breaks inside expressions and tables stand exactly where the options ask for them: before or behind binary operators, before the first or the later items of expression lists, before `.x` and `:m`, before fields, before opening and closing braces of tables with fields. A line is indented once per enclosing block and table, once per enclosing binary operator (operators of a chain count once), once per expression list or chain of suffixes that is on several lines (or in any case, as the options say). No line has only blanks, and how the input was laid out makes no difference. Under a maximal width as well, lines are broken in such places only, and every broken line is indented by the same rules (a list or chain that breaks no line of its own may be indented).",
     ["programs", "inputs", "configurations"], "every valid program, every combination of the options, every maximal width",
     "the tests fix the layout of selected expressions under selected options; the options interact through nested indentation levels that must be balanced for every nesting",
     [AST, DEC, LIST], [("layout of expressions, lists, tables", AST), ("line breaks and indentation stack", DEC), ("list items", LIST)], note=NOTE)

prop("P21", "The text between two tokens depends only on itself and the options",
     "Wherever a gap between two tokens stands, its comments, blanks and line breaks are written by the same rules: the options for a line break before the first or a later comment of either kind, the hints before a comment, before and behind its text and behind a long comment, the removal of blanks, single or all line breaks, and comments each do just that, a line that layout breaks at the gap is broken exactly once, and nothing else in the gap changes.",
     ["programs", "inputs", "configurations"], "every valid program with any comments in any gap, every combination of the comment and white-space options, with and without line-breaking layout",
     "every syntax node writes its own gaps, with its own hint and its own way of breaking a line there; the tests have comments in a few of the thousand places and few options together",
     [HINT, CAST, CLEX, CGRAM, DEC, AST], [("gap handling", HINT), ("writing of comments and line breaks", CAST), ("line breaks at a gap", DEC)], note=NOTE)
prop("P22", "How a statement is formatted does not depend on what stands before it",
     "The output for some statements followed by further top-level statements is the output for the first ones followed by the output for the others: the formatting of a statement leaves no trace (indentation level, function level, line width, flags) that changes what comes behind it.",
     ["programs", "inputs", "histories"], "every pair of valid programs put one behind the other with any gap, every maximal width, under the shipped configuration",
     "the layout code keeps state in shared cells that every early return must restore; whether it does shows only when a certain statement follows a certain construct at a certain width",
     [AST, DEC, LIST, CFG], [("state of the layout", CFG), ("state changes around nodes", DEC), ("tests for one-line layout", AST)], note=NOTE)

prop("P23", "Command-line switches and messages mean what they say",
     "The switches for in-place, recursive and verbose operation take effect in either spelling wherever they stand among the other arguments, once or several times, and change nothing else; a word with a leading hyphen that is no switch or option, or an option with an impossible value, is named on standard error and otherwise ignored, and without such words and failing files standard error stays empty. The verbose list names exactly the options that are set, with their values.",
     ["inputs", "configurations"], "every command line with any words of a stated length that begin with a hyphen, at any place, next to other options and paths",
     "the tests parse five fixed lists of options and never run the program; a word may be misread, dropped without a message, or take effect only in one position",
     [MAIN, CFG, FMT], [("arguments", MAIN), ("values of options, list of options", CFG), ("verbose output", FMT)], observe=["standard output, standard error, files"], note=NOTE)


def main():
    from vt import props
    with open(V + "/properties.jsonl", "w") as f:
        for p in PR:
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                                "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                                "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]], "observe_at": p["observe"], "hook_needed": None}}) + "\n")
    checks = []
    for p in PR:
        if not p["claimed"]:
            continue
        b = props.PROPS[p["id"]]
        checks.append({"property": p["id"], "quick_cmd": "./check %s quick" % p["id"], "thorough_cmd": "./check %s thorough" % p["id"],
                       "evidence_file": "evidence/%s.json" % p["id"], "technique": "symbolic execution of the compiled code's LLVM IR with Z3 (bounded), native replay of counterexamples",
                       "level": "model_checking", "level_note": p["note"] + "Bounds: " + b["bounds"] + ". Outside: " + b["outside"] + "."})
    m = {"version": 1, "setup_cmd": "python3 vt/build.py", "checks": checks,
         "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in PR if not p["claimed"]],
         "notes": "No hooks in /repo: everything is reached through the public API. See DESIGN.md and known_findings.txt."}
    with open(V + "/MANIFEST.json", "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
