"""What each check runs: harness entries, budgets (seconds), bounds."""
ASSUMPTIONS = [
    "The code is executed from the LLVM IR that the installed rustc (release profile, no debug assertions) makes of /repo's current sources linked with the harness; crates that the sandbox stubs (regex, phf) are replaced in the symbolic build by equivalents under /verif/stubs and used as they are in the native replays.",
    "Allocation never fails; the global allocator, memcpy/memmove/memcmp, panic machinery and std I/O calls are modelled by the engine.",
    "The reference tokenizer and the reference parser under /verif/harness/src follow the Lua 5.3 manual.",
]
PROPS = {}


def P(pid, quick, thorough, bounds="", outside="", assumptions=()):
    PROPS[pid] = dict(quick=quick, thorough=thorough, bounds=bounds, outside=outside, assumptions=list(assumptions))


def R(entry, time, **k):
    return dict(entry=entry, time=time, **k)


GAP = "109 program templates (every statement and expression form), one of the gaps between tokens (each in turn) filled with one of 8 fillers with up to 4 symbolic characters; identifiers, digits and string contents symbolic where a template has them"
CFGS = "12 (thorough: 13) groups of symbolic format options x 109 templates x uniform gap fillings (tight, line comments, long comments, line breaks; thorough: 7 fillings in 9 statement contexts)"
BIG = "; 402 programs with a block or a function in every place the grammar has for one and 1134 with each of 54 kinds of expression in every place for one; about 39 000 bigger programs (each operand of a template replaced by 12 expressions, pairs of templates, contexts in contexts, nesting up to 12 deep; the ones that are programs) with all gaps filled alike, as many as fit into the time, spread evenly"
LONG = "programs longer than a template in a statement context, deeper nesting than the contexts and templates have, comments longer than a few characters; "

P("P01", [R("h_p01_gap", 30), R("h_p01_cfg", 40), R("h_p01_big", 60)], [R("h_p01_gap", 150), R("h_p01_cfg", 200), R("h_p01_ctx", 250), R("h_p01_big", 200)],
  bounds=GAP + "; " + CFGS + BIG,
  outside=LONG + "option values that merge tokens by design (removing white space without replacing it, non-blank hints)")
P("P02", [R("h_p02_gap", 30), R("h_p02_cfg", 40), R("h_p02_big", 60)], [R("h_p02_gap", 150), R("h_p02_cfg", 200), R("h_p02_ctx", 250), R("h_p02_big", 200)],
  bounds=GAP + "; " + CFGS + BIG,
  outside=LONG + "option values that change comment text by design are compared with the blanks around the text removed")
P("P03", [R("h_p03_gap", 30), R("h_p03_cfg", 40), R("h_p03_big", 60)], [R("h_p03_gap", 150), R("h_p03_cfg", 300), R("h_p03_big", 300)],
  bounds="the comment fillers of P01 in every gap of 109 templates; 12 option groups x 3 comment fillings" + BIG,
  outside=LONG + "comment removal without replace_zero_spaces_with_hint")
P("P04", [R("h_p04", 50), R("h_p04_in", 40)], [R("h_p04", 250), R("h_p04_in", 400)],
  bounds="109 templates between other statements (4 surroundings with non-ASCII text) x 3 ways to spread them over lines, every line range; " + GAP.replace("8 fillers", "4 fillers") + ", the range of all lines and the range of the template's lines; shipped configuration",
  outside=LONG + "other configurations; ranges that end before they begin; white space of a gap that is partly in the range")
P("P05", [R("h_p05_short", 20), R("h_p05_uni", 25, samples=3), R("h_p05_cfg", 40)], [R("h_p05_short", 60), R("h_p05_uni", 300), R("h_p05_cfg", 400)],
  bounds="25 frames around three arbitrary ASCII characters or two arbitrary characters of which one- to four-byte ones, with and without a line range of 0..4; 109 templates x 7 fillings x 10 groups of arbitrary option values (also non-ASCII hints)",
  outside="longer arbitrary text, resource exhaustion (stack depth, exponential layout tests on deep nesting), other option values")
P("P06", [R("h_p06_gap", 35), R("h_p06_ctx", 30), R("h_p06_big", 60)], [R("h_p06_gap", 200), R("h_p06_ctx", 300), R("h_p06_big", 300)],
  bounds=GAP + " (without the gap in front of a trailing field separator); 9 statement contexts x 109 templates x 6 fillings (one of them far to the right) with max_width symbolic in 1..110; the shipped configuration otherwise" + BIG,
  outside=LONG + "other configurations; comments in front of a trailing field separator")
P("P07", [R("h_p07_str", 30), R("h_p07_esc", 30), R("h_p07_long", 20), R("h_p07_num", 10), R("h_p07_all", 30), R("h_p07_big", 20)], [R("h_p07_str", 200), R("h_p07_esc", 200), R("h_p07_long", 200), R("h_p07_num", 100), R("h_p07_all", 60), R("h_p07_big", 200)],
  bounds="quoted strings of three symbolic elements (plain character, escape, other quote, non-ASCII letter), all escape forms, long strings of level 0..2 with up to 4 symbolic characters, numerals of up to 6 symbolic characters and longer ones (to 20 characters) with 3 to 5 symbolic ones; 4 places in a program; conversion option off and on; conversion with a string for every operand of 109 templates in 9 statement contexts, and in the bigger programs" + BIG,
  outside="longer literals; hexadecimal floats (the existing tests demand that they are rejected)")
FSA = ["The file system is a model in the engine: a tree of directories and regular files below the working directory /w, no links, directory entries in the order in which they were made; opening a file for reading or for writing can be made to fail. Native replays run the same operations in a scratch directory, the program as a child process (as an unprivileged user when opening must fail)."]
P("P08", [R("h_p08", 50), R("h_p08_stdin", 10)], [R("h_p08", 200), R("h_p08_stdin", 30)],
  bounds="two paths in both orders, in place or not, 7 kinds of content each (with a symbolic character where it matters: program, formatted program, almost a program, not UTF-8, empty, non-ASCII, longer than the I/O buffers), the second path also unreadable, unwritable or missing; the same contents on standard input",
  outside="more files, links, a write that fails half-way (std::fs::write truncates first), standard output that is closed", assumptions=FSA)
P("P09", [R("h_p09", 40), R("h_p09_file", 10), R("h_p09_dir", 15)], [R("h_p09", 200), R("h_p09_file", 30), R("h_p09_dir", 30)],
  bounds="17 names and names with up to two free characters in one of 4 places of a tree (the directory, a subdirectory, below a directory with the extension, outside), 4 ways to write the directory, with and without -r; subdirectories of 14 names and of up to two free characters; 17 names named directly with other and missing paths",
  outside="links, unreadable directories, names that are not UTF-8", assumptions=FSA)
P("P10", [R("h_p10", 45), R("h_p10_cli", 15)], [R("h_p10", 200), R("h_p10_cli", 60)],
  bounds="four nested directories, each with no configuration file, one of two names, files and directories with similar names, an invalid or a non-UTF-8 one; 4 ways to write the path (one through a side directory with a configuration), with and without line range and own format option; two files of two directories through the command line",
  outside="deeper trees, links, two configuration files in one directory", assumptions=FSA)
P("P11", [R("h_p11_set", 15), R("h_p11_file", 15), R("h_p11_shipped", 5), R("h_p11_cli", 30)], [R("h_p11_set", 60), R("h_p11_file", 60), R("h_p11_shipped", 10), R("h_p11_cli", 100)],
  bounds="49 options and 6 other names x 18 values and values of up to four symbolic printable characters, on an empty and on the shipped configuration; configuration files with one assignment (booleans, numerals, quoted strings with symbolic characters) among other statements; the shipped file; every option with six values on the command line of a program on standard input",
  outside="longer values, escapes in strings of configuration files (taken literally), the list of verbose output", assumptions=FSA)
P("P12", [R("h_p12", 60), R("h_p12_ops", 20), R("h_p12_big", 15), R("h_p12_num", 5)], [R("h_p12", 250), R("h_p12_ops", 60), R("h_p12_deep", 350), R("h_p12_big", 150), R("h_p12_num", 5)],
  bounds="all programs derived from the grammar of the manual whose first statement has up to 3 (thorough: 5) tokens more than its shortest form, written tight, with line breaks or comments between all tokens; all expressions of up to 7 tokens over 8 binary and 4 unary operators; numerals of 17 forms with symbolic digits; shipped configuration" + BIG,
  outside="longer programs, other white space (see P01); hexadecimal floats, `- -` (the existing tests demand that they are rejected), a statement that starts with a parenthesis after one that ends with an expression (known finding)")
P("P13", [R("h_p13", 30), R("h_p13_lex", 40), R("h_p13_uni", 25)], [R("h_p13", 60), R("h_p13_lex", 60), R("h_p13_uni", 60), R("h_p13_two", 250), R("h_p13_lex4", 350, job_time=60)],
  bounds="109 programs with one token (thorough: two) left out, doubled, replaced by or preceded by each of 44 tokens; any three (thorough: four) printable ASCII characters, tabs or line breaks, and any one or two characters (control characters, non-ASCII ones) in 25 frames",
  outside="other texts; escapes and line breaks inside quoted strings; the known findings (variables taken for calls and calls for variables, `...` anywhere in a parameter list, a numeral directly followed by a letter, `#!` after white space)")
P("P14", [R("h_p14_ctx", 40), R("h_p14_gap", 25), R("h_p14_big", 20)], [R("h_p14_ctx", 200), R("h_p14_gap", 200), R("h_p14_big", 300)],
  bounds="109 templates in 9 statement contexts x 3 fillings with the seven statement-layout options symbolic (off / one line break); one gap of every template with symbolic white space; no comments; three indentation strings" + BIG,
  outside=LONG + "comments, single-line collapsing (P19); line breaks inside expressions and tables (P20)")
P("P15", [R("h_p15_gap", 30), R("h_p15_ctx", 35), R("h_p15_big", 35)], [R("h_p15_gap", 200), R("h_p15_ctx", 250), R("h_p15_big", 300)],
  bounds="109 templates with one gap of symbolic white space, and in 9 statement contexts x 4 fillings with symbolic layout options, three table hints and two field separators; no comments" + BIG,
  outside=LONG + "comments, max_width layouts")
P("P16", [R("h_p16", 60)], [R("h_p16", 300)],
  bounds="109 templates with a symbolic last gap (8 fillers and a comment that ends the file), white-space removal options symbolic, shipped and empty configuration",
  outside=LONG)
P("P18", [R("h_p18_gap", 35), R("h_p18_ctx", 25), R("h_p18_text", 5), R("h_p18_big", 15)], [R("h_p18_gap", 200), R("h_p18_ctx", 200), R("h_p18_text", 10), R("h_p18_big", 200)],
  bounds=GAP + "; 109 templates in 9 statement contexts x 7 fillings; up to three free characters in a shebang line, in both kinds of comment (there also control characters and non-ASCII ones) and between tokens; no format option set" + BIG,
  outside=LONG + "white space in front of the brace of an empty table, which is normalised")
P("P17", [R("h_p17", 30), R("h_p17_gap", 25), R("h_p17_big", 20)], [R("h_p17", 250), R("h_p17_gap", 200), R("h_p17_big", 250)],
  bounds="49 table constructors (with every separator, nested and with functions) in 3 places x 36 combinations of the separator options and layouts; one gap of every template with tables filled with 8 fillers" + BIG,
  outside=LONG + "write_trailing_field_separator without field_separator keeps what the input has (the project's tests fix that)")
P("P19", [R("h_p19_ctx", 35), R("h_p19_wide", 25), R("h_p19_big", 20)], [R("h_p19_ctx", 150), R("h_p19_wide", 100), R("h_p19_big", 400)],
  bounds="109 templates in 9 statement contexts x 2 fillings and 8 longer programs with multi-byte characters in these contexts, max_width symbolic in 1..110, otherwise the shipped configuration; no comments" + BIG,
  outside=LONG + "comments; items of expression lists may end in column max_width (the blank in front is not counted)")
P("P20", [R("h_p20_ctx", 35), R("h_p20_gap", 15), R("h_p20_all", 20), R("h_p20_com", 25), R("h_p20_big", 30), R("h_p20_wide", 25), R("h_p20_wbig", 30)], [R("h_p20_ctx", 60), R("h_p20_gap", 20), R("h_p20_all", 250), R("h_p20_com", 100), R("h_p20_big", 150), R("h_p20_wide", 150), R("h_p20_wbig", 150)],
  bounds="109 templates in 9 statement contexts with the twelve expression and table layout options symbolic (in three groups; together with the statement layout options as far as the time goes); one gap of every template with symbolic white space; the same options with comments of 3 kinds in all gaps; without max_width. With max_width symbolic in 1..110, three configurations (one with the force_single_line options symbolic), tight and with comments in all gaps: every line break stands in a place for one and its line is indented as the constructs around it demand" + BIG,
  outside=LONG + "which of the lines are broken under a maximal width (P19 for the shipped configuration); a list or chain without a line break of its own may be indented or not if its items are on several lines under a maximal width")
P("P21", [R("h_p21_gap", 30), R("h_p21_ctx", 35), R("h_p21_text", 25), R("h_p21_big", 30)], [R("h_p21_gap", 250), R("h_p21_ctx", 150), R("h_p21_text", 200), R("h_p21_big", 200)],
  bounds=GAP + "; 109 templates in 9 statement contexts x 5 fillings with and without statement layout; up to three pieces (comments, line breaks, blanks; with free characters) in 9 places; the comment and white-space options symbolic in four groups" + BIG,
  outside=LONG + "blanks at the ends of lines (compared without them), max_width layouts, indentation of comments that do not start a line by an option")
P("P22", [R("h_p22_row", 60), R("h_p22_big", 40)], [R("h_p22_row", 500), R("h_p22_big", 300)],
  bounds="109 templates in 9 statement contexts x 3 programs behind them x 3 fillings x 6 gaps between the two (white space, line breaks, comments), max_width symbolic in 1..110, otherwise the shipped configuration" + BIG,
  outside=LONG + "statements inside a block (their width tests look at the rest of the line only); other configurations")
P("P23", [R("h_p23", 60), R("h_p23_list", 10)], [R("h_p23", 200), R("h_p23_list", 10)],
  bounds="35 words and words of one or two hyphens with up to two free printable characters, in three places, with and without another switch in three places, on a tree of four files; the list of options for no, one, all but one and all options",
  outside="longer free words; switches combined in one word (`-ir`), which the program reports as unknown; values of string options that need escapes in the list", assumptions=FSA)
