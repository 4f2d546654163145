//! The checks: what runs for each property.
use crate::engine::*;
use crate::props_text::*;
use crate::props_tools::*;
use crate::props_tree::*;

pub const COMMON: &[&str] = &[
    "the verdict covers the executions of this run only",
    "the hook elm_parser::verif::parse and derived Debug show the parser's result as it is",
    "the harness's generators, printer and derivation checker describe the language the property speaks of (see DESIGN.md for what they leave out)",
];

/// Thorough runs plan this many times the cases of quick ones, and end when their time is up.
const MORE: u64 = 20;

macro_rules! streams {
    ($($n:literal, $q:expr, $f:path;)*) => { vec![$(Stream { name: $n, quick: $q, thorough: $q * MORE, run: $f }),*] };
}

macro_rules! tree {
    ($s:literal) => {
        concat!("Random trees are spelled as text with random spacing, line breaks, indentation, comments and redundant parentheses, parsed by the real parser, and the result is compared with the tree that was spelled. ", $s)
    };
}

pub fn checks() -> Vec<Check> {
    vec![
        Check {
            id: "C01",
            rule: "Texts of every kind (printed modules with tokens deleted, doubled, swapped or replaced, texts cut at every point, any Unicode in every position, escapes and numbers at their limits, deep and long ones of 60 families) are parsed in process with overflow checks on, by the debug build of elm-parser-dump, and by a build with AddressSanitizer. The monitors watch for panics, signals, sanitizer reports, and results that are neither a complete tree nor a located error. Every distinct text counts. Nesting is at most 200 (120 in the tool); deeper is covered by the known findings only.",
            assumptions: &["threads in the harness have stacks of 256 MB, the tool's main thread has the system's default"],
            streams: streams! { "damaged", 4000, c01_damaged; "unicode", 40000, c01_unicode; "holes", BANK.len() as u64, c01_holes; "long", 4500, c01_long; "cut", 400, c01_cut; "deep", 600, c01_deep; "tools", 60, c01_tools; "sanitized", 36, c01_sanitized; "known", 1, c01_known_all; },
        },
        Check {
            id: "C02",
            rule: "Effort is the number of allocations of a parse, which is deterministic. nested: random contexts are nested in themselves 3 to 26 (thorough: 64) times, whole or damaged at the core or the end, and the effort at every depth must stay within a quadratic extrapolation of the smaller ones. long: 60 families of texts of growing length, the same. any: random and damaged texts must stay below a bound per byte ten times what has been seen. Every distinct context, family member or text counts.",
            assumptions: &["every step of the parser that matters allocates (each name compiles a regular expression, each failure builds an error)"],
            streams: streams! { "nested", 4000, c02_nested; "long", 1000, c02_long; "any", 3000, c02_any; },
        },
        Check {
            id: "C03",
            rule: "Texts (printed modules, the same after one to three random edits of their tokens, and random sequences of tokens and clauses) are parsed; when one is accepted, a derivation checker written independently of the parser must find a way to read the whole text, token for token, as the tree that was reported. Distinct accepted texts count.",
            assumptions: &[],
            streams: streams! { "printed", 16000, c03_printed; "mutated", 16000, c03_mutated; "soup", 32000, c03_soup; },
        },
        Check {
            id: "C04",
            rule: tree!("The trees are expressions without blocks. Distinct trees of more than one node count."),
            assumptions: &[],
            streams: streams! { "random", 120000, c04_random; "shapes", 40000, c04_shapes; },
        },
        Check {
            id: "C05",
            rule: tree!("The trees hold literals of every form in expression and pattern positions; the stream characters goes through every ASCII character and escape. Distinct literals count."),
            assumptions: &[],
            streams: streams! { "random", 240000, c05; "characters", 272, c05_characters; },
        },
        Check {
            id: "C06",
            rule: tree!("The trees are if, case, let, lambda and operators nested in one another; the stream ladder combines each of them with each in each hole. extents: an operator or arrow at the start of a line is moved left of the body it continues, which must be rejected. Distinct trees with two or more blocks count."),
            assumptions: &[],
            streams: streams! { "random", 60000, c06_random; "ladder", 20000, c06_ladder; "extents", 6000, c06_extents; "known", 1, c06_known_all; },
        },
        Check {
            id: "C07",
            rule: "moved: a printed module is accepted as its tree, then one let entry or case branch (alone or with all its lines) is moved to a column where neither a sibling nor any line of an enclosing block stands; the text must be rejected. aligned: lines are moved about at random; when the text is still accepted, the derivation checker must read it as the reported tree with the entries and branches of every block in one column. signatures: a definition is moved to another column than its signature; the text must be rejected. Distinct moved or accepted texts count.",
            assumptions: &[],
            streams: streams! { "moved", 3000, c07_moved; "aligned", 3000, c07_aligned; "signatures", 3000, c07_signatures; },
        },
        Check {
            id: "C08",
            rule: tree!("layouts: one tree is printed in several unlike styles, and all must give the tree. edits: single changes of formatting (a space, a blank line, trailing spaces, a comment at a line's end, the last newline) are applied to one text. Distinct texts count."),
            assumptions: &[],
            streams: streams! { "layouts", 36000, c08; "edits", 14400, c08_edits; },
        },
        Check {
            id: "C09",
            rule: tree!("The trees are types in every position a type can occupy. Distinct trees count."),
            assumptions: &[],
            streams: streams! { "random", 240000, c09; "shapes", 80000, c09_shapes; },
        },
        Check {
            id: "C10",
            rule: tree!("The trees are union type and alias declarations. Distinct declarations count."),
            assumptions: &[],
            streams: streams! { "random", 120000, c10; },
        },
        Check {
            id: "C11",
            rule: tree!("The trees are module headers and imports. Distinct declarations count."),
            assumptions: &[],
            streams: streams! { "random", 300000, c11; },
        },
        Check {
            id: "C12",
            rule: tree!("The trees are definitions at top level and in lets, with and without signatures, ports and infix declarations. Distinct declarations count."),
            assumptions: &[],
            streams: streams! { "random", 125000, c12; },
        },
        Check {
            id: "C13",
            rule: tree!("between: comments with texts full of code, delimiters and Unicode stand between declarations and must appear in the tree. inside: line comments are put into declarations, which must leave the tree as it was. Distinct texts count."),
            assumptions: &[],
            streams: streams! { "between", 100000, c13_between; "inside", 32000, c13_inside; },
        },
        Check {
            id: "C14",
            rule: "Random modules are parsed whole, declaration by declaration, with declarations added, removed and exchanged, and one after the other; each declaration must have the tree it has alone. whole: modules of 20 to 60, now and then up to 520 declarations, some of them repeated. Distinct modules count.",
            assumptions: &[],
            streams: streams! { "edits", 8000, c14; "concat", 8000, c14_concat; "whole", 1200, whole_modules; },
        },
        Check {
            id: "C15",
            rule: "Printed modules are damaged in one of 22 ways, chosen with the printer's knowledge of every token, such that the result is certainly malformed (a bracket removed, added or exchanged, a literal or comment left open, a keyword, arrow, equals sign, colon, operand or name removed, a keyword without partner, a signature of another name than its definition, an exposing list, update, extensible record or let with nothing in it, something that is no declaration between declarations); each must be rejected. edited: small edits at brackets, names and keywords; what is accepted all the same must be a spelling of the tree that comes back. Distinct malformed texts, and accepted edited ones, count.",
            assumptions: &[],
            streams: streams! { "damaged", 16000, c15_damaged; "edited", 12000, c15_edited; },
        },
        Check {
            id: "C16",
            rule: tree!("names: names that resemble reserved words in every position of a name. not names: in 50 positions, a random good name must be accepted and reserved words, reserved operators, names of the wrong case and other impossible names must be rejected. Distinct texts count."),
            assumptions: &[],
            streams: streams! { "names", 160000, c16_names; "not names", 60000, c16_not_names; },
        },
        Check {
            id: "C17",
            rule: "remainder: for rejected texts of every kind, the remainder must be an end of the text, what stands before it must be accepted alone, and parsing the remainder must stop at once. planted: one of 100 kinds of broken declarations is put between two accepted modules, and the remainder must begin with it. Distinct rejected texts count.",
            assumptions: &[],
            streams: streams! { "remainder", 20000, c17_remainder; "planted", 32000, c17_planted; },
        },
        Check {
            id: "C18",
            rule: "Texts are parsed repeatedly: in random histories among texts that differ in one character, from buffers reused at the same address, 300 times in a row and, with something of every kind in them, thousands of times, from eight threads at once, in other processes with other surroundings whose system calls are filtered so that any reading or writing kills them, whose environment and arguments kill them when looked at, and whose output is watched, and in a build with ThreadSanitizer (standard library included) from eight threads. Every result must be the first one. Distinct texts count.",
            assumptions: &["the filter lets calls for memory, time and threads pass"],
            streams: streams! { "history", 600, c18_history; "repeat", 100, c18_repeat; "wear", 60, c18_wear; "often", 16, c18_often; "threads", 20, c18_threads; "processes", 40, c18_sealed; "raced", 20, c18_raced; },
        },
        Check {
            id: "C19",
            rule: "Files with texts of every kind, under names and paths of every kind, are given to elm-parser-dump, in full and with -q or --quiet before or after the path. The full output must read back as exactly the tree or error that the parser gives for the whole text, the quiet output must be one line with the path and the verdict. Distinct texts count.",
            assumptions: &["the verdicts' wording is learnt from one file that parses and one that does not"],
            streams: streams! { "files", 750, c19_files; },
        },
        Check {
            id: "C20",
            rule: "Random folders (nested up to 60 deep, hidden, with odd names, folders called x.elm, other files, links, further names of the same file, equal and empty files, named pipes and sockets, up to 150 files in one folder, unreadable files and folders, files that are not UTF-8) are given to elm-parser-dump as an unprivileged user, quiet and in full. Every .elm file must be reported on once, with its own result, and nothing else. Distinct folders count.",
            assumptions: &["links and closed folders may be reported on or not"],
            streams: streams! { "folders", 240, c20_folders; },
        },
        Check {
            id: "C21",
            rule: "Modules with many imports and other declarations, whole and damaged, are given to elm-parser-check. Its output must read back as exactly the list of values and operators that the generator put into the imports' lists, or as the parser's error. Distinct texts count.",
            assumptions: &[],
            streams: streams! { "lists", 1500, c21_lists; },
        },
        Check {
            id: "C22",
            rule: "The tools are run with every kind of argument (files, folders, paths that do not exist, broken and circular links, unreadable files, files that are not UTF-8, no argument, unknown flags), as an unprivileged user and under a filter that kills a process asking for a change to files. The folder they see is compared before and after, down to times and modes, a second run must give the same output, and on what cannot be opened they must fail without a result. Distinct pairs of command and text count.",
            assumptions: &[],
            streams: streams! { "reads", 330, c22_reads; },
        },
    ]
}
