def q(over, text):
    return {"over": over.split(), "text": text}

def anch(files, **mech):
    return {"files": files.split(), "mechanism": [{"name": k.replace("_", " "), "where": v} for k, v in mech.items()]}

PROPS = [
 dict(id="P01", title="buildifier modifies only the named files, only to their formatted contents",
  statement="In every mode and on every path, including failed reads, failed parses and failed writes, the only file buildifier may modify is the input file itself, and only in fix mode, after that file was read and parsed successfully, with exactly the formatter's output for that file's own contents, and only if the output differs from the contents read. In all other modes the only files it creates are temporary ones. Formatted text for one file is never written to another one.",
  quantifier=q("inputs configurations fault_sequences", "all command lines, all file contents, all combinations of failing file operations, any number of files in one invocation"),
  why_tests_cant="Tests run the binary on a few files in a few modes with a working file system; they reach neither failing operations nor all combinations of mode, lint and diff settings.",
  anchors=anch("buildifier/buildifier.go buildifier/utils/utils.go buildifier/utils/tempfile.go differ/diff.go", processFile="buildifier/buildifier.go", processFiles="buildifier/buildifier.go"),
  technique="path-sensitive SSA dataflow: provenance of path and bytes, and guards, at every file-system write",
  level_note="Every file-system-modifying call reachable from buildifier's main is found through the call graph; for each, on every path the analysis distinguishes, the path argument must be the name the bytes were read from, the data must be the formatter's result for that read, the mode must be known to be fix, the parse error nil and the contents compared different. Assumes the standard library behaves as documented; aliases of one file under two names are out of scope; the formatter's own result is not judged here."),
 dict(id="P02", title="buildifier's exit status and output never hide a failure or a result",
  statement="Whenever a file could not be read, parsed, written or diffed, buildifier exits with a non-zero status, and an exit status of 0 in check mode means that every file is well-formatted. The documented codes are used (1 syntax error, 3 unexpected runtime error, 4 reformatting or lint warnings in check mode), and when nothing at all goes wrong the status is 0; with an explicit --format only failures to read or write count, the report tells the rest. In fix mode a differing result is always written, in print modes always printed, in diff mode always passed to the differ.",
  quantifier=q("inputs configurations fault_sequences", "all numbers and orders of input files, all outcomes of every read, parse, write and diff, all modes"),
  why_tests_cant="The integration scripts exercise single failures in single files; a failure forgotten because a later file succeeds, or an error that needs a failing write, is not reached.",
  anchors=anch("buildifier/buildifier.go buildifier/utils/utils.go differ/diff.go buildifier/README.md", run="buildifier/buildifier.go", processFiles="buildifier/buildifier.go", Differ="differ/diff.go"),
  technique="path-sensitive interprocedural SSA dataflow: event typestate per file, checked at every process exit",
  level_note="For each kind of failure (read, parse, write, diff command, lint findings, unformatted file) the analysis follows every path through main's call tree and checks the status passed to os.Exit. Whether a file differs is taken from the tool's own comparison. Failures of printing diagnostics to stderr/stdout are not counted."),
 dict(id="P03", title="Computing lint findings never changes the analysed files",
  statement="Running any lint check on a file, in any mode, does not modify the syntax tree of that file or of any other file it loads; proposed fixes are returned as separate replacements (only an empty placeholder for a new load statement may be inserted). A fix is put into the tree only when fixing was requested (-lint=fix), and a fix that is only being suggested is taken out again before the next one is considered.",
  quantifier=q("inputs configurations", "all source files, all warnings and combinations of warnings, all lint modes"),
  why_tests_cant="Each lint test compares the findings of one warning on one input; a check that quietly edits the tree is only visible in other warnings run later, on inputs of a shape that triggers the edit.",
  anchors=anch("warn/*.go buildifier/utils/utils.go", FileWarnings="warn/warn.go", insertLoad="warn/warn_bazel_api.go", Lint="buildifier/utils/utils.go"),
  technique="interprocedural side-effect (may-mutation) analysis on SSA; path-sensitive guard analysis of the replacement stores",
  level_note="A may-modify summary is computed for every function of the program (field- and allocation-sensitive, all callees and callbacks included). Every function that produces findings must have no modification of syntax-tree memory it did not allocate. Stores through a replacement's target are decided path-sensitively (mode known to be fix, or undone by a deferred restore). Assumes the standard library modifies only what it documents; no reflection."),
 dict(id="P04", title="Concurrent workers of buildifier and buildozer share no mutable state",
  statement="Files that are processed or read concurrently (buildozer's per-file workers, buildifier's parallel readers) never modify memory that another worker can see: no command, formatter or parser code running in a worker changes command arguments, options, tables or any other state shared between workers, and the output and error writers the workers share are synchronised. The result for one file therefore does not depend on scheduling.",
  quantifier=q("schedules inputs", "all interleavings of workers, all sets of files and commands"),
  why_tests_cant="A race or a shared slice modified by one worker needs particular files processed in a particular interleaving; the tests process one file at a time.",
  anchors=anch("edit/buildozer.go buildifier/buildifier.go edit/default_buildifier.go", Buildozer="edit/buildozer.go", processFiles="buildifier/buildifier.go"),
  technique="interprocedural side-effect analysis of every function started by a go statement; writer-wrapping lint",
  level_note="For each go statement in the repository the may-modify summary of the started function must be free of modifications of arguments, captured or package-level memory (mutex-guarded or own-index writes excepted); captured variables must not be assigned after the start; io.Writers in shared structs must be wrapped in a mutex-holding type before the start. Memory passed over a channel is treated as handed over; user-supplied callbacks (EditFile, custom formatter) are analysed only as found in the repository."),
 dict(id="P05", title="Printing, walking, copying and querying a syntax tree never modify it",
  statement="Formatting a tree without rewriting, walking it, asking for spans, comments, rules, attributes, labels or used symbols, and copying nodes never modify the tree; a copied node is a newly allocated one, not the original. The buildozer commands print and print_comment never modify a file's tree and never cause the file to be rewritten.",
  quantifier=q("inputs", "all syntax trees and all arguments"),
  why_tests_cant="A query that edits the tree returns the right answer in its own test; the damage shows in what is printed or saved afterwards.",
  anchors=anch("build/print.go build/walk.go build/rule.go build/syntax.go edit/edit.go edit/buildozer.go labels/labels.go", FormatString="build/print.go", Copy="build/syntax.go", cmdPrint="edit/buildozer.go"),
  technique="interprocedural side-effect (may-mutation) analysis on SSA",
  level_note="May-modify summaries of the listed query functions, of every Span/Comment/Copy method and of the functions registered for read-only commands must not touch syntax-tree memory of a parameter. Callbacks passed to Walk are judged where they are written."),
 dict(id="P06", title="Processing one file leaves no state behind for the next one",
  statement="Parsing, formatting, linting or editing a file never modifies package-level state of the tools, so the result for a file is the same whichever files the process handled before. Only start-up configuration (flags, -tables files, registering a formatter) sets package-level state.",
  quantifier=q("inputs histories", "all sequences of files processed by one process, and all sequences of library calls"),
  why_tests_cant="Tests process each input in a fresh state or in one fixed order; a cache that leaks from one file to the next needs two particular files in one process.",
  anchors=anch("build warn edit buildifier/buildifier.go tables/tables.go", processFile="buildifier/buildifier.go", FileWarnings="warn/warn.go", rewrite="edit/buildozer.go"),
  technique="interprocedural side-effect analysis on SSA restricted to package-level variables",
  level_note="Every exported function and method of the libraries and every function of the binaries that parses or formats must have no possible modification of a repository package-level variable or memory reachable from it. One genuine violation is listed as a known finding (the cached apparent-repository-name mapping)."),
 dict(id="P07", title="buildozer writes back only changed, correct results, to the file they came from",
  statement="On every path, including failed reads, parses, commands and writes, the only files buildozer may modify are the BUILD files named by its targets, each with exactly the formatter's output for the tree parsed from that same file's own contents. A file is written only if some command changed its tree, no command for it failed (unless -k is given), the output is not redirected to stdout (-stdout or the file '-'), and the new contents differ from those read.",
  quantifier=q("inputs configurations fault_sequences", "all command lines and command files, all file contents, all outcomes of every command and of every read, parse and write"),
  why_tests_cant="The tests run single successful commands with replaced file access; they do not reach failing commands or operations in combination with -k, -stdout and several files.",
  anchors=anch("edit/buildozer.go file/file.go edit/default_buildifier.go", rewrite="edit/buildozer.go", writeFile="file/file.go"),
  technique="path-sensitive SSA dataflow: provenance of path and bytes, and guards, at every file-system write",
  level_note="Analyses the goroutines started by edit.Buildozer with the default file hooks; each command is treated as able to fail or succeed, with or without a changed tree. That a command which changed the tree returns the file is P17."),
 dict(id="P08", title="buildozer's exit status and messages never hide a failure",
  statement="If a file could not be read, parsed, formatted or written, or a command failed on it, buildozer prints an error message for it and exits with status 2, whatever happened to the other files. Otherwise it exits with 0 if a file was changed or the output goes to stdout, and with 0 or 3 if nothing was changed; a changed tree is never silently dropped.",
  quantifier=q("inputs configurations fault_sequences schedules", "all numbers and orders of files and commands, all outcomes of every command, read, parse, format and write"),
  why_tests_cant="Tests check the status of single successful runs; a failure forgotten because another file succeeds, or an error path that needs a failing write or formatter, is not reached.",
  anchors=anch("edit/buildozer.go buildozer/main.go buildozer/README.md", Buildozer="edit/buildozer.go", rewrite="edit/buildozer.go", main="buildozer/main.go"),
  technique="path-sensitive interprocedural SSA dataflow: one result per job, failure typestate, checked at the result channel, at the returned status and at the process exit",
  level_note="Failures of printing messages to stderr are not counted. The record output for print commands is not checked."),
 dict(id="P09", title="Every lint finding is reported, suppressed or fixed, exactly as asked",
  statement="Every enabled lint check runs, and every finding it returns has exactly one outcome. A finding is suppressed, neither reported nor fixed, exactly if a node whose lines (its comments included) contain the line the finding starts in has a comment naming the finding's check in full after \"buildifier: disable=\" or \"buildozer: disable=\"; any other is reported, with its own positions and message and under the name of its check, except that in fix mode a finding with replacements has all of them applied instead. No finding is lost, cut off or replaced by another check's.",
  quantifier=q("inputs configurations", "all files, all sets of enabled checks, all lint modes, all lists of findings the checks may return"),
  why_tests_cant="Tests look at one check's findings on one input in one mode; a finding lost only in combination with another check, mode or number of findings is not seen.",
  anchors=anch("warn/warn.go", FileWarnings="warn/warn.go", runWarningsFunction="warn/warn.go", ruleWarningWrapper="warn/warn.go"),
  technique="path-sensitive SSA dataflow: typestate of each finding through suppression, fix and report",
  level_note="Checks are treated as able to return any list of findings. What each check finds is not decided here, nor where the span of a node begins and ends. Whether letters' case matters in a disabling comment is left open."),
 dict(id="P10", title="Formatting rewrites stay within their scope and respect leave-alone marks",
  statement="A formatting rewrite runs only if it is not disabled and applies to the file's type, or if it is in the explicitly given set; sorting of call arguments, label fixing, removal of parentheses and joining of multi-line + never run on .bzl or other Starlark files by default, sorting of use_repo arguments only on MODULE files, and lists in arguments are never sorted in .bzl or other Starlark files unless marked \"keep sorted\". No rewrite changes identifiers, operators, assignments, function headers or control statements: only label fixing and docstring re-indentation change strings, only the numeral rewrites change number tokens. Calls that are, or are nested in, something marked with a \"buildifier: leave-alone\" comment keep their argument order, labels and attribute lists, labels so marked themselves stay too, and lists marked \"do not sort\" keep their order.",
  quantifier=q("inputs configurations", "all syntax trees, all file types, all sets of enabled or disabled rewrites, all placements of the marks"),
  why_tests_cant="Golden files show each rewrite on a few inputs; that it never touches anything else, in any file type and under any combination of marks and switches, is not sampled.",
  anchors=anch("build/rewrite.go", Rewrite="build/rewrite.go", sortStringLists="build/rewrite.go", fixLabels="build/rewrite.go"),
  technique="side-effect summaries per rewrite against allowed frames; path-sensitive SSA dataflow for the guards of dispatch and marks",
  level_note="Frames are per kind of field (for example: elements of an expression list), so which list is reordered is not distinguished within one rewrite. What a label is rewritten to and the order produced by a sort are not decided. A \"keep sorted\" mark overrides the list sorting marks."),
 dict(id="P11", title="Tree traversals reach every child of every node",
  statement="Walking a syntax tree visits every non-nil child of every kind of node exactly in the places the tree stores them, except that annotated parameter names, their types and function result types count as leaves; the replacing variants write each replacement back and every callback gets the stack of ancestors of its node. Walking statements visits every nested statement unless the callback asks to stop there. The lists of nodes the parser goes through to attach comments contain every node, including closing brackets and else keywords, so that no place a comment can belong to is skipped.",
  quantifier=q("inputs programs", "all syntax trees, all callbacks"),
  why_tests_cant="Whether a rare child (a slice step, an else branch, a closing bracket of an empty tuple) is always visited is a statement about all shapes of trees; tests sample a few.",
  anchors=anch("build/walk.go build/lex.go", WalkOnce="build/walk.go", walkStatements="build/walk.go", order="build/lex.go"),
  technique="path-sensitive SSA dataflow: per node type, every child field must be passed to the callback (or a function verified to do so) on every path, solved as a greatest fixpoint",
  level_note="The children that must be visited are computed from the declared node types. The order in which children are visited is not decided, nor which of several candidate nodes a comment is attached to."),
 dict(id="P12", title="Printing writes every part of the tree and every comment",
  statement="Printing a file or expression writes every statement, operand, element, parameter, name, operator, literal and annotation the tree holds, on every path through the printer, whatever the layout chosen. Every comment attached before, after or at the end of the line of a node, before a closing bracket, on an else keyword or around the file is written, and pending end-of-line comments are never discarded before they are written.",
  quantifier=q("inputs configurations", "all syntax trees, all file types and layout flags"),
  why_tests_cant="Losing code or a comment happens in rare combinations of node, layout and comment position; golden files cover a few of them.",
  anchors=anch("build/print.go", expr="build/print.go", seq="build/print.go", statements="build/print.go", newline="build/print.go"),
  technique="path-sensitive SSA dataflow: per node type, every child, list, text and comment list must reach an output call on every path, solved as a greatest fixpoint over the printer's functions",
  level_note="Decides that each part reaches the output, not the separators, brackets, order or line structure around it. Only the first body expression of a lambda is required, and a slice step only when its second colon is present."),
 dict(id="P13", title="Operators nest as in the language, and printing preserves the nesting",
  statement="In the parsed tree, unary, binary and conditional operators nest as in Starlark: by precedence (conditional, or, and, not, comparisons, |, ^, &, shifts, additive, multiplicative, unary) and from left to right within a level. Printing an expression tree without rewriting adds parentheses around an operand that would otherwise parse to a different nesting, so every nesting of operators, calls, subscripts, attributes, lambdas and conditionals prints to text that parses back to the same nesting. A parenthesis that is opened is closed.",
  quantifier=q("inputs programs", "all expressions, and all trees of expressions a rewrite or command may build"),
  why_tests_cant="The number of operator combinations is large and tests print a few; trees built by fixes and commands reach combinations that no source file has.",
  anchors=anch("build/parse.y build/parse.y.go build/print.go", expr="build/print.go", opPrec="build/print.go", yyParse="build/parse.y.go"),
  technique="analysis of the LALR tables against the language's precedences; precedences extracted from the printer by SSA dataflow and compared with the tables for all nestings up to depth three",
  level_note="The tables are read from the source and evaluated on abstract token sequences; nothing is run. Nestings are enumerated for one and two levels of each kind of expression, which determines deeper ones as the printer passes only one precedence. Trees that hold an assignment or a statement as an operand are not considered."),
 dict(id="P14", title="Rewrites, lint checks and commands do not crash on missing parts",
  statement="On a tree that was parsed, formatting rewrites, printing, lint checks, buildozer and unused_deps commands take an element at a fixed position of a list or string (first, second, last, a fixed prefix or suffix) only after having established that it exists, convert a syntax node to a specific kind only after having established that it is of that kind, and use a looked-up thing (attribute, rule, map entry, match) only after having established that it was found. A buildozer command runs only with a number of arguments within the bounds declared for it, and those bounds cover every argument the command takes without asking.",
  quantifier=q("inputs programs", "all parsed files, all command lines, all numbers of arguments, elements and matches"),
  why_tests_cant="A missing check shows only on a file or command line that lacks just that part (an empty call, a call with one argument less, an attribute of another kind), and there are over a thousand such places.",
  anchors=anch("build/rewrite.go build/print.go build/rule.go warn/warn.go edit/buildozer.go edit/edit.go edit/fix.go edit/bzlmod/bzlmod.go unused_deps/unused_deps.go", AllCommands="edit/buildozer.go", parseCommands="edit/buildozer.go", rewrite="edit/buildozer.go"),
  technique="path-sensitive abstract interpretation over SSA (length bounds, dynamic types, nilness correlated with ok results), with sites not safe for all arguments decided in the contexts of their callers",
  level_note="Decided for fixed positions, unchecked assertions, and results that may be absent; positions computed in loops are judged only where they were compared or searched for and may be just outside. Some thirty places that rest on invariants of the tree or of stacks are listed as reviewed, by what they access and how many there are. The parser itself (it recovers), the string-literal decoder and the conversion from the other syntax tree are not covered; neither are nil maps, recursion depth or nil elements inside lists."),
 dict(id="P15", title="Every failed operation is returned or reported, never taken for a success",
  statement="Whenever an operation fails in buildifier, buildozer, unused_deps or their libraries - reading, writing, closing or removing a file, walking a directory, parsing a file or a table or a configuration, decoding a message, running a program - the function that called it returns an error, prints or stores that error, or ends the process with a non-zero status; it never goes on to return as if the operation had succeeded. Exceptions are questions: whether something exists (workspace roots, configuration files, BUILD files under //..., the alternatives of a file name, loaded files, labels in jars), whether a text is a number or a string literal; and printing to the terminal.",
  quantifier=q("fault_sequences inputs", "every fallible call in the tools and libraries failing, on every path"),
  why_tests_cant="Tests run with a working file system and well-formed inputs; most calls have never failed in a test, and a dropped error shows only in the run in which it matters.",
  anchors=anch("edit/buildozer.go edit/default_buildifier.go file/file.go buildifier/buildifier.go buildifier/config/config.go buildifier/utils/utils.go buildifier/utils/tempfile.go tables/jsonparser.go unused_deps/unused_deps.go unused_deps/jar_manifest.go wspace/workspace.go differ/diff.go", rewrite="edit/buildozer.go", Buildify="edit/default_buildifier.go", ExpandDirectories="buildifier/utils/utils.go", ParseAndUpdateJSONDefinitions="tables/jsonparser.go"),
  technique="path-sensitive SSA dataflow: each call with an error result is split into success and failure, and the failure is followed to every return and exit of the caller",
  level_note="Every call in non-test, non-generated code whose last result is an error is followed, except prints to the terminal and calls that make an error. Passing the error as an argument, storing it in a list or structure, or returning any non-nil error counts as reporting it; that a stored error is printed in the end is decided for buildozer in P08 only. Deferred calls and calls in go statements are not followed. The exceptions of the statement are listed per package and callee with their number."),
 dict(id="P16", title="The same inputs give the same result: iteration order is never observable",
  statement="Running buildifier, buildozer, unused_deps or a library function twice on the same inputs gives the same edited files, messages and findings in the same order: nothing that is returned, written, printed or kept depends on the order in which a map happens to be iterated, on the clock, on random numbers or on addresses, and buildifier reports files in the order of its arguments however its readers are scheduled. The order in which one buildozer run reports files it edits in parallel is not covered.",
  quantifier=q("schedules inputs", "all inputs, all iteration orders of every map, all interleavings of the file readers"),
  why_tests_cant="Go randomises map iteration, so a test sees one order per run and passes most of the time; with one or two entries it cannot see the difference at all.",
  anchors=anch("edit/edit.go warn/*.go wspace/workspace.go unused_deps/unused_deps.go buildifier/config/validation.go generatetables/generate_tables.go tables/tables.go", AppendToLoad="edit/edit.go", collectAllWarnings="warn/warn.go", processFiles="buildifier/buildifier.go", writeUnusedDeps="unused_deps/unused_deps.go", Find="wspace/workspace.go"),
  technique="order-insensitivity analysis of every unordered loop on SSA (accumulators, map fills, exits, calls with their may-modify summaries), with lists built in such loops followed across functions until they are sorted",
  level_note="Every range over a map is an obligation, and so is every list filled in one. Recognised as insensitive: counters, flags, extrema, entries under the loop's key, fixed values, lists sorted by a total order before use. Not covered: goroutines that race on memory (that is P04), and ties of a comparison inside the formatter's sorts (their inputs are already in a fixed order)."),
 dict(id="P17", title="A buildozer command that changes the file reports it as changed",
  statement="Whenever a buildozer command (any entry of the command table, including `fix`) changes the syntax tree of the file it works on - sets, renames, adds or removes an attribute, a rule, a statement, a comment or a value - it reports the file as changed, so that the change is written back, unless it returns an error. A single fix run by `fix` is taken at its word about whether it changed something.",
  quantifier=q("inputs", "all files, rules and arguments of every command, all paths through the command and the editing functions it calls"),
  why_tests_cant="A change that is made but not reported is silently dropped at the end of the run; it shows only for the argument and file combination that takes the one path with the wrong result.",
  anchors=anch("edit/buildozer.go edit/edit.go edit/fix.go build/rule.go", AllCommands="edit/buildozer.go", ListAttributeDelete="edit/edit.go", FixFile="edit/fix.go"),
  technique="path-sensitive interprocedural SSA dataflow: every tree-modifying statement reached marks the path, and marked paths must return the file or an error; a list filtered anew counts as modified when an element was left out",
  level_note="The modifying statements come from the effects summaries. That a present attribute has a value is assumed. Sorting a list that is rebuilt does not count as a change."),
 dict(id="P18", title="Parsing loses nothing: all syntax and all comments are in the tree",
  statement="In the tree of a file that parses, every statement, clause, operand, argument, parameter, type annotation, name, number and string literal of the source is present, whichever constructs it stands in and however they are nested, and the lexer skips nothing but white space and line continuations. Every comment of the source is in the tree as well, attached once to a node or to the file.",
  quantifier=q("inputs", "all source texts that parse, through every production of the grammar, every path of its action, and every path of the lexer and of comment assignment"),
  why_tests_cant="The grammar has some 150 productions with actions that branch on positions and on earlier comments; a lost operand or comment shows only for the file that combines the constructs, and tests hold a sample of files.",
  anchors=anch("build/parse.y build/parse.y.go build/lex.go", yyParse="build/parse.y.go", Lex="build/lex.go", assignComments="build/lex.go", extractTrailingComments="build/parse.y"),
  technique="right sides of all productions decoded from the parser tables, and a must-hold dataflow over each action's SSA; path-sensitive typestate of comments and tokens in the lexer; queue-drain and moved-comment rules on SSA",
  level_note="Which node a comment is attached to, positions and the values computed from literals are not judged. A statement that has just been parsed is assumed to have no comments before it, and the last statement of a block that is a comment block is assumed to be the one whose comments are moved."),
 dict(id="P19", title="buildifier's report tells every file, finding and unformatted file",
  statement="For every file that could be read, buildifier's report holds exactly one entry that tells whether the file parsed, whether it is formatted (in check mode) and all findings the linter returned for it, each with its own category, message, URL, flags, start and end (line and column). The report's success flag is true exactly if all files are formatted and without findings. Its text form has a line for every finding (file, line, category, message, URL) and one for every unformatted file, its JSON form has all of the report's fields, and the report is printed before buildifier ends normally.",
  quantifier=q("inputs configurations", "all numbers and orders of files, findings and outcomes, both output formats, all lint modes"),
  why_tests_cant="Golden files sample a few reports; an entry, a line or a field that is lost only for a later file, an invalid file or a finding of a certain kind is not among them, and the scripts that compare them are not part of the unit tests.",
  anchors=anch("buildifier/utils/diagnostics.go buildifier/utils/utils.go buildifier/buildifier.go buildifier/README.md", Format="buildifier/utils/diagnostics.go", NewDiagnostics="buildifier/utils/diagnostics.go", NewFileDiagnostics="buildifier/utils/diagnostics.go", processFile="buildifier/buildifier.go"),
  technique="must-pass-through analysis of the loops over files and findings, backward slices of written text and report fields, path-sensitive dataflow for flags, success and formats, type-level check of the encoding",
  level_note="That a line contains a field is decided by a backward slice of what is written, not by its layout; the linter's own results are the subject of P09. A file that could not be read has no entry, the failure is in the exit status (P02)."),
 dict(id="P20", title="buildozer runs every command on every target it is given",
  statement="Every command given to buildozer, on the command line or on a non-blank, non-comment line of a command file, is executed in the order given on every target it was given for: on each rule the target stands for whose kind the filter admits (or once on the file, for commands on files), with its own arguments, each on the tree the previous one left - unless an error is reported. A package pattern stands for the BUILD file of every directory below it that can be read, all commands for one file (by whatever name) are executed by one worker, and every record a command makes is part of the output.",
  quantifier=q("inputs histories schedules", "all command lines and command files, numbers of targets, rules and commands, directory trees, earlier failures with -k, interleavings of workers"),
  why_tests_cant="Tests run one or two commands on one file; a command dropped after another's failure, for a later target or the last line of a file, or lost because two workers edit a file, needs that combination.",
  anchors=anch("edit/buildozer.go edit/edit.go", rewrite="edit/buildozer.go", Buildozer="edit/buildozer.go", appendCommands="edit/buildozer.go", appendCommandsFromReader="edit/buildozer.go", findBuildFiles="edit/buildozer.go"),
  technique="must-pass-through analysis of the loops over targets, commands, rules, lines, files and results on SSA (no iteration skipped, no early exit without an error), with backward slices of what each command is given",
  level_note="Which rules a target name stands for is taken from the lookup functions. A file that symbolic links make reachable under two names counts as two. Undo of a failed command's partial edits is not claimed."),
 dict(id="P21", title="unused_deps suggests removing only dependencies that were not used",
  statement="unused_deps prints a command to remove or move a dependency only for a string in the deps attribute of that very target that equals, as a label, the manifest label of one of the target's direct-dependency jars, and only if no jar with that label is recorded as explicitly used in the target's jdeps file; if that file cannot be read or decoded it suggests nothing for the target. Each such string is suggested: moved to runtime_deps if the comment at its line's end contains the word runtime (in any letter case), removed otherwise. unused_deps modifies no file but its output file and its own temporary folder.",
  quantifier=q("inputs configurations fault_sequences", "all BUILD files, all params and jdeps files, also unreadable or damaged ones, any number of targets, jars and labels"),
  why_tests_cant="There are no tests of this part; it takes a bazel build to run it, and the failures that matter (a used dependency removed) need particular orders and combinations of jars, labels and damaged files.",
  anchors=anch("unused_deps/unused_deps.go unused_deps/jar_manifest.go labels/labels.go unused_deps/README.md", unusedDeps="unused_deps/unused_deps.go", directDepParams="unused_deps/unused_deps.go", printCommands="unused_deps/unused_deps.go"),
  technique="SSA control-dependence and provenance rules: loops that must be complete, edges every path to a suggestion must take, origin of sets, labels and paths",
  level_note="Decided for the source of unused_deps itself; what bazel writes to the params and jdeps files, how a manifest line is decoded and which labels labels.Equal takes for equal are assumptions. Whether an explicit entry's kind is spelled out by the compiler is not its concern."),
 dict(id="P22", title="A buildozer command changes only what it names",
  statement="A buildozer command that is run on a rule (other than `fix`) changes, in the tree of its file, only that rule - and, with variable editing switched on, the list variables that rule's attribute refers to; `delete` removes that rule's statement and no other, and what a command copies from another rule is not shared with it. The attributes it sets, replaces, renames or deletes are those its arguments name (`*` stands for all of them, `remove *` keeps the name), the list elements and dictionary entries it replaces or deletes are those that equal the ones named, and only `set kind` changes the rule's kind; set_if_absent, copy_no_overwrite and dict_add leave alone what is there already, whatever kind of value it is, and removing list elements or entries deletes an attribute only when nothing is left in it. When statements are removed from a file, the resulting file keeps the path, package, label, workspace, type and comments it had.",
  quantifier=q("inputs histories", "all files, rules, attribute values and command arguments, and all sequences of commands on one file"),
  why_tests_cant="Golden tests look at small files with one or two rules; damage to an attribute, entry or rule that was not named shows only for files that hold one that is almost the one named, or for the next command in a sequence.",
  anchors=anch("edit/buildozer.go edit/edit.go edit/bzlmod/bzlmod.go build/rule.go", AllCommands="edit/buildozer.go", DeleteRule="edit/edit.go", RemoveFromList="edit/edit.go", DictionaryDelete="edit/edit.go", DelAttr="build/rule.go"),
  technique="forward taint of the file handed to each command with may-modify summaries, provenance of attribute names against the command table's argument descriptions, and edge-dominance of every replacing or deleting statement by an equality test, on SSA",
  level_note="Which labels are equal is taken from labels.Equal, which rule a target stands for from the lookup functions. Moving values common to all branches of a select out of it, adding a value that is in a branch, merging adjacent lists and sorting lists are not judged here. Looking up the name __pkg__ may declare the package."),
 dict(id="P23", title="Flags, configuration and tables files take effect as given",
  statement="Every setting of buildifier can be given as a key of .buildifier.json and, but for warningsList, as the flag named like it: a flag on the command line wins over the file and the file over the default (list-valued flags accumulate), the settings are validated before any file is parsed, and none is changed on the way except that a missing mode, lint mode or type gets its documented default and -d means -mode=diff. Each setting reaches what it controls: -type selects the parser of that name, which marks the tree with that type, -path is the name a file is parsed under, no -warnings means the default warnings and 'all' all of them, and each buildozer flag sets the option it is documented to set. A -tables file replaces every built-in table by its own table of the same name; an -add_tables file, read after it, adds its entries to the tables of the same names, its values winning, and can only switch on the two boolean settings.",
  quantifier=q("configurations inputs", "all combinations of flags, configuration files and tables files of buildifier and buildozer"),
  why_tests_cant="Tests set a few options one at a time; a setting that is lost, swapped or overridden only together with another one, or a tables entry that is skipped for some value, shows only for combinations no test lists.",
  anchors=anch("buildifier/config/config.go buildifier/config/validation.go buildifier/buildifier.go buildozer/main.go tables/jsonparser.go tables/tables.go build/lex.go", FlagSet="buildifier/config/config.go", Validate="buildifier/config/config.go", MergeTables="tables/tables.go", GetParser="buildifier/utils/utils.go"),
  technique="symbolic reading of straight data flow on SSA (terms over named fields, flags and constants, calls bound to their arguments, constant conditions closing edges) with must-pass path rules",
  level_note="encoding/json and package flag behave as documented. How a configuration file is found, which names select which type, the parsing of +/- in -warnings and of the comma-separated -types are not judged."),
 dict(id="P24", title="Converting a Starlark tree loses no part and no comment",
  statement="Converting a file parsed by the Go Starlark parser (with comments) into buildtools' own tree keeps, for every kind of statement and expression that buildtools' tree has a counterpart for, every part in its role: names, operators, values of literals, operands, arguments, parameters, bodies, branches, clauses, list elements and dict entries, each in order and none left out. A slice's step is still there when the result is printed, and no integer literal or kind of comprehension makes the conversion panic. Every comment of a node, and of the name in a function definition or attribute access, ends up on the converted node, before, after or at the end of its line as it was.",
  quantifier=q("programs", "every Starlark file without while loops and bytes literals"),
  why_tests_cant="The package has no tests; what a conversion loses depends on which of some thirty kinds of node, with which optional parts and comments, a file has.",
  anchors=anch("convertast/convert_ast.go", ConvFile="convertast/convert_ast.go", convStmt="convertast/convert_ast.go", convExpr="convertast/convert_ast.go"),
  technique="provenance of every field store of each node built, compared with a table of counterparts, with must-pass path rules and complete-loop rules on SSA",
  level_note="How the literal was written (base, quotes, rawness) and the layout (line breaks, the exact place a comment is printed) are not judged, nor the bytes of the resulting file."),
]
NA = [
 dict(id="N01", title="Formatting a formatted file changes nothing",
  statement="For every file that parses, formatting the output of buildifier again, with the same mode and tables, gives the same bytes.",
  quantifier=q("inputs", "every BUILD, .bzl, MODULE.bazel and WORKSPACE file"),
  why_tests_cant="The golden files cover a few hundred inputs; idempotence is lost where two rewrites or two layout decisions feed each other.",
  anchors=anch("build/print.go build/rewrite.go", Rewrite="build/rewrite.go", Format="build/print.go"),
  reason="It equates two whole-program runs over unbounded trees: layout decisions depend on widths, positions and comments of the first run, so it needs an equivalence of executions; no dataflow or syntactic rule in reach bounds it. P10, P11, P13 and P18 cover the parts that have a structural argument."),
 dict(id="N02", title="What is printed parses to the tree that was printed",
  statement="For every tree built by the parser or by buildozer's edits, printing it and parsing the result gives the same tree up to positions.",
  quantifier=q("inputs programs", "every tree"),
  why_tests_cant="Tests print and re-parse the golden files only.",
  anchors=anch("build/print.go build/parse.y build/lex.go", expr="build/print.go", Lex="build/lex.go"),
  reason="The printer's text and the lexer's and grammar's reading of it would have to be shown inverse on all strings, with indentation and comments; that is a functional-correctness proof. Its structural parts (every field is filled, printed once, in order, with the needed parentheses) are P13 and P18."),
 dict(id="N03", title="An automatic fix keeps the meaning of the file",
  statement="A file fixed with -lint=fix evaluates to the same targets, macros and values as before, but for what the warning says is changed.",
  quantifier=q("programs", "every BUILD and .bzl file and set of warnings"),
  why_tests_cant="Each fix is tested on a handful of snippets.",
  anchors=anch("warn/warn_bazel_api.go warn/warn_control_flow.go", FixWarnings="warn/warn.go"),
  reason="It quantifies over the evaluation of arbitrary Starlark programs before and after; no static argument over the Go source bounds that. P09 covers which checks may edit and that fixes are reported."),
 dict(id="N04", title="Labels and strings survive being taken apart and put together",
  statement="Parsing the text of a label or string literal and rendering the result gives an equivalent text, for every label and every byte string.",
  quantifier=q("inputs", "every label and string literal"),
  why_tests_cant="Tables of examples cover the usual forms only.",
  anchors=anch("labels/labels.go build/quote.go", Parse="labels/labels.go", Unquote="build/quote.go"),
  reason="It relates two string algorithms on all inputs, byte by byte; deciding it needs execution or a solver over strings, not a rule over the source."),
 dict(id="N05", title="Sorting by the built-in orders is a total order",
  statement="The orders used for load statements, deps, arguments and commands are transitive and antisymmetric on all strings and positions, so sorting gives the same result whatever the order before.",
  quantifier=q("inputs", "all lists"),
  why_tests_cant="An intransitive triple needs three particular elements.",
  anchors=anch("build/rewrite.go warn/warn_bazel_operation.go", sortStringList="build/rewrite.go"),
  reason="Transitivity of comparators over derived keys (phases, split labels, numbers) is a claim about values for all triples; it needs symbolic execution. P16 covers that no output depends on map order or scheduling."),
]
