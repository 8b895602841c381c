#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def p(id, title, statement, over, text, why, files, mech, observe, tech, note):
    P.append(dict(id=id, title=title, statement=statement, over=over.split(), text=text, why=why,
                  files=files.split(), mech=mech, observe=observe, tech=tech, note=note))

B = "edlisp/builtin_"
ALLTEXT = "every text (ASCII, multi-byte, invalid UTF-8, CRLF, no final newline, empty), every point and mark, every argument"
MODEL = "Trusts the reference model in /verif/harness/model (written from docs/functions.md, docs/spec.md, the registered documentation and, where these are silent, the behaviour the repository's tests pin)."
CALLS = "online reference-model monitor: every builtin call is intercepted in the evaluation environment and its result, text, point and mark are compared with an independent executable model started from the observed state"

p("P01", "Movement commands go exactly where documented and edit nothing",
  "Every movement command (by character, word and line, to the start or end of the line or buffer, to a position, to a line) moves point exactly to the position its documentation describes for any text, start position and count, stopping at the buffer's ends. It never changes the text or the mark.",
  "inputs programs", ALLTEXT + "; counts of any size and sign, fractions included",
  "Tests move once or twice through a short ASCII text; corner positions (end of buffer, on a newline, inside a word, counts beyond the text, negative counts) and their combinations are not reached.",
  f"{B}forward_char.go {B}backward_char.go {B}forward_word.go {B}backward_word.go {B}beginning_of_line.go {B}end_of_line.go {B}goto_line.go {B}goto_char.go {B}beginning_of_buffer.go {B}end_of_buffer.go edlisp/eval.go",
  [("each movement builtin computes a position and sets point through the clamping setter", "edlisp/builtin_*.go, Buffer.SetPoint")],
  ["return of each builtin call: text, point, mark, value"], CALLS,
  "Exhaustive over all texts of up to 4-5 letters of three small alphabets with every point, plus random programs and large texts; held on the executions observed. " + MODEL)

p("P02", "Insertions and deletions affect exactly the documented span",
  "Insert, delete-char, delete-backward-char, kill-word, backward-kill-word, kill-line and delete-line change exactly the bytes their documentation and examples name, leave every other byte as it was, and leave point where the change happened (after an insertion). A deletion with a count below one removes nothing, and a count beyond the text stops at its end.",
  "inputs programs", ALLTEXT + "; any count",
  "Tests check one or two counts on one text each; the span depends on point's place in a line or word, neighbours, line ends and count.",
  f"{B}insert.go {B}delete_char.go {B}delete_backward_char.go {B}kill_word.go {B}backward_kill_word.go {B}kill_line.go {B}delete_line.go edlisp/eval.go",
  [("each command computes a span of the text and rebuilds the buffer around it", "edlisp/builtin_*.go")],
  ["return of each builtin call"], CALLS,
  "Exhaustive over small texts and points, plus random programs; held on the executions observed. kill-line's and backward-kill-word's handling of the character at point follows their documented examples and tests. " + MODEL)

p("P03", "Point and mark always lie inside the buffer",
  "After every instruction of every program, and after every library call that sets them, point and mark are between 1 and the buffer size plus one. No sequence of edits, moves and mark operations, with any numbers, leads outside.",
  "programs histories", "every program over all functions and every sequence of buffer API calls, from any text, with extreme and fractional numbers",
  "It is an invariant over histories: the mark goes stale when text is deleted after it was set, which only multi-step programs show.",
  f"edlisp/eval.go {B}goto_char.go {B}set_mark_command.go {B}exchange_point_and_mark.go {B}delete_region.go {B}mark.go",
  [("SetPoint and SetMark clamp; the mark is clamped again when read", "edlisp/eval.go: Buffer.SetPoint, SetMark, Mark")],
  ["after every call: Buffer.Point, Buffer.Mark, Buffer.String"],
  "invariant monitor hooked on every builtin call and every trace event, over generated programs and buffer API histories",
  "Held on the histories observed (millions of calls per run).")

p("P04", "Searches find the right match, and a failed search changes nothing",
  "search-forward finds the first occurrence at or after point, search-backward the last one that ends at or before point, re-search-forward the leftmost match at or after point and re-search-backward the last match before point; point is left at the end of the match. When there is no match (or the pattern is invalid) the command fails and text, point, mark and the remembered match are all as before.",
  "inputs programs", "every text, position and needle or RE2 pattern, overlapping and adjacent matches and matches at the buffer's ends included",
  "Tests search for words in prose; overlapping candidates, matches at the edges, multi-byte text and what a failed search leaves behind are not reached.",
  f"{B}search_forward.go {B}search_backward.go {B}re_search_forward.go {B}re_search_backward.go",
  [("search from point, then set point and remember the match only on success", "edlisp/builtin_*search*.go")],
  ["return of each search; replace-match afterwards"], CALLS + "; the remembered match is observed by a following replace-match and in error reports",
  "Patterns are matched within the searched part of the text (anchors see its ends), as the code documents by example. Held on the executions observed. " + MODEL)

p("P05", "replace-match replaces the last match and nothing else",
  "replace-match replaces exactly the text that the last successful search matched and leaves point after the replacement. If that text is no longer there (because of edits in between) or nothing has been matched, it fails and changes nothing; it never alters other text.",
  "histories inputs", "every sequence of searches, edits and moves before replace-match, in every text",
  "Tests replace right after searching; the danger is a stale match after edits, failed searches in between and repeated replacement.",
  f"{B}replace_match.go {B}search_forward.go {B}search_backward.go {B}re_search_forward.go {B}re_search_backward.go",
  [("the match is remembered as positions and text; the text is compared before it is replaced", "edlisp/builtin_replace_match.go")],
  ["return of replace-match"], CALLS + "; the monitor shadows the last match over the whole history",
  "An empty match counts as no match. Held on the histories observed. " + MODEL)

p("P06", "Mark and region commands act on exactly the region",
  "The region is the text between mark and point in either order: delete-region and replace-region change exactly that text, region-beginning and region-end report it, exchange-point-and-mark swaps its ends, and set-mark, set-mark-command, mark-word, mark-line and mark-whole-buffer set it as documented. The marking commands never change the text.",
  "inputs programs", ALLTEXT,
  "Tests use mark before point in ASCII text; reversed and empty regions, marks left stale by deletions, and word and line marking at the edges are not reached.",
  f"{B}set_mark.go {B}set_mark_command.go {B}mark_word.go {B}mark_line.go {B}mark_whole_buffer.go {B}exchange_point_and_mark.go {B}delete_region.go {B}replace_region.go {B}region_beginning.go {B}region_end.go",
  [("regions are ordered from point and mark before use", "edlisp/builtin_*region*.go")],
  ["return of each call"], CALLS,
  "The mark does not move with edits (only clamped); whether a clamped mark springs back when text grows is not specified and not judged. " + MODEL)

p("P07", "Position and text queries tell the truth and change nothing",
  "point, mark, point-min, point-max, buffer-size, line-number-at-pos, region-beginning, region-end and buffer-substring return exactly what the buffer holds at that moment, in bytes counted from 1, and current-column returns the same count for the same place in a line. No query changes text, point, mark or the remembered match.",
  "inputs programs", ALLTEXT + "; substring bounds of any value",
  "Tests query a few positions; every position (end of buffer, on newlines, after edits) matters, and purity is a statement about what is not changed.",
  f"{B}point.go {B}mark.go {B}point_min.go {B}point_max.go {B}buffer_size.go {B}line_number_at_pos.go {B}current_column.go {B}buffer_substring.go {B}region_beginning.go {B}region_end.go",
  [("queries only read the buffer", "edlisp/builtin_*.go")],
  ["return of each query"], CALLS,
  "current-column is judged against the counting tests/current-column.xml pins, which is one larger than documented (recorded under P33). " + MODEL)

p("P08", "String functions compute exactly their documented value",
  "concat, length, substring, upcase, downcase, capitalize and replace-regexp-in-string return exactly the documented function of their arguments for every string, bound, pattern and replacement template. They depend on nothing but their arguments and leave the buffer untouched.",
  "inputs", "all strings (multi-byte, invalid UTF-8, empty), all bounds, RE2 patterns with groups and templates",
  "Tests sample a handful of ASCII strings.",
  f"{B}concat.go {B}length.go {B}substring.go {B}upcase.go {B}downcase.go {B}capitalize.go {B}replace_regexp_in_string.go",
  [("pure functions of their arguments", "edlisp/builtin_*.go")], ["return of each call"], CALLS,
  "Held on the executions observed. Regular expression matching itself is Go's regexp package on both sides. " + MODEL)

p("P09", "Pattern tests answer correctly and have no side effects",
  "looking-at says whether a match of the pattern starts at point, looking-back whether some match ends at point, and string-match where the first match in the string begins; a pattern that is not a valid regular expression is compared literally. The answers are right for every text, position and pattern, and asking changes nothing.",
  "inputs", "all texts, positions and patterns, ambiguous patterns (alternations, quantifiers, lazy ones) and invalid ones included",
  "looking-back must consider every match that could end at point, which depends on the pattern's ambiguity; tests use literal words.",
  f"{B}looking_at.go {B}looking_back.go {B}string_match.go",
  [("anchored matching with a literal fallback", "edlisp/builtin_looking_at.go, builtin_looking_back.go, builtin_string_match.go")], ["return of each call"], CALLS,
  "The model decides looking-back by anchoring the pattern's syntax tree at the end. Held on the executions observed. " + MODEL)

p("P10", "Wrong arguments are rejected before anything changes",
  "Every builtin called with a number of arguments or an argument type outside its documented signature fails, and text, point and mark are exactly as before the call. Every call inside the signature is accepted as far as its arguments are concerned.",
  "inputs programs", "every builtin with every arity 0 to 5 and every combination of argument kinds, in every buffer state, directly and inside programs",
  "50 functions times all arities and kinds; tests cover a few.",
  "edlisp/eval.go " + " ".join(f"{B}{x}.go" for x in ["insert", "substring", "goto_char", "delete_char", "concat", "set_mark_command"]),
  [("each builtin checks arity and kinds first", "edlisp/builtin_*.go")], ["error and state after each call"],
  "systematic workload over functions x arities x argument kinds with a state-unchanged monitor and the documented signatures as oracle",
  "Signatures enumerated completely up to arity 5 for the first three argument kinds; states sampled. " + MODEL)

p("P11", "Any script on any input ends in a result or an error, never a crash",
  "Whatever the script (random, malformed, deeply nested, with extreme numbers or hostile patterns) and the input (any bytes), evaluation, parsing, the tools and the command line end with a result or an ordinary error; they never panic, crash, hang or exhaust memory.",
  "inputs programs", "arbitrary bytes as scripts, inputs, tool arguments and command lines",
  "Robustness is a statement about all inputs; tests only use sensible ones.",
  "edlisp/eval.go edlisp/number.go edlisp/parser/linebased.go edlisp/parser/json.go tools/texted_eval.go tools/edit_file.go commands/edit.go commands/parse.go texted.go",
  [("bounds clamped, numbers limited, parsers reject what they cannot read", "edlisp/number.go, edlisp/eval.go, edlisp/parser")],
  ["process exit, panics, processor time and memory per case, result/error pairs"],
  "fuzz workloads under crash, processor-time and memory monitors (per case, confirmed by re-running the case alone)",
  "A case uses milliseconds; the limit is 60 s of processor time. Nesting depth up to 100000 in parsing and evaluation; printing deep values is quadratic and driven to depth 3000 only.")

p("P12", "Programs run strictly in order, each call once, halting at the first error",
  "A program's instructions run in order, the arguments of a call from left to right before the call, each exactly once; evaluation stops at the first error with nothing run after it, and the result is the value of the last instruction (the empty string for an empty program). A call sees the effects of everything evaluated before it.",
  "programs histories", "every program with nested calls, over builtins and custom functions, with a failure at any call",
  "Order and halting are trace properties over programs with a failure at each possible place; tests run a few straight programs.",
  "edlisp/eval.go", [("recursive evaluation, arguments before the call", "edlisp/eval.go: EvalWithTrace, evalExpression")],
  ["every function call with arguments and buffer state, recorded by instrumented functions"],
  "offline trace checker: instrumented environment records all calls, compared with the call sequence of a model evaluator",
  "Held on the executions observed. " + MODEL)

p("P13", "Error reports carry the true state of the failure",
  "When a program fails, the error names the failing instruction and its index, the buffer contents, point, mark and last match at the moment of failure, and the message contains the underlying error, the instruction and the positions; the underlying error can be unwrapped. This holds for every program and every failing place.",
  "programs", "every failing program (search failures, bad arguments, undefined functions, malformed expressions, failing custom functions) at every instruction and nesting depth",
  "Tests check one failing search.", "edlisp/error.go edlisp/eval.go texted.go",
  [("the execution error snapshots the buffer", "edlisp/error.go: NewExecutionError")], ["fields and message of the returned error, buffer after the failure"],
  "state monitor: every field of every error report compared with the live buffer and with the model",
  "Held on the failures observed. " + MODEL)

p("P14", "Tracing reports every completed instruction truthfully and changes nothing",
  "With a trace callback, exactly one event is delivered per completed top-level instruction, in order, carrying that instruction and the buffer as it is just after it; a failing instruction delivers none. An event that is kept goes on naming its own instruction. Results, errors and buffer are the same as without tracing.",
  "programs", "every program, failing or not", "A trace is a history; tests trace one program.",
  "edlisp/eval.go", [("callback after each instruction", "edlisp/eval.go: EvalWithTrace")], ["trace events"],
  "event-log checker: recorded trace events compared with the model's state sequence, plus traced/untraced differential",
  "Held on the executions observed. " + MODEL)

p("P15", "A malformed script is rejected as a whole, a well-formed one never",
  "A script with a syntax error anywhere (unbalanced parentheses or quotes, bad escapes, stray tokens, malformed or mistyped JSON) is rejected with an error before any of it runs, so the input is left untouched. Every well-formed script is accepted, however long its lines and however it is laid out.",
  "inputs programs", "every script, in all formats, with the error anywhere, any line length and layout",
  "Tests list a dozen malformed scripts; the error can be anywhere, and the accepted language is infinite.",
  "edlisp/parser/linebased.go edlisp/parser/json.go texted.go commands/edit.go",
  [("the whole script is parsed before evaluation", "texted.go, commands/edit.go")], ["parser verdicts; text after executing the script"],
  "differential monitor against an independent parser model over generated, mutated and error-planted scripts",
  "Scripts are valid UTF-8 (invalid bytes are read as U+FFFD). " + MODEL)

p("P16", "Scripts parse to exactly the program they denote",
  "Parsing yields exactly the commands and arguments that were written, in order: string contents byte for byte after unescaping, numbers with their value, symbols, and nested lists with their structure, independent of whitespace, separators, line ends and how commands share lines. Nothing is dropped, merged or invented.",
  "inputs programs", "every program written in any layout, escaping, separator and quoting, in shell, S-expression and JSON form",
  "Infinitely many layouts and string contents (quotes, semicolons, parentheses and escapes inside strings) against a few dozen test lines.",
  "edlisp/parser/linebased.go edlisp/parser/json.go", [("tokeniser and list builder", "edlisp/parser/linebased.go"), ("JSON decoding", "edlisp/parser/json.go")],
  ["the parsed program tree"],
  "round-trip monitor: random programs rendered in random layouts must parse back to the same tree; mutated scripts are compared with an independent parser model",
  "Held on the scripts observed. " + MODEL)

p("P17", "The three script formats mean the same",
  "A program written as shell-like commands, as S-expressions or as JSON yields the same program, hence the same text, the same result and the same failure, wherever scripts are accepted. Where the format is not named, a JSON script is recognised and runs as well.",
  "programs inputs", "every program expressible in the formats, on every text", "Equivalence of formats quantifies over all programs.",
  "edlisp/parser/linebased.go edlisp/parser/json.go texted.go", [("all formats build the same values", "edlisp/parser"), ("ExecuteScript detects JSON", "texted.go, edlisp/parser/json.go: ParseScript")],
  ["parsed trees, resulting texts and errors"], "differential monitor across formats with the model as third party",
  "Symbols as arguments and lists without a symbol at their head have no JSON form. " + MODEL)

p("P18", "A script does the same however it is delivered",
  "The same script on the same text gives the same text, or fails, whether it comes from --script or --file, is run by the library, or through the MCP tools, on a file or on standard input, in place or to an output. No delivery alters the script's bytes.",
  "programs configurations", "every script (with quotes, newlines, commas, unusual characters) on every text through every entry point", "Entry points are combined with scripts nowhere in the tests.",
  "commands/edit.go texted.go tools/texted_eval.go tools/edit_file.go", [("every route ends in the same parser and evaluator", "texted.go: ExecuteScriptWithFormat")],
  ["outputs, files and exit codes of each route"], "differential monitor: up to nine deliveries of one script compared with each other and the model",
  "Process arguments cannot carry NUL bytes. " + MODEL)

p("P19", "Converting a script keeps its meaning or is refused",
  "Whatever texted parse (or a writer) prints in another format parses back to exactly the same program; a program the target format cannot express is refused with an error instead of being altered. A conversion that fails exits with a nonzero status.",
  "programs inputs", "every program, from every format to every format", "Round trips quantify over all programs and strings (control characters, invalid UTF-8, number formats, nesting).",
  "commands/parse.go edlisp/writer/json.go edlisp/writer/sexp.go edlisp/writer/shell.go", [("one writer per format", "edlisp/writer")], ["printed scripts, parsed back by the model parser"],
  "round-trip monitor with an independent parser model", "Programs the target format cannot express must be refused. " + MODEL)

p("P20", "Whole-character operations never break a character",
  "Programs made of searches for whole strings, replacements, line and word commands, line-wise moves, insertions and case functions keep valid UTF-8 text valid: every text they produce is valid UTF-8 again. No such operation splits or corrupts a multi-byte character.",
  "inputs programs", "all valid UTF-8 texts and programs of operations that are defined on whole characters, words or lines", "Tests are ASCII only.",
  f"{B}kill_line.go {B}backward_kill_word.go {B}kill_word.go {B}capitalize.go {B}replace_match.go {B}delete_line.go", [("byte offsets from searches and line or word boundaries", "edlisp/builtin_*.go")],
  ["text after every instruction"], "invariant monitor (utf8.ValidString after every instruction) over multi-byte workloads",
  "Positions are documented as byte counts: operations by character count (forward-char, delete-char, goto-char, ...) can address the middle of a character and are outside the claim.")

p("P21", "Bytes the script does not touch are preserved exactly",
  "Editing a file or a stream changes nothing but what the script's instructions change: line ends (CRLF, missing final newline), NUL bytes, byte order marks, invalid UTF-8 and file size are preserved byte for byte in every output mode. An empty or purely moving script reproduces its input exactly.",
  "inputs configurations", "every file content, through every output mode of edit and every library call", "Tests compare decoded short strings, not raw bytes of odd files.",
  "commands/edit.go texted.go edlisp/eval.go", [("files are read and written as raw bytes", "texted.go, commands/edit.go")], ["file bytes and stdout bytes"],
  "byte-exact differential monitor of outputs against the model, on generated odd files", "Held on the executions observed. " + MODEL)

p("P22", "A failed edit leaves the file's content as it was",
  "If the script fails or is malformed, or the result cannot be written (no space, file too large), the file being edited in place holds its original content afterwards and the failure is reported, on the command line and in the library. It is never left truncated or partially edited.",
  "fault_sequences inputs", "every failing program at every instruction, unreadable and unwritable files, write failures at every size", "Tests check one failing script; write faults need injection.",
  "commands/edit.go texted.go", [("the script runs in memory, the file is written only on success and restored if writing fails", "texted.go: replaceFile; commands/edit.go: processFilesInPlace")],
  ["file contents after the run, exit status, report"], "fault injection (failing programs, RLIMIT_FSIZE, permissions as an unprivileged user) with a file-content monitor",
  "A crash of the machine in the middle of a write is not covered: the program rewrites files in place.")

p("P23", "Files of one run are edited independently and reported truthfully",
  "When several files are given, each gets exactly the result of running the script on it alone, whatever happens to the others; a failure of one does not stop or affect the rest. Each file is reported as edited or failed exactly as it happened, with the cause of its failure, in the order given, and the exit status is nonzero if any failed.",
  "histories fault_sequences", "every list of files (repeated, aliased, missing, unreadable, failing) and every script", "State leaking between files and reporting need many-file runs with failures at each place.",
  "commands/edit.go texted.go", [("a fresh buffer and environment per file", "texted.go, commands/edit.go")], ["file contents, report lines, results, exit status"],
  "reference-model monitor over a simulated file system, comparing all files and the report after each run", "Held on the executions observed. " + MODEL)

p("P24", "Dry runs, previews and expressions never modify files",
  "With --dry-run, without --in-place, and with --expression, no input file, and no file nearby, is created, changed or removed; only the file named by --output may be written, and not in a dry run. This holds for every combination of options, and for failing runs too.",
  "configurations inputs", "all option combinations, programs and files", "A negative statement over the option lattice; tests do not run these modes.",
  "commands/edit.go", [("modes decided before any file is opened for writing", "commands/edit.go")], ["snapshot of the directory tree before and after"],
  "directory snapshot monitor over generated option combinations", "Held on the executions observed.")

p("P25", "A backup holds the original, and no edit happens without it",
  "With --backup, before a file is changed its exact original bytes are stored in the file of the same name with the suffix appended; if the backup cannot be made, the file is not edited and the failure is reported. The backup is made also when the edit then fails.",
  "fault_sequences configurations", "all suffixes, existing backups, repeated files, unwritable directories, full disks", "Backup faults must be injected; tests have no backup test.",
  "commands/edit.go", [("backup is written before the edit", "commands/edit.go: processFilesInPlace")], ["backup and file contents, report, exit status"],
  "fault injection with a reference-model monitor of both files", "Held on the executions observed. If the same file is given twice the second backup holds the text after the first edit.")

p("P26", "The result goes where it is asked to, unchanged, with a truthful status",
  "The edited text is the same whether it goes to standard output, to --output or in place, and nothing else is mixed into it (nothing but the text on standard output unless --verbose asks for messages). Exit status is 0 exactly if everything asked for was done; input that cannot be read and output that cannot be written are errors, and every failure is told on stderr with the file and the cause.",
  "configurations inputs fault_sequences", "all output modes, file and stdin input, verbose, quiet, failing programs and failing outputs", "Routes are never compared in tests.",
  "commands/edit.go", [("one result, three sinks", "commands/edit.go")], ["stdout bytes, output files, exit status"],
  "differential monitor across output routes against the model, with failing sinks (/dev/full, read-only)", "Writing an empty result to a full device is not judged. " + MODEL)

p("P27", "Editing in place keeps the file's identity",
  "An in-place edit keeps the file's permissions, owner, hard links and symbolic links (the link's target is edited, the link stays), and creates or removes no other file than the requested backup. A file whose edit failed keeps these, too.",
  "inputs configurations", "all file modes, hard and symbolic links (chains, to other directories), ownership, success and failure", "Metadata is not looked at by any test.",
  "commands/edit.go texted.go", [("files are rewritten through their existing inode", "texted.go: writeFile")], ["inode, mode, owner, link count, link targets, directory listing"],
  "file-system snapshot monitor", "Held on the executions observed.")

p("P28", "Expression mode prints each expression's value, in order, faithfully",
  "edit -e evaluates the expressions in the order given on one buffer per file, later expressions seeing the effects of earlier ones, and prints each one's value in the requested output format so that it reads back as that value. The first failing expression ends the run with a nonzero status and nothing after it is evaluated; with several files each file's values follow its heading.",
  "programs configurations", "all lists of expressions, files or stdin, script and output formats, quoting and special characters", "No test runs expression mode.",
  "commands/edit.go edlisp/writer/shell.go edlisp/writer/sexp.go edlisp/writer/json.go", [("expressions evaluated on a shared buffer and written by the format's writer", "commands/edit.go: evaluateExpressionsOnContent")], ["stdout lines parsed back, exit status"],
  "differential monitor: printed values are parsed back by the model parser and compared with the model's values", "With --quiet nothing is printed and conversion is not attempted. " + MODEL)

p("P29", "Contradictory or unknown options are refused before anything is touched",
  "Contradictory options (--output with several files or with --in-place, --backup without --in-place, several files without --in-place), unknown formats, unknown flags and a missing script are rejected with a message and a nonzero status, and no file is read, created, changed or backed up. Valid combinations are not rejected.",
  "configurations", "all option combinations in random company", "The option lattice is large and untested.",
  "commands/edit.go commands/parse.go texted.go", [("validation before processing", "commands/edit.go: runEdit")], ["exit status, messages, directory snapshot"],
  "systematic option workload with directory snapshot monitor", "Held on the executions observed.")

p("P30", "texted_eval returns exactly what the library computes",
  "The texted_eval tool returns, in buffer mode, exactly the text the script produces and, in expression mode, the last value as an S-expression that reads back as that value; scripts that fail or are malformed, and missing or mistyped arguments, are reported as tool errors. It touches no files and remembers nothing between calls.",
  "programs inputs", "all scripts, formats, inputs and argument shapes", "Tests of the tools cover edit_file only.",
  "tools/texted_eval.go texted.go", [("delegates to the library", "tools/texted_eval.go")], ["tool results"],
  "differential monitor of tool results against the library and the model", "Held on the executions observed. " + MODEL)

p("P31", "edit_file edits as the script says and reports it truthfully",
  "The edit_file tool runs the script once on every file, or with loopUntilError again and again until some file fails, each time on the current contents; a file whose run fails keeps the contents of its last success. The report names each file as edited or failed as it happened in the last round and the true number of rounds; wrong arguments touch nothing.",
  "histories programs", "all scripts, file lists (missing, repeated, unreadable) and loop lengths", "Loop lengths, partial failures and reporting are histories; tests run two or three.",
  "tools/edit_file.go texted.go", [("loop over EditFiles until a failure", "tools/edit_file.go: editFilesWithLoop")], ["file contents, tool report"],
  "reference-model monitor over a simulated file system, judging contents, report and iteration count", "A script that never fails loops for ever by design and is not driven. " + MODEL)

p("P32", "The MCP server answers every request once and survives everything",
  "texted mcp answers every request on standard input exactly once, with its id, in the form the protocol asks for, whatever came before it (junk lines, unknown methods, malformed or mistyped messages, failing tool calls), and never answers notifications. Its tools do what they do in the library, under their prefixed names, and standard output carries nothing but protocol messages.",
  "histories inputs", "all conversations", "A server is judged over conversations; there is no test of it.",
  "commands/mcp.go tools/tools.go tools/edit_file.go tools/texted_eval.go tools/texted_doc.go", [("stdio JSON-RPC server with three tools", "commands/mcp.go")], ["the byte streams of the server process"],
  "protocol monitor (session checker) over generated conversations with the real server process", "The JSON-RPC layer is the mcp-go library; answers withheld for 40 s count as missing in the dialogue phase. " + MODEL)

p("P33", "The documentation matches the program",
  "Every function the evaluator knows is documented and every documented function exists, with the documented parameters and the documented outcome of every example; the doc command and the texted_doc tool show exactly what is registered, in a stable order, and report unknown names and categories as errors. Cross references lead to existing functions.",
  "inputs histories", "all functions, examples, categories, queries and later registrations", "The tests do not read the documentation or run its examples.",
  "edlisp/documentation.go edlisp/documentation_registry.go commands/doc.go tools/texted_doc.go edlisp/eval.go", [("each builtin registers its documentation; a registry answers queries", "edlisp/documentation_registry.go")], ["registry answers, printed pages, outcome of every example"],
  "documentation monitor: registry model, page reader, and execution of all documented signatures and examples", "Two examples of current-column are wrong by one (known finding). Examples whose outcome is described in free prose are only executed.")

p("P34", "Independent evaluations and queries may run concurrently",
  "Evaluations of programs on separate buffers, library edits of different files, tool calls, parsing, writing and documentation queries give the same results when run at the same time from many goroutines, even with a shared environment or program, as when run alone, and without data races. Registering documentation concurrently with queries is safe.",
  "schedules", "all interleavings of up to 16 tasks", "Races show only under concurrent schedules; the tests are sequential.",
  "edlisp/eval.go edlisp/documentation_registry.go texted.go tools/texted_eval.go edlisp/parser/linebased.go", [("no shared mutable state outside the registry, which has a lock", "edlisp/documentation_registry.go")], ["race detector reports, results of every task"],
  "Go race detector plus result comparison with sequential model results, over yielding concurrent workloads", "Held on the interleavings observed (counted in the evidence).")

p("P35", "The test runner passes a test exactly when its expectations are met",
  "A test passes exactly if its script parses and runs and the final text equals the expected output and the final value equals the expected result, whichever are given, or, if an error is expected, if the run fails with a message containing it; a test that expects nothing, or whose file cannot be read, fails. A failing test says why, and tests do not influence each other or change their files.",
  "inputs programs", "all test cases: texts, scripts, exact and nearly right expectations, XML layouts", "The verdict is a function of infinitely many cases; a runner that passes wrongly goes unnoticed by passing tests.",
  "edlisp/testing/testing.go edlisp/equal.go", [("RunTest compares output, result and error", "edlisp/testing/testing.go")], ["test results"],
  "differential monitor of verdicts against the model on generated test cases (exact, near-miss, failing, malformed)", "Parentheses around an expected error are ignored, as tests pin; whether the text is also compared when an error is expected is not judged. " + MODEL)

p("P36", "texted test runs the chosen tests and reports the truth",
  "texted test runs exactly the named files, or those in tests/, that match the include patterns, lists each as passed or failed in order as the options ask, and prints the true counts. Its exit status is nonzero exactly if some test failed or an option was invalid, and it changes no file.",
  "configurations inputs", "all sets of test files, patterns and output options", "The command has no tests.",
  "commands/test.go edlisp/testing/testing.go", [("runTests filters, runs and counts", "commands/test.go")], ["stdout, exit status, directory snapshot"],
  "process-level monitor comparing listing, counts, trace and status with model verdicts", "Include patterns with commas are split by the flag library and not used. " + MODEL)

p("P37", "Evaluation is deterministic and executions do not leak into each other",
  "Running the same program on the same text gives the same text, value and error every time, whatever ran before, in the same or a fresh environment. Programs and their values are not modified by running, and changing one environment's functions does not affect another.",
  "histories programs", "all programs, repeated in any history", "Leaks need histories of executions; tests run each program once.",
  "edlisp/eval.go texted.go", [("buffers and environments carry all state", "edlisp/eval.go")], ["results of repeated executions, program trees before and after"],
  "repetition monitor: executions repeated within histories of others, compared with the first and with the model", "Held on the histories observed.")

p("P38", "Values behave as values",
  "Equality of values is structural: equal exactly if of the same kind and, recursively, of the same content, and symmetric and reflexive (but for NaN). Taking the rest of a list, appending to it or printing it never changes that list or any list derived from it, and what is printed for a value is determined by it alone.",
  "inputs histories", "all values and all histories of list operations on shared lists", "Aliasing shows only in histories of operations on lists derived from each other.",
  "edlisp/equal.go edlisp/list.go edlisp/types.go edlisp/writer/sexp.go", [("recursive comparison; copying append", "edlisp/equal.go, edlisp/list.go")], ["all live lists after each operation"],
  "model-based history monitor: after every operation all live values are compared with shadow copies", "Held on the histories observed.")

p("P39", "Quiet and verbose change what edit says, not what it does",
  "For every run of texted edit (files, stdin, output file, in place, backups, dry run, expressions; succeeding or failing), --quiet and --verbose lead to the same files and, --quiet with expressions apart, the same exit status as neither. With --quiet stdout is empty but for edited text that goes to stdout, byte for byte, and failures are still told on stderr; --verbose only adds lines; --quiet wins over --verbose.",
  "configurations inputs", "all runs of edit, with each combination of the two flags", "A relation between runs; each mode prints through its own branches, and tests run one mode.",
  "commands/edit.go", [("every message is guarded by quiet and verbose, the work is not", "commands/edit.go")], ["files, stdout, stderr and exit status of equal runs in four modes"],
  "metamorphic monitor: the same run in equal directories plain, quiet, verbose and both", "Held on the executions observed.")

with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps({
            "id": x["id"], "title": x["title"], "statement": x["statement"],
            "quantifier": {"over": x["over"], "text": x["text"]}, "why_tests_cant": x["why"],
            "anchors": {"files": x["files"], "mechanism": [{"name": n, "where": w} for n, w in x["mech"]],
                        "observe_at": x["observe"], "hook_needed": None}}, ensure_ascii=False) + "\n")
for x in P:
    for fn in x["files"]:
        assert os.path.exists("/repo/" + fn), fn
m = {"version": 1, "setup_cmd": "./setup.sh",
     "hooks": {"guard": "verif", "enable": "no hooks are needed: the harness is compiled into the module through go build -overlay (see check.sh) and observes calls through the public API", "source_commits": []},
     "checks": [{"property": x["id"], "quick_cmd": "./check.sh " + x["id"], "thorough_cmd": "VERIF_TIER=thorough ./check.sh " + x["id"],
                 "technique": "runtime monitoring: " + x["tech"], "level": "exploration", "level_note": x["note"]} for x in P],
     "not_applicable": [], "notes": "See DESIGN.md. ./check.sh ID v=1 prints what the monitors observed; ./check.sh ID only=phase:index replays a case."}
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1, ensure_ascii=False)
    f.write("\n")
