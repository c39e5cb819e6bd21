"""Writes known_findings.json: no open findings; one line per repaired defect."""
import json, os, subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = {
 "read from a port up to the end": ("P03", "read from a port took comments and character literals inside a datum for data, and consumed the delimiter after an atom: (read p) of `abc(def)` lost the parenthesis"),
 "give every iteration of a do": ("C02", "all iterations of a do loop shared one set of variables, so a continuation re-entered into an earlier iteration saw the values of the last one"),
 "report a write to a closed port": ("P01", "a write to a closed file or soft port was dropped silently"),
 "pscm_eval_file returns null": ("A01", "pscm_eval_file went on with the next expression after one failed, returned its value and left the message of an older failure"),
 "importers see what a module exports": ("M01", "a name exported before its definition, or by #:export with a list, was not exported, and importers kept the value a binding had when it was exported"),
 "set! in a module's procedure": ("M01", "called from another module, a procedure's set! of its module's own variable was lost or changed the caller's variable of the same name"),
 "look again for a module": ("M01", "a module whose file was missing or failed to open was registered empty and never looked for again"),
 "hash tables find keys by": ("H01", "a number, character, boolean or vector key was found again only through the same object, and (1 . 2) and (1 2) were one key"),
 "a hash table value set through": ("H01", "after set-cdr! of a list on a handle, hash-ref returned only the list's first element and hash-set! wrote into the list"),
 "hash-create-handle! leaves": ("H01", "hash-create-handle! on a present key overwrote its value and returned a copy of the handle"),
 "make-hash-table reports": ("H01", "a negative or huge table size crashed the process"),
 "never read a block header outside": ("G03", "a program whose heap had two segments with a gap between them crashed in the collector's stack scan"),
 "trace the captured registers": ("G01", "a value reachable only from a captured continuation's stack was reclaimed and the resumed continuation read freed memory"),
 "leave a reclaimed vector or hash": ("G01", "a reclaimed vector or hash table was traced again through a stale word and its freed elements were read"),
 "report heap exhaustion": ("G03", "when the heap could not grow the program wrote through a null block and died with SIGSEGV"),
 "do not let a re-entered continuation change an already": ("C02", "re-entering a continuation captured in an argument list changed the list an earlier return had delivered, or freed it twice"),
 "give every re-entry into an argument": ("C02", "a re-entered let or call shared its bindings with the earlier entry"),
 "pass already evaluated arguments": ("C03", "throw arguments and port callbacks' values that were symbols or lists were evaluated again"),
 "keep pending do step values": ("G01", "a do loop's step values were reclaimed before being bound"),
 "run dynamic-wind guards": ("C01", "leaving two nested extents ran the exit guards outermost first"),
 "record the size a large block": ("G01", "after a block larger than a page was allocated the sweep misread the next block"),
 "leave dynamic-winds, inner catches": ("C03", "a throw out of a dynamic-wind ran no exit guards, and a catch left by a continuation still received later throws"),
 "report write, flush and close failures": ("P01", "a write to a full disk was reported as done"),
 "do not send display and write": ("P01", "with no temporary file, output for a file port went to standard output"),
 "deliver display, write and newline to soft": ("P06", "display to a callback port was lost"),
 "report a failed read": ("P03", "a failed read was reported as end of file"),
 "read expressions longer than": ("P03", "an expression longer than 4095 characters was cut"),
 "peek-char and read on a soft": ("P06", "read on a callback input port always returned end of file"),
 "report a file that cannot be read instead": ("P04", "a source file whose read failed half way was evaluated up to that point as if complete"),
 "forget a module whose file fails": ("M01", "a module whose file failed stayed registered, half loaded, and was never tried again"),
 "try an autoload again": ("M01", "an autoload whose module failed once never loaded it again"),
 "keep consulting a module binder": ("M01", "after a binder callback threw, binders were never consulted again"),
 "read files to load in growing pieces": ("P04", "loading a directory ended the process with an uncaught exception instead of a catchable error"),
 "return NULL from pscm_parse_file": ("A01", "a syntax error in a parsed file ended the host process"),
 "drop the parse context when": ("A01", "after a parse error the parser kept a pointer into a dead stack frame"),
 "raise a type error for a non-number": ("A01", "a non-number operand aborted the host process"),
 "pass no arguments to a catch handler": ("C03", "a throw without arguments called its handler with a spurious argument"),
    "report malformed special forms": ("A01", "a malformed special form evaluated through the API (and elsewhere) hit an assertion and ended the application"),
    "take the base of continuations": ("A01", "a continuation taken during an API call copied only part of the stack, measured from the first call ever made"),
    "scan the whole stack": ("A01", "values held on the stack of an embedding application above its first API call were collected"),
    "keep the interactive session": ("R01", "the prompt lost or misread input (several expressions on a line, long lines, expressions over several lines, interrupted reads) and did not report errors"),
    "leave an error behind": ("A01", "an unreadable or empty file made the file entry points return null with no retrievable error"),
    "drop the parse contexts of an input when": ("A01", "the report of a syntax error read text of an earlier input, through contexts left on the parse stack"),
    "refuse to call a symbol": ("A01", "calling a variable whose value is its own name never returned"),
    "keep what an interrupted read": ("R01", "the part of a line read before an interrupted read was lost"),
    "let the input of the prompt": ("R01", "a quote at the end of a line was reported as an error instead of waiting for what it quotes"),
    "do not end a displayed string": ("P01", "display of a string or character to a file port stopped at a null character"),
    "do not let a re-entered continuation change a list module-map": ("C02", "re-entering a continuation captured in a module-map callback changed the list module-map had returned"),
    "do not let a re-entered continuation change the values apply": ("C02", "re-entering a continuation captured in an argument of (apply k ...) changed the values delivered before"),
    "let importers see the current value of a re-exported": ("M01", "importers of a re-exported variable saw the value it had when it was re-exported, and assigned to a copy"),
    "collect before giving up": ("G03", "a program ended for lack of memory while most of the heap was garbage"),
    "let memory outside the heap": ("G02", "a loop that dropped large vectors, strings, hash tables or captured stacks grew by gigabytes before a collection"),
    "close the files of abandoned ports": ("G02", "a loop that dropped its ports ran out of file descriptors before a collection"),
    "do not let stale stack slots": ("G02", "continuations made in a loop kept each other alive through stale slots of the captured stacks"),
    "do not evaluate the first half of a line": ("R01", "an atom cut in two by a read that failed was evaluated as two expressions"),
}


def main():
    log = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines()
    fixed = []
    for l in reversed(log):
        h, t = l.split(" ", 1)
        if t.startswith("fix: "):
            m = [v for k, v in MAP.items() if t[5:].startswith(k)]
            assert len(m) == 1, t
            fixed.append("fixed: property=%s %s %s" % (m[0][0], h, m[0][1]))
    with open(os.path.join(HERE, "known_findings.json"), "w") as f:
        json.dump({"findings": [], "fixed": fixed}, f, indent=1)
        f.write("\n")
    print(len(fixed))


main()
