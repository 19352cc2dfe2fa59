import json,os
out=[]
w=out.append
w('''# Deciding the properties of qiniu/text by runtime monitoring

All checks run the real packages (`/verif/harness`, a Go module that replaces `github.com/qiniu/text`
by `/repo`) on generated workloads, while monitors written here watch what can be observed at the
public API: tokens, errors, actions, stacks, host calls, documents, files, exit codes. There are no
hooks in /repo. The deciding step is always an oracle that observes an execution of the real code; none
of the checks looks at how the code is written.

## Machinery

* `check.sh ID` builds the harness from /repo's working tree and runs property ID. `fw.go` makes the
  cases: case i of a part depends on (VERIF_SEED, property, part, i) only, the number of cases is fixed
  per tier, so a run can be repeated exactly (`./check.sh replay FILE`). 8 worker processes (4 for C16); a
  case that crashes its process (fatal Go errors, stack overflow, data race), or uses 40 s of CPU time or
  1.5 GB, is a violation (cases take milliseconds); a case that makes no progress for 8 minutes of wall
  time is inconclusive (exit 2). An unexpected panic is a violation.
* A run fails (exit 2) when it observed no event of a kind the property is about (`MustSee`).
* Evidence: numbers of cases, distinct non-trivial cases, and counts of the events the monitors saw.
* Known findings (`known_findings.jsonl`) are matched by property, part and the exact input.
* Containment: the only programs that write files are tplconv and tplgen; they run in scratch
  directories made and removed by the check. qlang programs get no host functions that touch anything.
  Generated texts that would end the process (top level `return`, `main`) are run in child processes.
* Sanitizers: the code is pure Go without `unsafe`, cgo or assembly, so the address, undefined behaviour
  and memory sanitizers have nothing to watch; the Go runtime's own checks (bounds, nil, map writes,
  stack growth) are always on and end a case as a violation. The race detector decides C16; read-only
  memory (mprotect) decides C45, the heap after garbage collection C46.

### Reference models (the oracles)

| model | file | used by |
|---|---|---|
| lexer of the documented lexical grammar, with its errors and positions | `lexref.go` | C01, C04, C05, C12, C20-C24 |
| matcher (ordered choice, longest repetition, actions, transactions, errors) over a grammar tree | `gram.go` | C08-C11, C13-C15, C17, C18, C25, C26, C28, C39 |
| recognizer of the grammar notation | `c11_compile.go` | C12, C28 |
| calls of marks (arguments, mute depth, saved code, failures) | `c17_interp.go` | C17, C18, C39 |
| conversions of call arguments | `c19_call.go`, `c41_host.go` | C19, C41 |
| exact values of literals; float64, complex128 and rational evaluation of expression trees | `c20_calc.go` | C20-C24, C39, C42, C43 |
| documents from match events | `c25_extract.go` | C25-C27 |
| tree-walking qlang interpreter with Go's slice sharing | `qref.go` (programs: `qast.go`, `qgen.go`, `qrun.go`) | C29-C38, C41 |
| symbol table of imports | `c40_import.go` | C40 |

The generators make well-formed cases first (from the model, with random layout) and damage a share of
them, so that accepted, rejected and aborted executions are all seen; the evidence counts each kind.

### Sizes

What holds for small inputs has to hold for big ones, and random cases are small. So every property (but
C16 and C45 to C50, which are about schedules, memory and histories) has parts named `big...` (`big.go`, `big17.go`, `big25.go`, `big27.go`, `bigq.go`,
`big41.go`, `imports40/big.go`). A dimension is one thing that can grow (the length of a token, the number of
alternatives, of marks, of fields, of arguments, of evaluations, of recovered panics, the depth of nesting,
...), with the biggest size that takes a few seconds; each is tried at the sizes of the ladder: around the
powers of two and of ten up to 131073. The answer follows from the construction (for qlang: value, trace and
error line of a program that is written with its answer). 1000 is the usual bound of nesting, since
recursive descent is exponential or quadratic in places; numbers of calls and lengths go to 5001, 20001 or
131073. These parts say nothing about sizes between and beyond.

## The properties

Each entry: what is watched, the oracle, the workload and its bounds, why this goes beyond tests.
Quick runs take between 1 s and 2 min each, thorough ones 10 to 60 min (C16, C28: longer).
''')
P={
'C01':'tokens (kind, literal, position) of all four scan modes against the reference lexer. All texts up to a length over five alphabets chosen for the operators, numbers, quotes, comments and Unicode; all code points; random texts of well-formed, ill-formed and noise fragments; long texts and tokens. Tests scan one text.',
'C02':'a monitor without a reference: EOF after at most 2n+16 tokens and forever after, positions ascend, each literal is found at its position, only blanks and comments lie between tokens, End is behind the text. Workload of C01.',
'C03':'the tokens with InsertSemis against the scanner\'s own tokens without it plus the documented rule (a second oracle, independent of the lexer model); line ends of every kind behind every kind of token and through comments.',
'C04':'the set of reports (line, column, offset) against the ill-formed places found by the reference lexer, ErrorCount against the number of reports; Tokenize and Match must fail iff the text is ill-formed.',
'C05':'lines of all tokens and Source of random runs of tokens against an independent line model that knows `//line` directives, rescanning with the same File.',
'C06':'all kinds 0..4095, some huge ones, all spellings and mutations; random histories of keyword registrations against a model map.',
'C07':'which alternative (observed by actions) each word matches, in histories with several compilers.',
'C08':'outcome and number of consumed tokens against the reference matcher, for all grammars up to a size over two tokens with all short texts, and random grammars (recursion, forward rules, lists, lookaheads) with sentences derived from them and damaged. Grammars that repeat something empty (`*G` with G nullable) are outside of the statement: the code loops forever.',
'C09':'the sequence of action calls with tokens and Len against the reference\'s.',
'C10':'the sequence of begin, end, action calls; the same grammar without transactions must match alike.',
'C11':'grammars are printed as text in random layout, order, parentheses and comments, compiled and compared with the reference on the tree they were printed from; marks are counted.',
'C12':'verdict of the compiler (error, or panic with an error or a string) against a recognizer written from the notation; texts that the notation doesn\'t decide are skipped (counted).',
'C13':'print - compile - match against the reference on the original tree; print again and compare. Or with a single alternative is excluded (no notation).',
'C14':'the rendered error\'s line and quotation against a reference error model (furthest failing alternative, ties and lookaheads at their start, `!`).',
'C15':'histories of evaluations on one matcher against a fresh one and the reference: outcome, trace, Init calls, error texts, EvalSub in all forms, panicking actions.',
'C16':'the harness is built with `-race`. Goroutines (2-8, on 1-8 processors, with yields inside host callbacks) run the self-checking cases of the other properties on instances of their own, or the same case, or work on the same bytes; a race report, a failing oracle or an outcome different from the same case alone is a violation. Part cold does it as the first thing of a fresh process, so that lazy initialisation is seen. A failure that also happens alone in a fresh process is left to the other properties. C42, C43 (their setup, or tables shared on purpose) and the parts that redirect standard output or error or edit global tables are left out. The harness keeps state per goroutine and looks it up without synchronisation, so that it doesn\'t hide races; fmt\'s and reflect\'s caches do order some accesses, hence the many rounds. Limit: races are seen only between accesses that were executed.',
'C17':'functions made by reflection (random signatures) record every argument, the live stack and interpreter; the model says what each call must get. `_tr` is observed with standard error redirected to a file.',
'C18':'as C17 with `_mute`, `_unmute` and nested evaluation of saved code that fails, panics or is swallowed; texts that would make the depth negative are left out (unspecified).',
'C19':'histories of Call, DoCall, VCall on one stack with recording functions.',
'C20':'exact value in big arithmetic, rounded by an independent routine, against ParseInt, ParseFloat, GetValue, the calculators and qlang. ParseFloat may refuse octal and hexadecimal literals beyond int64.',
'C21':'value bit by bit against an evaluation of the tree; every function with every pair of special arguments. jn and yn with an order of 2000 or more are skipped (their cost is that of the math library).',
'C22':'as C21 over complex128.','C23':'as C21 over pairs of big integers; earlier results are looked at again.',
'C24':'each line of a session against the value of that line alone; the three example programs are run as processes with sentinel lines. Known finding: they end silently at a line of 64 KB.',
'C25':'the document against the one made from the reference\'s match events; documents by construction; all mark types, custom GetValue, refused marks. Clarified: an item of an alternative that fails later stays unless a node around it fails; of two scalars under one tag the first counts.',
'C26':'as C25 with deeply nested failing nodes and histories of parses, aborted ones included.',
'C27':'tplconv as a process: standard output, files, messages, exit status, with formats, grammars and outputs that fail (full device, missing directories), and -o NAME.html with random templates against html/template run on the reference document.',
'C28':'tplgen as a process over packages of random grammars in many Go declarations; the output is built and the generated matchers answer over a pipe; they and the run-time compiler are compared with the reference. Rule names that collide with names in the generated code (tpl, cmplr, ret, new, nil, true) are excluded. For the static interpreters (`tplgen -i`) see C42.',
'C29':'every operator and conversion on every pair of some 50 values, and random expressions, against the reference interpreter (types included).',
'C30':'the sequence of calls of a traced host function in programs where half of the operands are such calls.',
'C31':'programs with weight on if, switch, for.','C32':'programs with weight on functions, closures, variadics, spreads, scopes. Part kept: functions that keep or return their arguments, and functions that make functions, called again and again; all results looked at at the end.',
'C33':'programs with weight on return, defer, panic, recover.','C34':'programs with weight on classes. Part kept: as in C32 with methods, stored method values and functions that make classes.',
'C35':'programs with weight on lists, maps, slices; three growth policies of append are tried and programs that depend on them discarded. Part grid: every collection builtin with every combination from some 60 values, judged by the reference (result, or that it fails).',
'C36':'sessions of many texts on one engine, failing at any depth; stack height, variables and results after each.',
'C37':'errors of sessions: cause, file and line range; hostile texts (noise, damaged programs) must come back as errors. Known finding: an error of a function of an earlier text, or rendered after a later text, names a line of the later text.',
'C38':'programs that end the process, in child processes: trace and status.',
'C39':'interpreters generated as qlang classes, with the model of C17/C18; a calculator in qlang against the reference of the native one; useless interpreters; stacks and arities the built-in functions don\'t expect (odd stacks); the functions a hosting script gets (exports).',
'C40':'histories of imports in a program without the builtin library; every symbol, member and operator is looked at after each step by an old and a new engine.',
'C41':'functions with random signatures, a zoo of host types, and script functions called by the host; values recorded on both sides; what print, println and printf write (file descriptor 1 redirected to a file); channels.',
'C42':'tplgen -i as a process over packages of random grammars; the output and one more package, made by the go:generate directive of package number, are built into one program with the run-time interpreter. Both engines evaluate the same texts over function tables of random signatures that record their arguments, fail at planned calls and evaluate saved code; the logs, stacks and errors have to be the same. The rebuilt calculator is judged by the model of C20/C21.',
'C43':'random functions (parameter and result types, variadic, failing, no functions at all) in the exported tables of the three calculators record their arguments; random lines are evaluated by the calculator and by the models of C20-C24, which know the same functions. Arguments kept by a function have to keep their values.',
'C44':'one to three engines and a table of names per engine; random edits through the API and random scripts, whose host functions edit the variables while they run; everything probed and all variables are compared after each step.',
'C45':'texts, grammars, token runs, argument lists and host lists lie in read-only mappings whose end is the end of the data plus a random room (filled with hostile bytes): any write by the code under test faults and stops the process; outcomes are compared with those of ordinary copies or of the reference models; then the memory is overwritten and compiled grammars, functions, tokens and documents are used and compared again. Deciding step: the memory fault, and the comparison.',
'C46':'one instance scans, matches, compiles, extracts, calculates or executes hundreds to thousands of texts that all differ (well-formed, ill-formed, failing and panicking), or instances are made, used and dropped; after the garbage collection of n, 4n, 10n and 24n evaluations (the later ones only as long as there was growth) the heap is measured, and growth by more than 8 bytes an evaluation of the first step (10 kB at least) in each of three steps is a violation: slices and maps that double grow in each step, noise (measured: below 7 kB in 480 cases) does not; goroutines, open files and the values on the stack are counted. Deciding step: the measured growth.',
'C47':'histories of one Scanner or AutoKwScanner over texts of C01 and C05 (four modes, with and without handler, scanned to the end, beyond, or abandoned; new files and files scanned before, in one file set); after each scan tokens, positions, errors and ErrorCount are compared with those of a new scanner on a file of its own; without a handler also with those of a scan with one; handlers of earlier scans fail the case when called. Deciding step: the comparison.',
'C48':'histories of operations (pushes of every kind, Pop, PopArgs, PushRet, Call and DoCall of recording functions, Clear, Ret) on the four stacks next to a list; every value that comes out is compared with the list, at the end the stack is emptied and compared, and all arguments taken earlier are read once more. Deciding step: the comparison.',
'C49':'two to five random grammars in sequence on one Compiler, or on several that share an AutoKwScanner, a third of them damaged (unterminated string, dangling rule, undefined names, duplicates); fields of the compiler are overwritten with hostile values after each compilation; after each grammar, texts are matched with it and with earlier ones and judged by the reference matcher, where the keywords are those of all grammars that reached the compiler. Deciding step: the comparison of outcome, consumed tokens, Init calls and actions.',
'C50':'engines with options, grammars and tables that are changed after New (replaced, deleted and added functions that fail the case when called, other modes, scanners and conversions), next to a twin whose options nobody touches; extracted documents are overwritten in every part (maps, arrays, room behind arrays), then Result(), later and earlier documents are compared with those of the twin. Deciding step: the comparison.',
}
ps=[json.loads(l) for l in open('/verif/properties.jsonl')]
for p in ps:
    w('* **%s %s.** %s'%(p['id'],p['title'],P[p['id']]))
w('''
No property is under not_applicable: all of them can be decided by observing executions.

## What is left unspecified (and therefore not generated or not judged)

* qlang: cap-dependent programs; `recover` of syntax errors at top level; `defer` with `return` inside its
  expression; recover through functions defined elsewhere; `new` with arguments and no `_init`; unset of
  captured variables; int() and byte() of floats out of range; type() of objects; `0...` (lexes as `0.`
  `..`); panics with values other than strings and errors (they escape SafeEval by design); Exec (which
  doesn't run deferred expressions; SafeExec does); castVal may turn byte results into int.
* `true && 5` yields 5: the right operand is handed on as it is.
* Hosted interpreters: host functions with no or several results (nil, or only the first one, is pushed);
  their errors name no line.
* Imports: which other symbols of a refused global table got imported, and whether its hook ran.
* Host values: named types over int and float64 may keep their type; unsigned values beyond int; maps with
  named string types as keys; members of maps are their entries only.
* The interpreter: saved code given as text replaces the scanner's source, so lines of the outer text can't
  be told any more; an error of an empty match names no line.

## False alarms met while building, and what was done

* C16: the key of an observation of C41 holds addresses: numbers of observations are compared, not keys.
  Matching time of random grammars may be exponential: shared texts are measured with the reference first.
* C37: hostile texts may redefine the traced function; runaway traces are ended by the harness.
* C29: &&, || and == were stated too strongly; the statement was made precise.

## Genuine defects

{N} defects were repaired by "fix:" commits and two kinds are recorded as known; see `known_findings.jsonl`.

## Planted bugs

Kept in `seeded/`; `tools/seedlib.py ID...` applies each and runs the check of its property. All of them
are caught by the check of their property. These were missed at first and led to the strengthening named:
err-multi (line ranges exclude inner blocks), for-leak (blocks inside expressions), map-float-late (longer
map literals), private-conflict (`_` names in the pool), set-second (set with several members), switch-nil
(nil scrutinees), hosted-typed-args (typed lists as stacks), host-variadic-one (host calls with lists).
The size-... bugs were planted against the checks without their big parts: none of them was seen then.
Of the ones planted after that, size-str-prefix (C29: strings that differ in one place), size-call-depth (C33:
a function that failed often), size-stk-shrink (C36: values below a big call), size-switch-bin (C31: cases of
the same text), size-hosted-len (C39: more than 65535 matches), size-vcall-check (C41: one argument of another
type) were missed once more and led to the dimensions named.

| id | property | needs |
|---|---|---|
SEEDS''')
s='\n'.join(out)
rows=[]
for d in sorted(os.listdir('/verif/seeded')):
    m=json.load(open(f'/verif/seeded/{d}/meta.json'))
    rows.append('| %s | %s | %s |'%(d,m['property'],m['needs'].replace('|','\\|')))
n=sum('"status":"fixed"' in l for l in open('/verif/known_findings.jsonl'))
s=s.replace('{N}',str(n))
open('/verif/DESIGN.md','w').write(s.replace('SEEDS','\n'.join(rows))+'\n')
