"""Single source of properties.jsonl and MANIFEST.json: `python3 tools/catalog.py` rewrites both.

A property with a module in sim/props/ is claimed; one with `na` is listed as not applicable.
"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "deterministic simulation with fault injection: seeded search over histories and fault sequences"
X = "pandalone/xleash/"

P = []


def p(id, title, statement, over, quant, why, files, mech, observe, state=(), note="", na=None, tech=TECH):
    P.append(dict(
        id=id, title=title, statement=statement, quantifier={"over": over, "text": quant},
        why_tests_cant=why,
        anchors={
            "files": files,
            "mechanism": [{"name": n, "where": w} for n, w in mech],
            "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
            "observe_at": observe, "hook_needed": None,
        }, note=note, na=na, tech=tech))


p("C01", "A lasso returns exactly what the xl-ref language documents",
  "For every workbook content and every well-formed spreadsheet reference (edges in A1 or row/column notation with absolute, "
  "negative, boundary and relative coordinates, moves and modifiers, expansions, and dimension-changing filters), lassoing "
  "returns exactly the rectangle and the values the documented targeting, capturing and filtering rules denote for the sheet "
  "the reference names, or fails (or yields empty values) exactly when they say so. This holds whatever was lassoed before "
  "through the same factory or ranger, whether the sheet is freshly opened or cached, whether reading earlier failed, and "
  "whatever callers did to previously returned values.",
  ["inputs", "histories", "fault_sequences"],
  "all sheet contents x references x prior operations and faults on the same factory/ranger",
  "Tests check some dozens of hand-picked references on one fixed sheet, each on a fresh factory; nothing samples the product of "
  "edge forms, moves and contents, nor results after caching and failures.",
  [X + "_parse.py", X + "_capture.py", X + "_lasso.py", X + "_filter.py", X + "io/backend.py"],
  [("xl-ref parsing", X + "_parse.py:parse_xlref"), ("target/expand resolution", X + "_capture.py:resolve_capture_rect"),
   ("staged lassoing", X + "_lasso.py:Ranger.do_lasso"), ("cached states-matrix", X + "io/backend.py:ABCSheet.get_states_matrix")],
  ["return value/exception of Ranger.do_lasso() and lasso()"],
  [("_states_matrix, _margin_coords", "per-sheet caches of non-empty cells and bounds", X + "io/backend.py:ABCSheet")],
  "Seeded exploration against an independent executable model of the documented language; sheets up to 6x6 mostly (some wider "
  "than 26 columns), 2-12 operations per run. Trusts the model's reading of the docs; negative coordinates beyond the sheet start are not judged.")

p("C02", "The sheets-factory serves each workbook-sheet once and coherently",
  "A caching sheets-factory serves the very same sheet object for every way of naming it that was registered (as-given workbook id, "
  "its URL, the sheet's name, its index, the id asked, extra ids added by the caller) without opening the workbook again, until it is closed. "
  "Asking for an unregistered sheet opens exactly that sheet of exactly that workbook once, a failed opening leaves nothing registered, "
  "and replacing a registration closes the replaced sheet and forgets all its names. A sheet served from the workbook given or from the base "
  "sheet's workbook is never one that the factory already closed.",
  ["histories", "fault_sequences"],
  "all sequences of fetching, adding, sibling-fetching, closing, and failing openings over several workbooks",
  "Unit tests do a handful of fetches of one or two ids; the identity of what is served depends on the whole history of aliases, replacements and failures.",
  [X + "io/backend.py"],
  [("key derivation & cache", X + "io/backend.py:SheetsFactory.add_sheet/_derive_sheet_keys"), ("fetch", X + "io/backend.py:SheetsFactory.fetch_sheet")],
  ["identity of sheets returned by fetch_sheet(), backend open calls, sheet close calls"],
  [("_cached_sheets", "(workbook, sheet-id) -> sheet", X + "io/backend.py:SheetsFactory")],
  "Refinement of an executable cache model over 4-25 operations per run; the backend and its workbooks are simulated.")

p("C03", "Whoever opened workbook resources closes them, on every outcome",
  "When a sheets-factory is closed, its with-block is left, or a one-shot lasso owning its factory ends - normally, by any error, by an interrupt, "
  "or while other sheets refuse to close - every sheet opened through it has been asked to close and it holds none of them any more. "
  "Sheets evicted from the cache are closed too, an error while closing is reported and not hidden, and a lasso given the caller's factory never closes it.",
  ["fault_sequences", "histories"],
  "all interleavings of client episodes with I/O errors, interrupts, client exceptions and failing closes at any backend call",
  "No test makes a backend fail, or counts handles; leaks surface only as exhausted descriptors or locked workbooks in deployments.",
  [X + "io/backend.py", X + "_lasso.py"],
  [("close all despite errors", X + "io/backend.py:SheetsFactory.close"), ("ownership", X + "_lasso.py:lasso")],
  ["ledger of every sheet/workbook handle opened by the backend"],
  [("_cached_sheets", "open sheets", X + "io/backend.py:SheetsFactory")],
  "A ledger in the simulated backend is audited after each episode; up to 6 episodes with armed faults per run.")

p("C04", "Lassoing failures surface as documented and a retry recovers fully",
  "Any failure while lassoing - malformed reference, bad JSON, unopenable workbook, unreadable sheet, failing filter - raises and never yields "
  "partial or substituted values: syntax errors for non-references, value errors carrying the cause for the rest, and the dedicated "
  "empty-capture error only when the option forbidding empties is set; interrupts surface as they are. Once the cause is gone, repeating the very same lasso on the same "
  "factory and ranger yields exactly what it would have yielded had nothing ever failed.",
  ["fault_sequences", "histories"],
  "all sequences of faults at any backend call, followed by retries",
  "Existing tests never fail the I/O layer; state left behind by a failed attempt (half-read caches, registered-but-broken sheets) is only visible on the retry.",
  [X + "_lasso.py", X + "io/backend.py", X + "_parse.py"],
  [("per-stage error wrapping", X + "_lasso.py:Ranger"), ("lazy sheet caches", X + "io/backend.py:ABCSheet")],
  ["exceptions and values of do_lasso()"],
  note="1-3 faulted attempts then a retry, 2-8 lassos per run; judged by the C01 model of an unfaulted world.")

p("C05", "Options and arguments of a lasso never leak to other lassos",
  "The options in force for a lasso are its ranger's base options overlaid by those in the reference itself, worked out anew for each lasso, "
  "whether called directly, by the high-level function (defaults overlaid by the given base options), or recursively for a reference found in captured values. "
  "Whatever filters do to the options, arguments, or context handed to them affects neither the base options, the default options, the table of available filters, "
  "the ranger's context defaults, nor what any other lasso, past or future, sees.",
  ["histories", "inputs"],
  "all sequences of lassos through rangers sharing base options and filter tables, with misbehaving filters, recursion and failures",
  "Existing tests run one lasso per ranger, with well-behaved filters; leaks through shared mutables appear only on the following lassos.",
  [X + "_lasso.py", X + "_parse.py", X + "_filter.py"],
  [("overlaying opts", X + "_lasso.py:Ranger.do_lasso"), ("defaults", X + "_lasso.py:make_default_Ranger/lasso"), ("recursive lassos", X + "_filter.py:recursive_filter")],
  ["opts/args observed by filters; shared structures after each lasso"],
  [("base_opts, available_filters, _context_lasso", "what lassos share", X + "_lasso.py:Ranger")],
  "Probing filters record and then scribble; 2-10 lassos per run on 2-3 rangers.")

p("C06", "The post-mortem record tells the stage a lasso reached",
  "After any lasso, failed or not, the ranger's intermediate lasso names the last stage completed by that very lasso "
  "(context, parse, open, capture, read-rect, or the filter being invoked, as `rect` filters get nested) and holds the fields known up to then, "
  "while those not yet known are empty; it never shows the stage or fields of an earlier lasso.",
  ["histories", "fault_sequences"],
  "all sequences of lassos failing at any stage, through the same ranger",
  "Tests check one record of a fresh ranger; staleness depends on the outcome of the previous lassos, and on where the current one failed.",
  [X + "_lasso.py", X + "_filter.py"],
  [("relassing", X + "_lasso.py:Ranger._relasso"), ("filters", X + "_lasso.py:Ranger.make_call")],
  ["Ranger.intermediate_lasso after each do_lasso()"],
  [("intermediate_lasso", "last (stage, Lasso)", X + "_lasso.py:Ranger")],
  "Faults drawn per stage; 2-10 lassos per run.")

p("C07", "Failing filters either fail the lasso or get skipped whole under lax",
  "Whether a failing filter is tolerated is decided by its call's own lax argument if given, else by the lax option of the reference, else of the base options, else it is not. "
  "When tolerated, a filter that is unknown, wrongly registered, raising, or returning anything but a lasso leaves the values as they were and the rest of the pipeline still runs; "
  "when not, the lasso fails with a value error bearing the cause. This holds at every depth of nested pipes and for every cell of element-wise filters, "
  "regardless of the verbose option; interrupts are never swallowed.",
  ["fault_sequences", "inputs"],
  "all pipelines x fault plans of their filters x lax settings at any level x verbosity",
  "Tests fail a single filter under a single setting; the policy is the interplay of three levels of settings, nesting, and which invocation fails.",
  [X + "_lasso.py", X + "_filter.py"],
  [("invoking filters", X + "_lasso.py:Ranger.make_call"), ("pipes & element-wise", X + "_filter.py:pipe_filter/run_filter_elementwise")],
  ["values or exception of do_lasso()"],
  note="A small interpreter of the policy is the oracle; 2-8 lassos per run.")

p("C08", "Recursive lassoing expands exactly the references in captured values",
  "The recursive filter replaces each captured string, at any depth of the values, that is a reference with exactly what lassoing that reference yields, its workbook, sheet and "
  "relative coordinates defaulting to those of the cell it was found in and so on for nested references up to the depth given, and leaves any other value untouched. "
  "Include/exclude lists select the items of mappings to expand, sub-filters apply to each expanded value, and failing to expand any reference fails the whole "
  "lasso (unless lax), never yielding half-expanded values. Clients' own element-wise filters visit, get the context of, and replace elements likewise.",
  ["inputs", "fault_sequences"],
  "all webs of references across cells, sheets and workbooks x filter arguments x I/O faults",
  "Tests expand one or two literal references on a single sheet; context of nested references and failure of inner lassos are hardly exercised.",
  [X + "_filter.py", X + "_lasso.py", X + "_parse.py"],
  [("recursion", X + "_filter.py:recursive_filter/run_filter_elementwise"), ("context", X + "_lasso.py:Ranger")],
  ["values or exception of do_lasso()"],
  note="Independent recursive model; faults may be armed on any opening or read. Webs of 2-3 workbooks.")

p("C09", "Real workbooks yield exactly their cells, despite disk and network faults",
  "Lassoing or listing the sheets of a real workbook, from a local path, a file URL or a remote URL, yields exactly the values in its cells - numbers, texts, booleans, "
  "dates, date-times and times in either date-system, error-cells as NaN, blanks as None - or raises, when files or transfers are missing, cut, corrupt or refused; never "
  "wrong or partial values. No descriptor or connection is left open after closing, an already opened workbook is not affected by later changes on "
  "its medium, and reading again once the medium is sound succeeds.",
  ["inputs", "fault_sequences", "histories"],
  "all workbooks generated x media x faults of disk and network in-between operations",
  "Tests read one well-formed local workbook; no remote, corrupt, replaced or 1904-system workbook is ever read.",
  [X + "io/_xlrd.py", X + "io/backend.py", "pandalone/utils.py"],
  [("opening", X + "io/_xlrd.py:XlrdBackend"), ("cell conversion", X + "io/_xlrd.py:_parse_cell"), ("urls & paths", "pandalone/utils.py:path2url/urlpath2path")],
  ["values or exceptions of lassos and sheet-listings; open descriptors"],
  note="Workbooks by an own XLSX writer, read by the real xlrd; sockets simulated under the real urllib; BIFF (.xls) files not generated.")

p("C10", "Plugins initialise in two stages, and a failing one stays isolated",
  "Initialising plugins loads all the discovered ones in the order of their names, then runs the install functions of those that have one, in the same order. "
  "A plugin failing to load or install neither prevents the others nor raises (only users' interrupts do), and the record of plugins tells how far each one went: "
  "0 for failed to load, 1 for loaded, 2 for installed. Initialising again re-discovers and starts over; if no plugin exists at all, it fails.",
  ["fault_sequences", "histories"],
  "all sets of plugins x failures at either stage x sequences of initialisations",
  "Tests initialise the real set of plugins that all succeed.",
  [X + "__init__.py"],
  [("two-stage init", X + "__init__.py:_init_plugins")],
  ["order of load/install events, returned and recorded stages, hooks' contents"],
  [("_plugins_installed", "stage per plugin", X + "__init__.py")],
  "Simulated distributions under the real entry-points machinery.")

p("C11", "The highest bidding backend serves each workbook, or none",
  "Each time a workbook is opened, every registered backend bids anew for its full URL, the highest bid wins (zero and negative bids are valid) and only the winner "
  "opens it; abstaining backends never serve, with no bid opening fails, and a failure while bidding or opening surfaces and is not retried elsewhere. "
  "Siblings of a sheet come from its own workbook with no bidding, backends registered later are considered, and the non-caching factory opens afresh each time.",
  ["histories", "fault_sequences"],
  "all backend line-ups x bids x failures x fetch sequences",
  "Tests have one real backend and a mock; auctions with ties, zero bids, failing bidders and late registration never occur.",
  [X + "io/backend.py"],
  [("auction", X + "io/backend.py:SimpleSheetsFactory.decide_backend"), ("siblings", X + "io/backend.py:ABCSheet.open_sibling_sheet")],
  ["which backend opens, what each was asked, exceptions"],
  [("io_backends", "registered backends", X + "io/backend.py")],
  "0-5 simulated backends; among tied bids any of the tied is accepted.")

p("C12", "Model building is staged: no step runs unless all before it succeeded",
  "Building a model goes through resolving its parts, pre-validating each submodel, merging, validating the merged model, and curating, in this order, and no step is "
  "entered if an earlier one failed; curate-functions run in order, up to the first one that fails. All the violations found by the failing step are reported, followed by a give-up notice, and the errored flag is set; or, when building in one go, the first one is raised and no model is returned. "
  "Otherwise the model has passed every step. A failed, interrupted or abandoned building leaves no trace in the next ones; building again after the cause is gone succeeds.",
  ["fault_sequences", "histories"],
  "all schemas/submodels generated x failing or interrupted calls x ways and number of buildings",
  "Tests build once with one fixed schema; failing providers, interrupts and rebuilding are not exercised.",
  ["pandalone/pandata.py"],
  [("steps", "pandalone/pandata.py:Pandel.build_iter"), ("merge", "pandalone/pandata.py:Pandel._clone_and_merge_submodels")],
  ["errors yielded/raised, order of provider/curation calls, Pandel.model"],
  [("_errored, model", "outcome of the last building", "pandalone/pandata.py:Pandel")],
  "Reference validator/merger over generated schemas (object/array/number/string/bool types, required, bounds, defaults).")

p("C13", "Building a model neither modifies nor shares what clients gave",
  "Building models, successfully or not, never modifies the submodels or the schema given, and the built model shares no mutable part with them, with the schema's default values, or with other built "
  "models: whatever clients or curation functions do to a built model shows neither in the inputs nor in any other model, and later changes in the inputs do not show in models already built.",
  ["histories", "inputs"],
  "all stacks of submodels sharing parts x schemas with mutable defaults x interleaved builds, changes and failures",
  "Aliasing shows only when something is changed after building; tests build once and compare.",
  ["pandalone/pandata.py"],
  [("cloning & merging", "pandalone/pandata.py:Pandel"), ("auto-defaults", "pandalone/pandata.py:PandelVisitor")],
  ["snapshots of inputs and of built models after each step"],
  note="Mappings, sequences, Series, DataFrames, arrays; pandas objects holding nested mutables are excluded.")

p("C14", "What gets built depends on the stack of submodels and nothing else",
  "A model built is the documented merge of the stack - later submodels override earlier ones, mappings key by key at any depth, columns of "
  "Series and DataFrames by name, other values whole - with the defaults filled in and nulls removed as the schema's flags or else the validator's ask for, its items being gettable by pointer, and so are the errors reported, in content and order: the same for "
  "each rebuilding, whatever else was built before, and in any process (regardless of the hash-seed).",
  ["inputs", "histories"],
  "all stacks of submodels of any type x build histories x hash-seeds",
  "Tests merge two fixed mappings in one process.",
  ["pandalone/pandata.py"],
  [("merge", "pandalone/pandata.py:Pandel._clone_and_merge_submodels"), ("validation of pandas", "pandalone/pandata.py:PandelVisitor")],
  ["built model, errors and their order"],
  note="Reference merge; hash-seeds compared across separate interpreters.")

p("C15", "Components report exactly the mapped paths their functions use",
  "After building a component, its inputs and outputs are exactly the leaf paths that its function (given some fresh dummy data) accesses through the suggested steps, translated by the mappings given to that very building, "
  "and those of an assembly are the sorted unions of its components'. This holds for any history: earlier buildings under other mappings, "
  "buildings that failed or got interrupted midway, executions in-between, and components shared by assemblies. Building never modifies the mappings nor what other components report; "
  "executing passes the given data through to the function once and changes no reported paths.",
  ["histories", "fault_sequences", "inputs"],
  "all access patterns x mappings x sequences of buildings, failures and executions over shared components",
  "Tests build each component once or twice with one mapping and functions that never fail.",
  ["pandalone/components.py", "pandalone/mappings.py"],
  [("extraction of paths", "pandalone/components.py:FuncComponent._build"), ("union", "pandalone/components.py:Assembly._build"), ("steps", "pandalone/mappings.py:Pstep")],
  ["_inp, _out after each building; calls of functions"],
  [("_pinp, _pout, _pmod", "cached steps of the last building", "pandalone/components.py:FuncComponent")],
  "Functional reference of mappings; 2-4 components, 1-2 assemblies, 3-12 operations per run.")

p("C16", "Path-mappings are shared safely and depend on nothing but their rules",
  "Mapped paths depend only on the mapping rules (later rules override earlier ones, literals prevail over regexes, children of all matching rules merge) and on what a client itself did to its own steps. "
  "However many clients share the same mappings, and in whatever order they create, descend, rename, tag, lock or graft steps, merge mappings, or map paths, nobody's steps, paths, tags or schemas show anything of another's, "
  "and the mappings are never modified. Refused operations (renaming to non-strings, locking moved steps) change nothing.",
  ["histories", "schedules", "inputs"],
  "all interleavings of clients' operations over all sets of mapping rules",
  "Tests use one client per mapping; sharing defects show only when several use the same mappings in some order.",
  ["pandalone/mappings.py"],
  [("rules", "pandalone/mappings.py:pmods_from_tuples"), ("descending/merging", "pandalone/mappings.py:Pmod.descend/_merge"), ("steps", "pandalone/mappings.py:Pstep.__make_cstep")],
  ["paths, tags, locks and mapped paths per client"],
  [("_steps, _regxs", "rules per level", "pandalone/mappings.py:Pmod"), ("_csteps, _tags", "children & tags of a step", "pandalone/mappings.py:Pstep")],
  "2-4 interleaved clients with scripts of 3-12 operations; compared with a functional reference and with each script run alone.")

p("C19", "Ensuring a directory is safe against races and failing system-calls",
  "When ensuring a directory returns, the path was a directory at some instant within the call; it fails only if something really stood in the way - a non-directory on the path, "
  "a failing system-call, or others removing or occupying the path meanwhile - and never merely because others created the same directory concurrently. "
  "Nothing else gets created, changed or removed, and a directory made anew gets the mode asked.",
  ["schedules", "fault_sequences"],
  "all interleavings of other processes at each system-call x failing calls x initial folders",
  "Tests create a directory once, alone; the outcome of races depends on what others do between the check and the creation.",
  ["pandalone/utils.py"],
  [("creation", "pandalone/utils.py:ensure_dir_exists")],
  ["return/exception of ensure_dir_exists(); contents of the folder over time"],
  note="Real files in a scratch folder with the os look-up/creation calls intercepted; root ignores permissions so EACCES is injected.")

p("C20", "Unique filenames never clash with files that exist",
  "A filename given as unique did not exist at some instant within the call, since it was proposed by the generator, and is the earliest such among the generated candidates - the name itself, then numbered before its extension, or those of the given generator - that is, "
  "every candidate before it did exist at some instant within the call. It creates nothing itself.",
  ["schedules", "histories"],
  "all contents of folders x other processes creating and removing files at each system-call x generators",
  "Tests call it on a folder that nobody else changes.",
  ["pandalone/utils.py"],
  [("probing", "pandalone/utils.py:make_unique_filename"), ("candidates", "pandalone/utils.py:generate_filenames")],
  ["filename returned against the history of the folder"],
  note="Uniqueness at an instant only: the function reserves nothing, so two callers may still get the same name before either creates it.")

p("C22", "Programs are located in search-path order or by the system's locator",
  "Locating a program gives all the executable files of that name (or with a Windows executable-extension) in the order of the search-path's folders, never directories or non-executables, with quoted and blank "
  "entries understood; or what the system's locator answers, if there is one, nothing if that says there is none, and the search-path again if it cannot run, while interrupts surface. `which` gives the first of those, or none.",
  ["histories", "fault_sequences"],
  "all search-paths x contents changing between and within look-ups x behaviours of the locator",
  "Tests look up a couple of programs on the machine they happen to run.",
  ["pandalone/utils.py"],
  [("search", "pandalone/utils.py:py_where"), ("fallback", "pandalone/utils.py:where/which")],
  ["lists and paths returned"],
  note="Scratch folders with real files; the `where` command is a stub.")

p("C17", "Validating model-trees reports exactly their violations",
  "Validating a tree of mappings, sequences, Series, DataFrames and numpy values against a json-schema of any draft reports exactly the "
  "violations of its rules, each one once and at its place - Series counting as objects of their items and as arrays, DataFrames as objects of their "
  "columns, numpy arrays as arrays, numpy scalars as Python's, and NaNs also as nulls - the same whether errors are listed, raised, or asked for validity, "
  "and when validating again. This holds however many validations are interleaved, sharing schemas, validators and trees, and whichever "
  "of them were abandoned or failed; a failure in reading the tree surfaces as it is; and nothing is modified (without defaults).",
  ["inputs", "schedules", "fault_sequences"],
  "all schemas x trees x interleavings of iterated validations x failures in reading the trees",
  "Tests validate a few flat trees, one after the other, by rules of a single keyword.",
  ["pandalone/pandata.py"],
  [("rules and types for pandas", "pandalone/pandata.py:PandelVisitor"), ("additional properties", "pandalone/pandata.py:_rule_additionalProperties"),
   ("null values", "pandalone/pandata.py:_is_null")],
  ["errors of PandelVisitor and of Pandel's validation steps"],
  note="Reference validator; enums are asked of scalars and plain containers only, sizes not of DataFrames (documented otherwise).")

p("C18", "Concurrent unrelated uses never affect each other",
  "Threads working with objects of their own - rangers, factories, sheets, models, components, path-steps, files - and sharing at most read-only mappings get exactly the results and errors each gets when "
  "working alone, wherever they are switched, also when one of them gets killed midway; afterwards working alone still gives the same.",
  ["schedules", "fault_sequences"],
  "all interleavings of 2-3 threads at lines of the code x kinds of jobs x points of killing",
  "Tests are single-threaded; hidden shared state shows only when threads get switched inside the code.",
  ["pandalone/xleash", "pandalone/mappings.py", "pandalone/pandata.py", "pandalone/components.py", "pandalone/utils.py"],
  [("module-level state", "pandalone/xleash/__init__.py"), ("per-ranger state", "pandalone/xleash/_lasso.py:Ranger"), ("shared mappings", "pandalone/mappings.py:Pmod")],
  ["return values and exceptions of each thread against the same jobs run alone"],
  note="Real threads, one running at a time; switched at lines of pandalone's own code only, not within libraries. Objects shared for writing are out of scope.")

p("C23", "Bumping a version stops at the first failure and commits only what was tested",
  "bumpver writes new version and date, everywhere, in exactly the version-files; then runs the doc-tests on them; only if those pass, and if asked, commits exactly these files (telling the old version and the new one, without whole leading parts they share); and only if that succeeded, tags (never moving existing tags). "
  "When any step fails or gets interrupted nothing further is done and it ends in error; a dry-run, showing, or refused same version writes and executes nothing; a restored tree can be bumped again.",
  ["fault_sequences", "histories"],
  "all sequences of invocations x failing/interrupted reads, writes, tests, git-commands, output x clock jumps",
  "The script has no tests; what matters is what happens when a step in the middle fails.",
  ["bin/bumpver.py"],
  [("replacing", "bin/bumpver.py:replace_substrings"), ("ordering", "bin/bumpver.py:bumpver"), ("git", "bin/bumpver.py:do_commit/do_tag"), ("tests", "bin/bumpver.py:run_testcases")],
  ["files, git-commands in order, exit of main()"],
  note="git, clock and doc-tests are simulated. Writing is not atomic by design: a torn file is recovered with git and not judged.")

p("C24", "VBA modules get into the workbook whole, or nothing gets saved",
  "Importing VBA-files finishes normally only after the workbook, saved once under the documented macro-enabled name, holds each file's code as the only module of that name, unrelated modules untouched; "
  "with no files nothing is saved. On any failure - COM-errors, locked project, interrupts, vanished files - nothing is saved, Excel's alerts are on again and a retry succeeds. Removing modules removes exactly the named standard modules.",
  ["fault_sequences", "schedules", "histories"],
  "all workbooks, module-sets and files x failing COM-calls x concurrent edits by the user",
  "The tests need MS Excel and are skipped; the outcome depends on which COM-call fails.",
  ["pandalone/xlsutils.py"],
  [("import", "pandalone/xlsutils.py:_import_vba_files"), ("saving", "pandalone/xlsutils.py:_save_workbook"), ("access", "pandalone/xlsutils.py:_get_xl_vb_project"), ("removal", "pandalone/xlsutils.py:_remove_vba_modules")],
  ["saved workbooks of the simulated Excel, exceptions, alerts"],
  note="Excel, xlwings, win32com and easygui are stubs modelled on their documentation; none is installed here.")

p("C25", "Objects stored with the JSON codec come back equal, or not at all",
  "Any picklable object encoded with the codec is a single-line ASCII JSON document that decodes to an equal object (sharing and cycles kept), whatever ASCII storage and line-ending translation it passes through and whatever happens "
  "to the original later; an unpicklable object raises; a torn document is rejected and never decodes into something else; JSON objects not written by it pass unchanged.",
  ["inputs", "fault_sequences"],
  "all picklable objects x torn, lost, duplicated writes x encodings and line-endings",
  "Tests hold a handful of objects and compare nothing; corruption depends on the bytes of the pickle.",
  ["pandalone/pandata.py"],
  [("codec", "pandalone/pandata.py:JSONCodec")],
  ["decoded objects, errors"],
  note="Storage is simulated in memory. Random bit-flips are not injected: unpickling corrupted data is unsafe by nature.")

p("C21", "Python expressions in captured values run isolated, their failures contained",
  "The pyeval filter replaces each captured string selected (any depth, include/exclude/depth as in recursion) that evaluates as a Python expression, statements allowed, with its result (a returned lasso gives its values, its missing options filled in), followed by the sub-filters, and leaves any other value as it was. Each expression runs on its own: it sees its own lasso, ranger, location, and the pristine numpy and xleash names, and nothing assigned by any other expression, cell, or lasso, past or future. One failing, on its own or by lassos and filters it invokes, keeps its text, or, when evaluating all, fails the lasso (unless lax, when the values stay as they were). The py filter does the same for one expression over whole values, failures failing the lasso. Interrupts hitting an expression always surface.",
  ["fault_sequences", "histories", "inputs"],
  "every grid of expressions and plain values, every options of the filters, every history of lassos by one ranger, every fault or interrupt within an expression",
  "A name left behind by one cell silently changes the numbers read from another; a swallowed Ctrl+C or half-evaluated values go unnoticed. Depends on the sequence of cells and faults.",
  ["pandalone/xleash/_filter.py"],
  [("fresh symbols & interpreter per expression", "pandalone/xleash/_filter.py:_pyeval_element_func"), ("elements dived on copies, failures surfaced", "pandalone/xleash/_filter.py:run_filter_elementwise"), ("bulk expressions", "pandalone/xleash/_filter.py:py_filter")],
  ["values of every lasso", "options seen by sub-filters", "interrupts"])

p("C26", "Pointers into documents read, or modify atomically, only what they address",
  "Resolving a json-pointer (or a relative path, or an absolute one against a given root-document) returns the very item it addresses - whatever that item is, with '~0', '~1' un-escaped, lists by index, and attributes too for paths - or, when nothing is there, the default if any was given, else it fails with a RefResolutionError; and it never modifies anything. "
  "Setting a value makes the json-pointer resolve to that very value, replacing scalars in the way, appending at the end of lists (or for '-'), and creating the missing objects with the given factory only; everything else stays as it was. "
  "Whatever is refused (empty or malformed pointers, bad or out-of-bounds indexes, scalar documents) fails with a RefResolutionError; and whenever an operation fails or gets interrupted midway, in the containers or in the factory, that failure surfaces as it is and the document remains as it was.",
  ["histories", "fault_sequences", "inputs"],
  "all documents x histories of clients' resolving and setting x failures and interrupts of containers and factories at any access",
  "Tests set a few values in small well-behaved documents; none has containers or factories failing midway.",
  ["pandalone/pandata.py"],
  [("resolving", "pandalone/pandata.py:resolve_jsonpointer, resolve_path"), ("setting", "pandalone/pandata.py:set_jsonpointer")],
  ["items resolved, exceptions, the whole document after each operation"])

p("C27", "Paths and urls resolve against where the process stands when asked",
  "Converting a path to absolute or to a 'file:' url (with or without expanding the user's home and the variables) resolves it against the current folder, home and environment at the moment of the call - whatever moves before, during or after it, absolute inputs against none - with all dots collapsed, unknown users and variables left alone (also next to the '$' of UNC shares), and any trailing slash preserved; remote urls pass through with their query and fragment. The url decodes back to the very path, and converting urls again changes nothing. "
  "Failing to read the current folder surfaces as that very OS-error and leaves no trace on later calls; opening a file with the OS launches the single opener of the platform with that exact path, and its failure surfaces.",
  ["histories", "fault_sequences", "schedules"],
  "all paths and flags x histories of moving the current folder, home and variables between or within calls x folders that vanished x openers that fail",
  "Tests of urls are all skipped outside Windows; none moves the process or loses its folder.",
  ["pandalone/utils.py"],
  [("resolving", "pandalone/utils.py:convpath, path2url, abspath, normpath"), ("round-trip", "pandalone/utils.py:path2urlpath, urlpath2path"), ("opener", "pandalone/utils.py:open_file_with_os")],
  ["returned paths and urls, exceptions, calls to the OS's openers"])

p("C28", "Every string either parses as an xl-ref or is refused with a SyntaxError",
  "Parsing is total and stable: any string is either refused with a SyntaxError, or yields parts from which the same reference parses "
  "again; nothing else is raised, whatever the characters, lengths and nesting.",
  ["inputs"], "all strings", "Tests parse some hundred strings; the grammar accepts infinitely many.",
  [X + "_parse.py"], [("parsing of xl-refs", X + "_parse.py:parse_xlref")], ["result or exception of parse_xlref()"],
  note="Not claimed.",
  na="A pure function of a single string: no concurrency, time, I/O, fault or history for a simulation to vary. (Well-formed refs "
     "are parsed by the real code within the histories of C01.)")

p("C29", "Re-dimensioning yields exactly the dimensions asked, or refuses",
  "For every nested list and target dimension, redim() gives a value of that dimension holding the very same items in order, "
  "transposed when asked, or raises when items would have to be dropped.",
  ["inputs"], "all nested lists x dimensions", "Tests check a table of examples.",
  [X + "_filter.py"], [("redim", X + "_filter.py:redim")], ["result or exception of redim()"],
  note="Not claimed.",
  na="A pure function of its arguments: nothing for schedules, faults or histories to change. (Exercised within C01, C07.)")

p("C30", "String and filename helpers are total and idempotent",
  "str2bool/obj2bool, camel-case conversions, format_pairs and ensure_file_ext give for every input their documented answer, and "
  "applying them again changes nothing.",
  ["inputs"], "all strings", "Tests check a few examples each.",
  ["pandalone/utils.py"], [("helpers", "pandalone/utils.py:str2bool/ensure_file_ext/camel_to_snake_case")], ["results of these functions"],
  note="Not claimed.",
  na="Pure functions of their arguments, with no state, I/O, time or concurrency.")

p("C31", "Captured tables convert to the same DataFrame as pandas would read",
  "The df and sr filters convert captured tables to what pandas.read_excel() gives for the same cells and options.",
  ["inputs"], "all tables x reading options", "Tests compare a few tables.",
  [X + "_pandas_filters.py"], [("DataFrame conversion", X + "_pandas_filters.py:_df_filter")], ["lasso.values after df/sr"],
  note="Not claimed.",
  na="The plugin cannot be imported with the pandas installed here (2.1.4 lacks the private _fill_mi_header), so nothing of it can run; "
     "besides it is a pure conversion. Its failing to load is exercised by C10.")

p("C32", "Windows helpers create and read shortcuts as asked",
  "Shortcuts created by winutils point to the target, arguments and folder given.",
  ["inputs"], "all shortcuts", "No tests run outside Windows.",
  ["pandalone/winutils.py"], [("shortcuts", "pandalone/winutils.py")], ["created shortcut-files"],
  note="Not claimed.",
  na="Needs Windows' registry and shell COM objects, neither of which exists here; a stand-in would be all that gets tested.")

# -------------------------------------------------------------------- output


def main():
    checks, na, props = [], [], []
    for d in sorted(P, key=lambda d: d["id"]):
        d = dict(d)
        note, why_na, tech = d.pop("note"), d.pop("na"), d.pop("tech")
        mod = os.path.join(HERE, "sim", "props", d["id"].lower() + ".py")
        if why_na:
            na.append({"property": d["id"], "reason": why_na})
        elif os.path.exists(mod):
            checks.append({
                "property": d["id"],
                "quick_cmd": "python3 check.py %s --tier quick" % d["id"],
                "thorough_cmd": "python3 check.py %s --tier thorough" % d["id"],
                "technique": tech, "level": "exploration", "level_note": note,
            })
        else:
            continue
        assert len(d["title"]) <= 80, d["title"]
        props.append(d)
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for d in props:
            f.write(json.dumps(d) + "\n")
    man = {
        "version": 1,
        "setup_cmd": "/opt/venv/bin/python -c \"import numpy, pandas, jsonschema, xlrd, asteval\" && mkdir -p evidence",
        "checks": checks,
        "not_applicable": na,
        "notes": "No hooks in /repo: every source of nondeterminism is reached through existing plugin, callable and stdlib seams.",
    }
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")
    print(len(checks), "claimed,", len(na), "not applicable")


if __name__ == "__main__":
    main()
