import json, subprocess, re, ast, pathlib
V=pathlib.Path("/verif")
props=[json.loads(l) for l in open(V/"properties.jsonl")]
OR={
"P01":("`extract_ast_info`, `create_importinfo`, `ImportInfo`","symbolic syntax trees (sym/astmodel.py): kind of each compound statement, the part in which each child sits, names and levels are solver variables; expected list computed while the tree is described","the counterexample tree is unparsed, parsed by the real parser and scanned"),
"P02":("`extract_bytecode_info`, `_extract_single`, `_all_code_objects`","code objects from the real compiler for programs with symbolic names; the indexes into co_consts/co_names and the EXTENDED_ARG prefixes are symbolic (sym/codemodel.py), so a module of any size is covered; expected imports from the program (oracle/code.py)","the program is padded with constants and names until the compiler gives the indexes of the counterexample"),
"P03":("same, and `globals_written/globals_read` of nodes","as P02; expected names from the scoping rules, written down in oracle/code.py","as P02"),
"P04":("`_process_import`, `_process_namelist`, `from_importinfo`, `DependencyInfo`","symbolic programs in symbolic worlds; oracle/graph.py computes the required and permitted records of each edge","real files, real ModuleGraph"),
"P05":("everything from `add_module`/`add_script` down","oracle: every import statement's target and submodule has node and edge","real files"),
"P06":("same","oracle: every node and edge has an explanation","real files"),
"P07":("`_find_or_load_module`, `_process_namelist`, `_implied_references`","every dotted node that something depends on has the edge to its package","real files, several hash seeds"),
"P08":("`_load_module`, `node_for_spec`, `_create_missing_module`","missing exactly when the world has no such module, invalid exactly when the code is invalid, and no exception","real files with modules that raise on import, broken sources and bytecode"),
"P09":("`relative_package`/`_process_import`","name resolution of PEP 328 (oracle) against the edge","real files"),
"P10":("`add_excludes`, `_implied_references`, `_find_or_load_module`","excluded names and names below them are ExcludedModule nodes without edges out, other than to the package","real files"),
"P11":("`add_implies`, `_implied_references`, `_process_namelist`","implied edges, alias and virtual nodes","real files"),
"P12":("`CallbackList`, `_process_import_list`, `_run_stack`","a log of hook calls","real files and hooks"),
"P13":("`FirstNotNone`, `_create_missing_module`","a log of hook calls","real files and hooks"),
"P14":("`_process_namelist`","the order in which sets of names are iterated is a symbolic permutation; the graph is compared with that of the source order","PYTHONHASHSEED 0..7"),
"P15":("`add_module`, `add_script`, `add_distribution`, `ObjectGraph.add_root`","sequences of operations; failed ones leave nodes, edges, roots and pending work as they were, also after later operations","real files"),
"P16":("`node_for_spec`","loaders with symbolic contents; expected node written down in oracle/p16.py","models of the loaders checked against the real import system"),
"P17":("`_contains_datafiles`","trees of directories and zip files with symbolic names of characters","real directories and zip files"),
"P18":("`create_distribution`","RECORD lines as strings of symbolic characters","real dist-info directories"),
"P19":("`all_distributions`, `distribution_for_file`, `distribution_named`, `ModuleGraph.distributions`","sequences of look-ups on search paths with broken entries","real directories"),
"P20":("`add_distribution`","distributions with symbolic names","real dist-info directories"),
"P21":("`split_package`","strings of symbolic characters","direct call"),
"P22":("`export_to_dot`, `export_to_html` and their attribute callbacks","parsers for DOT and for the HTML written from the formats' definitions (oracle/reports.py, instrumented too)","real output parsed again"),
"P23":("`__main__.main` and everything under it","option sequences","the real `main()` on real files, output captured"),
"P24":("`saved_sys_path`","operation sequences on sys.path","direct"),
"P25":("`import_module`, `import_package`, `hook_context`","package trees with other files","real directories"),
"P26":("`add_dependencies_for_source`","fragments","real files"),
"P27":("`ModuleGraph.report`","graphs of any kinds of nodes","real output"),
"P28":("six/setuptools parts of `node_for_spec`, `_load_module` aliases, `DistutilsLoader` parts","models of the loaders of six and setuptools (oracle/loaders.py)","the same loaders installed in sys.meta_path"),
"P29":("`swig_missing_hook`","SWIG wrappers with symbolic names","real files"),
"P30":("`mypyc_post_processing_hook`","mypyc extension modules with sources and distributions","real files with stand-ins for extension modules"),
}
out=[]
w=out.append
w('''# Solver-based checking of modulegraph2

## Method

`/verif/sym` contains a small symbolic executor for Python, with z3 as the
decision procedure. Nothing about the code under test is written down by hand:
every run reads the current sources of `/repo/modulegraph2` (and of its dependency
`objectgraph`), rewrites the syntax trees so that calls, comparisons, container
displays, subscripts with constant bounds, boolean operators, string patterns in
`match` and `sys` go through `sym/runtime.py`, and executes the real functions on
symbolic values.

* A *path* is one execution. A branch on a symbolic condition asks z3 which
  outcomes are possible under the path condition, takes one and queues the other
  (re-execution with a decision prefix, `sym/core.py`). All feasible paths within
  the bounds are explored, spread over the available cores (`sym/explore.py`).
* Assertions at the end of (or during) a path are given to z3: is the path condition
  with the negated assertion satisfiable? The oracles (`/verif/oracle`) are
  instrumented as well, so expected values are symbolic too.
* A model of a violated assertion becomes a concrete scenario (files, archives,
  RECORDs, options, operations), which is replayed with the project's interpreter
  and the unmodified code (`/verif/replay`). Only what reproduces is a VIOLATION
  (exit 1). What does not reproduce is printed as INCONCLUSIVE, counted in the
  evidence, and the run is not called exhaustive; exploration goes on. (With
  VERIF_STRICT=1, used while developing, it is an error.)
* A sample of the paths that satisfy the property is replayed as well
  (`traces_validated_against_impl`): this checks the models of the import system,
  loaders and files against the real ones.
* Vacuity: every harness names events that must be reached (`must_reach`), a run in
  which one is not reached exits 2.
* A run has a limit of 600 s (thorough: 3000 s). What is left then is reported
  (`exhausted: false`, `unexplored_prefixes`).

### Symbolic values

* *Identifiers* (module names, names in from-lists): solver integers, one per name
  component, without a bound on their length or text. Equality of dotted names is
  equality of components; prefixes, suffixes and parts that the code asks for are
  uninterpreted predicates with axioms for constants.
* *Characters*: strings of up to a stated length whose characters are any code points
  (solver integers); str methods, csv and regular expressions fork on them
  (`sym/strmodel.py`, `sym/libmodels.py`, `sym/regex.py`).
* Integers and booleans; choices (kind of a module, place of a statement, which
  entry of the path) are solver integers.
* *Worlds* (`sym/world.py`): which modules exist, of which kind, with which
  statements is decided lazily, at the moment the code asks `find_spec`; what is
  never asked for stays arbitrary.
* *Sets* have a symbolic order of iteration where that matters (P14).

### What has to be trusted, and limits

* The rewriting and the models of str methods, sets and dicts, `importlib.util.
  find_spec`, loaders, `zipfile` listings, `ast` walks and `dis`. Replays of path
  witnesses test them; an imprecise model leads to INCONCLUSIVE, not to an alarm.
* C functions without a model that get symbolic characters receive values of the
  current model instead ("pins", counted in the evidence): an under-approximation.
  No check needs pins on the current tree.
* Identifiers are compared by whole components: code that looks at letters of a name
  in other ways (case, length) gets one value per path.
* The bounds are those of the harness, listed in `BOUNDS.md` (generated) and in every
  evidence file: number of statements, scopes, nesting, components, path entries.
* Python 3.12 only: branches on `sys.version_info` for other versions are not taken.
* Not covered by any property: the drawing options of `_virtualenv_support`
  (constants), `_callback_list` beyond P12/P13, docs, `__main__` beyond P23.

## Properties

Every property is decided by the method above; none is not-applicable. Cost is
5 to 150 s on 8 cores in the quick tier.
''')
for p in props:
    i=p["id"]; fn,orc,rep=OR[i]
    doc=ast.get_docstring(ast.parse((V/f"checks/{i.lower()}.py").read_text())).split("\n\n",1)[1]
    w(f"### {i} {p['title']}\n\n{doc}\n\n* Functions: {fn}.\n* Symbolic side and oracle: {orc}.\n* Replay: {rep}.\n")
w('''## Why this reaches what the tests do not

The tests of the project use a fixed set of fixture packages, each with one
arrangement of names. The defects below all needed particular coincidences (a name
that is a submodule as well as a global, an exclude that is reached through an
alias, two import statements of which one is in a function, a second submodule of a
package that fails to import, more than 255 constants) that a fixture does not have
unless somebody thought of it; here the names, kinds and places are variables and
the solver finds the coincidence.

## Defects found and repaired

All were replayed against the real code first; each is a `fix:` commit in /repo.
''')
for l in open(V/"known_findings.txt"):
    if l.startswith("fixed:"):
        m=re.match(r"fixed: property=(\S+) (\S+) (.*)",l); w(f"* {m[1]} ({m[2]}): {m[3]}")
w('''
No known finding is left unrepaired.

## Behaviour that is by design and not reported

* `_load_module` leaves a stand-in for a package that cannot be imported in
  `sys.modules` (the code says so); P08 and P24 do not count it.
* Unknown loaders make `node_for_spec` raise RuntimeError (documented in the code);
  P16 covers the known ones.
* Script nodes have no globals, so `from x import *` in scripts only adds edges.
* Function names of `six.moves` in source fragments are not resolved (P26 excludes
  six.moves).
* Modules in zip files with invalid source are missing, because zipimport's
  find_spec itself raises (P08: worlds without that).
* Symbolic-link loops in package directories are outside of P17.
* LOAD_NAME in class bodies may be local and is not recorded as a read of a
  global; names used implicitly by the compiler (`__annotations__`, `__name__`) are
  excluded in P03.
* Imports in finally blocks occur twice in bytecode; P02 compares sets.
* Nodes for missing names that turn out to be globals of a package stay in the graph
  without edges; P06/P07 only speak about nodes something depends on.
* `distribution_named` compares names literally (no PEP 503 normalisation); the
  documentation promises nothing else.

## False alarms removed while building

Statements of properties that turned out too strong were corrected (they are in
`tools/props.py`): unlinked missing nodes (P06, P07), modules in zip files (P08,
P16), imports in finally blocks (P02), names bound in class bodies (P03), and the
choice between several matching distributions in one path entry (P19).
Refactorings (below) showed spurious counterexamples of the engine, removed
by making models more precise; they do not replay, and so were never violations.

## Planted bugs

Each in `seeded/<id>` with a demonstration. All pass the project's tests.

| bug | property | needs | caught by |
|---|---|---|---|''')
NOTE={"p07-virtual":"P07 (missed at first: implied names were not configured)","p08-star-virtual":"P08 (missed at first: implied names were not configured)","p27-trunc":"P27 (missed at first: names were short)","p17-zip-prefix":"P17 (missed at first: nothing next to the package)","p09-nspkg":"P09 (missed at first: needed modules with 4 name components)","p22-prefix":"P22 (missed at first: arrowheads were not compared)"}
for d in sorted((V/"seeded").iterdir()):
    m=json.loads((d/"meta.json").read_text())
    c=NOTE.get(d.name,m["property"])
    w(f"| {d.name} | {m['property']} | {m['needs']} | {c} |")
w('''
More than twenty other candidates were dropped because the project's tests catch
them (for example: no flags in nested definitions, class-level imports as globals,
`break` for `continue` over distributions, hooks called twice).

## Edits that change no behaviour

Three independent rewrites of the package were checked with every affected check:
helpers extracted, loops turned into comprehensions, `match` statements, dataclasses
replaced by plain classes, f-strings and `%`, partition/removesuffix, `ExitStack`,
`functools.partial`, bound methods passed to `filter`, regular expressions instead
of str methods, `re.sub` instead of `replace`. All checks stay quiet (exit 0).
Imprecision found that way and removed: constant-position slices of identifiers,
bound str methods and partial objects passed as values, regular expressions, string
patterns in `match`, separators that contain identifiers.
''')
(V/"DESIGN.md").write_text("\n".join(out)+"\n")
