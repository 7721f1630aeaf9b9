"""Single source of the property list: generates properties.jsonl.

Run:  python3 tools/props.py
"""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, state=()):
    assert len(title) <= 80, (id, len(title))
    P.append(
        {
            "id": id,
            "title": title,
            "statement": statement,
            "quantifier": {"over": over, "text": text},
            "why_tests_cant": why,
            "anchors": {
                "files": ["modulegraph2/" + f for f in files],
                "state": [
                    {"name": n, "meaning": m, "where": w} for n, m, w in state
                ],
                "mechanism": [{"name": n, "where": "modulegraph2/" + w} for n, w in mech],
                "observe_at": list(observe),
                "hook_needed": None,
            },
        }
    )


prop(
    "P01",
    "Source scanning finds every import statement with its exact location flags",
    "Scanning the syntax tree of any module reports every import statement in it exactly once, wherever it is nested, with its module name, relative level, imported names, renames and star marker. "
    "Each is flagged as inside a function, inside a conditional (either branch of an if) or inside the protected part of a try statement (any try statement, excluding its finally block) exactly when a statement of that kind encloses it.",
    ["programs"],
    "all module syntax trees up to the stated nesting depth and statement count, with arbitrary names, levels and renames",
    "The tests scan a dozen fixed snippets; nesting combinations (try inside else inside class inside function, except*, ...) are unbounded.",
    ["_ast_tools.py", "_importinfo.py"],
    [("extract_ast_info", "_ast_tools.py"), ("create_importinfo", "_importinfo.py")],
    ["the import records yielded for a syntax tree", "DependencyInfo on graph edges"],
)
prop(
    "P02",
    "Compiled code yields the same imports as its source, whatever its size",
    "Scanning the code object of any compiled module reports the same imports as its source contains, each with its module name, relative level, imported names, star marker, and whether the import is inside a function (at any depth, also through classes). "
    "The result does not depend on how many constants and names the module uses, and scanning never fails on code produced by the compiler.",
    ["programs"],
    "all modules built from imports in nested functions and classes up to the stated bounds, with constant and name indexes anywhere in the range the compiler can encode (0..2^24)",
    "The tests use a few sizes (one or two extension prefixes); instruction layout depends on constant and name indexes, which a test fixes.",
    ["_bytecode_tools.py", "_importinfo.py"],
    [("extract_bytecode_info", "_bytecode_tools.py"), ("_extract_single", "_bytecode_tools.py")],
    ["import records returned for a code object", "edges of bytecode-only modules"],
)
prop(
    "P03",
    "The global names a module writes and reads are derived exactly from its code",
    "For any module, the set of global names written consists of exactly the names its module-level code binds (assignments, definitions, imports, and names listed in module-level from-imports) plus names bound through global declarations in functions or classes, and never names that are local to functions or to class bodies. "
    "Names read by module-level code or as globals inside functions are recorded as read, so the indicators for use of __import__ and __file__ are right for those.",
    ["programs"],
    "all modules of binding and reading statements in nested functions and classes up to the stated bounds, with arbitrary (possibly coinciding) names and arbitrary constant/name indexes",
    "Only fixed snippets are tested; whether a binding is global depends on the nesting of code objects and on instruction operands.",
    ["_bytecode_tools.py", "_nodes.py"],
    [("_extract_single", "_bytecode_tools.py"), ("uses_dunder_import/uses_dunder_file", "_nodes.py")],
    ["globals_written, globals_read, uses_dunder_import, uses_dunder_file of module nodes"],
)
prop(
    "P04",
    "Dependency edges carry exactly the attributes of the imports that cause them",
    "An edge between an importing module and an imported module has one attribute record for each distinct way the module is imported: optional (in a function, conditional or try), global (not in a function), named in the from-list or not, and the name it is renamed to. "
    "No attribute record exists without an import statement having those attributes (containment and implied dependencies carry the default record), and two imports with different attributes never overwrite each other.",
    ["programs", "inputs"],
    "all programs of up to the stated number of modules and import statements, with arbitrary names, renames and location flags",
    "Tests check single imports with fixed flags; the merge of several imports of one target is not explored.",
    ["_depinfo.py", "_importinfo.py", "_modulegraph.py"],
    [("from_importinfo", "_depinfo.py"), ("_process_import/_process_namelist", "_modulegraph.py")],
    ["ModuleGraph.edge_data / outgoing"],
)
prop(
    "P05",
    "Every import of every scanned module is represented in the graph",
    "When adding a module or script returns, every import statement of every module and script in the graph has its target as a node and an edge from the importer to it. "
    "For a from-import out of a package, each listed name that is a submodule of that package is also a node with an edge from the importer, unless the package itself binds the name to another module it imports, in which case the importer has an edge to that module. A listed name that the package neither binds nor contains is a missing-module node with such an edge.",
    ["programs", "histories"],
    "all programs up to the stated number of modules, import statements and names, all kinds of modules, arbitrary coincidences between names (including cycles), and sequences of add operations",
    "Each test fixes one project layout; the processing order (cycles, packages importing their own submodules, star imports) depends on the whole program.",
    ["_modulegraph.py", "_graphbuilder.py"],
    [("_process_import/_process_namelist/_find_or_load_module/_run_stack", "_modulegraph.py")],
    ["nodes and edges of the graph after add_module/add_script"],
    [("work stack", "imports still to be processed", "modulegraph2/_modulegraph.py")],
)
prop(
    "P06",
    "The graph contains nothing that the program does not ask for",
    "Every node of the graph is a requested root or is caused by one: the target of an import statement in a scanned module, a parent package of such a target, a configured implied dependency, or the target of an alias. "
    "Every edge out of a scanned module is explained by one of its own import statements, by its containment in its package, or by a configured implied dependency.",
    ["programs", "histories"],
    "all programs up to the stated number of modules, import statements and names, all kinds of modules and arbitrary name coincidences",
    "Tests count edges for some fixed layouts only.",
    ["_modulegraph.py"],
    [("_process_import/_process_namelist/_find_or_load_module", "_modulegraph.py")],
    ["nodes and edges of the graph after add_module/add_script"],
)
prop(
    "P07",
    "A module inside a package always depends on that package",
    "Whenever something in the graph depends on a node with a dotted module name, the node of the containing package is in the graph too and the dotted node has an edge to it, so every package needed to import a reachable module is reachable. "
    "This holds whatever the kind of the module (missing, excluded, alias, namespace, extension) and in whatever order imports are encountered.",
    ["programs", "histories"],
    "all programs up to the stated bounds with dotted names up to the stated depth, all module kinds, and all orders of adding roots",
    "Each test sees one order of discovery; the link is created on first load only, so histories matter.",
    ["_modulegraph.py"],
    [("_find_or_load_module", "_modulegraph.py"), ("_load_module", "_modulegraph.py")],
    ["ModuleGraph.edges, iter_graph"],
)
prop(
    "P08",
    "Graph building never fails on importable or unimportable names",
    "Adding a module never raises an exception because of what modules import, whatever mixture of found, missing, syntactically invalid, non-package or crashing-on-import modules the names refer to and whatever implied dependencies are configured. "
    "A name becomes a missing-module node exactly when the import system cannot find it, a module whose code cannot be compiled becomes an invalid-module node, and processing of the other imports continues.",
    ["programs", "histories", "configurations"],
    "all programs up to the stated bounds, with every kind of module including packages whose initialisation raises",
    "Tests cover a handful of failing layouts; the error handling depends on which prefix of a dotted name fails and how.",
    ["_modulegraph.py", "_graphbuilder.py"],
    [("_load_module/_create_missing_module/_find_or_load_module", "_modulegraph.py"), ("node_for_spec", "_graphbuilder.py")],
    ["exceptions out of add_module/add_script; types of nodes"],
)
prop(
    "P09",
    "Relative imports resolve as Python resolves them",
    "A relative import in any module resolves to the same absolute name Python itself would use, given the module's dotted name, whether it is a package, and the number of dots. "
    "A relative import that would leave the top-level package, or that occurs in a script or top-level module, produces an invalid-relative-import node named with its dots and nothing else.",
    ["inputs", "programs"],
    "all module names and relative levels up to the stated depth, packages and plain modules, scripts with arbitrary paths",
    "Tests use fixed names and levels up to 3.",
    ["_graphbuilder.py", "_modulegraph.py"],
    [("relative_package", "_graphbuilder.py"), ("_process_import", "_modulegraph.py")],
    ["target of the edge created for a relative import"],
)
prop(
    "P10",
    "Excluded modules are never scanned, however they are reached",
    "A module name that was excluded before it was encountered only ever appears in the graph as an excluded-module node, which has no dependencies other than its containing package; the same holds for every submodule of an excluded package (a name below something that does not exist may also just be missing). "
    "Exclusion wins over implied dependencies and aliases whichever was configured first, and applies to every way of reaching the module: import, root, implied dependency, or alias.",
    ["programs", "configurations", "histories"],
    "all programs and configurations up to the stated bounds and all orders of configuration calls",
    "Tests cover one excluded module and one excluded package reached by a plain import.",
    ["_modulegraph.py"],
    [("add_excludes/add_implies/_implied_references/_find_or_load_module", "_modulegraph.py")],
    ["node types and edges in the graph"],
    [("lazy nodes", "pending excludes and implies", "modulegraph2/_modulegraph.py")],
)
prop(
    "P11",
    "Implied dependencies, aliases and virtual modules are honoured",
    "For every implied dependency list configured before the module is encountered, once the named module is in the graph it has an edge to every listed module; a name configured as alias or virtual appears as an alias or virtual node with an edge to the module it stands for, which is in the graph. "
    "This holds for any configuration, including cyclic and self-referring ones and names in packages, and names imported from an alias are resolved in the module it stands for; names below missing or excluded packages and names that stand for themselves are exempt.",
    ["configurations", "programs"],
    "all implied-dependency configurations up to the stated number of entries over arbitrary (possibly coinciding, dotted) names",
    "Tests cover one entry at a time.",
    ["_modulegraph.py", "_implies.py"],
    [("add_implies/_implied_references", "_modulegraph.py"), ("Alias/Virtual", "_implies.py")],
    ["nodes and edges of the graph"],
)
prop(
    "P12",
    "Post-processing hooks run exactly once per module, after its imports",
    "Every registered post-processing hook is called exactly once for each module or script node that graph building adds (nodes provided by missing hooks included), over any sequence of operations on the graph, and hooks are called most recently added first. "
    "When the hook is called for a node, all import statements of that node, including the names of its from-imports, have been processed.",
    ["programs", "histories"],
    "all programs up to the stated bounds and sequences of add operations",
    "A test checks the set of hooked nodes for one history, not the multiplicity or the moment.",
    ["_modulegraph.py", "_callback_list.py"],
    [("_process_import_list/_run_stack", "_modulegraph.py"), ("CallbackList", "_callback_list.py")],
    ["calls of hooks and the graph as seen from the hook"],
)
prop(
    "P13",
    "Missing-module hooks decide missing names, most recent hook first",
    "Before a name is recorded as missing, the missing-module hooks are called with the importing module and the name, most recently added first, until one returns a node (that has the name asked for and was added to the graph by the hook); that node is then used, later hooks are not called, and a missing-module node is created only when all return nothing. "
    "The hooks are called only for names the import system cannot find, and at most once for each such name.",
    ["inputs", "programs"],
    "all numbers of hooks up to the bound with arbitrary results, and all programs up to the stated bounds",
    "Tests use one hook and one missing name.",
    ["_callback_list.py", "_modulegraph.py"],
    [("FirstNotNone", "_callback_list.py"), ("_create_missing_module", "_modulegraph.py")],
    ["hook calls; node used for a missing name"],
)
prop(
    "P14",
    "The graph does not depend on the processing order of imported names",
    "The graph built for a module (nodes, kinds and edges with attributes) is the same for every order in which the names of its from-imports are processed, so it does not depend on the hash seed of the process. "
    "Adding a root that is already in the graph changes nothing but the set of roots.",
    ["schedules", "programs", "histories"],
    "all iteration orders of from-import name sets, for all programs up to the stated bounds",
    "Tests run with one hash seed and one order.",
    ["_modulegraph.py", "_importinfo.py"],
    [("_process_namelist", "_modulegraph.py"), ("import_names set", "_importinfo.py")],
    ["nodes and edges of the graph"],
)
prop(
    "P15",
    "Roots are exactly what was asked for and a failed add changes nothing",
    "After any sequence of add operations the roots of the graph are exactly the nodes that were added successfully, and adding the same module or distribution again is harmless. "
    "Adding a script (by a path that is no module name) that is already present, does not exist or does not compile, or an unknown distribution, raises the documented error (ValueError, OSError, SyntaxError) and leaves nodes, edges and roots as they were.",
    ["histories", "fault_sequences"],
    "all sequences of add operations (modules, scripts, distributions, source fragments) up to the stated length, with every failure mode of each",
    "Tests check single calls, not histories.",
    ["_modulegraph.py"],
    [("add_script/add_module/add_distribution/_load_script", "_modulegraph.py")],
    ["ModuleGraph.roots, nodes, edges before and after"],
)
prop(
    "P16",
    "Each found module gets the node kind and details its loader implies",
    "A module found by the import system is represented by the node kind that matches how it is loaded (source, bytecode-only, extension, built-in, frozen, namespace package, package with matching init module, or invalid when it cannot be compiled), under its own name and with its loader. "
    "Its file, search path, distribution and code are those of the found module: built-in, frozen and namespace modules have no distribution, a package's file is its directory, and dependencies are those of its source or else of its bytecode.",
    ["inputs"],
    "all combinations of loader kind, package-ness, presence of source, code, origin, and failures to decode or compile",
    "Tests look at one real module per kind; combinations (frozen package with syntax error, package without origin, ...) are not reached.",
    ["_graphbuilder.py", "_nodes.py"],
    [("node_for_spec", "_graphbuilder.py")],
    ["node returned for a module spec"],
)
prop(
    "P17",
    "A package is marked as having data files exactly when it has some",
    "A regular package is marked as containing data files exactly when its directory, at any depth, holds a file that is not a Python module, extension or bytecode file and is not inside a cache or version-control directory (__pycache__, .git, .hg, .svn). "
    "The answer does not depend on the order in which directory entries are listed or on the presence of other (empty) directories, and is the same for a package in a directory and the same package in a zip file.",
    ["inputs", "schedules"],
    "all directory trees up to the stated depth and width with arbitrary entry kinds and all listing orders",
    "Tests use trees with a single relevant entry.",
    ["_graphbuilder.py"],
    [("_contains_datafiles", "_graphbuilder.py")],
    ["Package.has_data_files"],
)
prop(
    "P18",
    "Distribution metadata is read correctly for every installed file name",
    "For any installed distribution, the set of files contains exactly the normalised absolute path of every entry in its record, whatever commas, quotes or other characters the file names contain and whether or not the record quotes them (names without line breaks). "
    "The set of importable names contains the dotted name of every Python source, bytecode or extension file that can be imported from the distribution's directory (a package by its own name), and nothing for data files, cached bytecode or files outside the search path entry.",
    ["inputs"],
    "all file names up to the stated length over an arbitrary alphabet, in both record quoting styles, and all suffixes",
    "Tests install two packages; quoting and suffix handling depend on each character of the name.",
    ["_distributions.py"],
    [("create_distribution", "_distributions.py")],
    ["PyPIDistribution.files, import_names, contains_file"],
)
prop(
    "P19",
    "Distributions are looked up first on the path and identified by one object",
    "Looking up the distribution of a file or name returns the first distribution on the search path that contains that file or has that name, and None exactly when there is none; unreadable path entries and incomplete distributions are skipped; within one path entry any of several matches may be returned. "
    "Repeated look-ups and iterations yield one and the same object for an installed distribution, and the distributions of a graph are each reported once, exactly the distributions that reachable nodes belong to (or of all nodes when asked).",
    ["inputs", "histories", "configurations"],
    "all search paths and installed distributions up to the stated numbers, with arbitrary coincidences of names and files, and all graphs up to the stated size",
    "Tests use the live environment, where names and files do not coincide.",
    ["_distributions.py", "_modulegraph.py"],
    [("all_distributions/distribution_for_file/distribution_named", "_distributions.py"), ("ModuleGraph.distributions", "_modulegraph.py")],
    ["results of the look-up functions", "ModuleGraph.distributions"],
    [("distribution cache", "one object per distribution", "modulegraph2/_distributions.py")],
)
prop(
    "P20",
    "Adding a distribution links it to all its importable names",
    "Adding a distribution, by name or object, makes it a root of the graph and gives it an edge to the node of every importable name it provides, and the dependencies of those modules are processed as for any module. "
    "Adding it again returns the same node and changes nothing, and an unknown name raises ValueError.",
    ["inputs", "histories"],
    "all distributions up to the stated number of names (arbitrary, possibly coinciding with modules already in the graph) and add histories",
    "Tests add one well-behaved distribution.",
    ["_modulegraph.py", "_distributions.py"],
    [("add_distribution", "_modulegraph.py")],
    ["nodes, edges and roots of the graph"],
)
prop(
    "P21",
    "Splitting a module name loses nothing and rejects exactly the invalid names",
    "For every string that is a valid absolute or relative module name, splitting it into package and name gives parts that rejoin to the original, with the name free of dots and the package absent exactly for top-level names. "
    "Strings that are empty, consist only of dots, or contain an empty component are rejected with ValueError, and values that are not strings with TypeError.",
    ["inputs"],
    "all strings up to the stated length over an arbitrary alphabet",
    "Tests check about a dozen strings.",
    ["_utilities.py"],
    [("split_package", "_utilities.py")],
    ["result of split_package; names of package nodes"],
)
prop(
    "P22",
    "Exported reports describe exactly the reachable graph, for any node names",
    "The Graphviz output contains one entry for every node reachable from the roots, the HTML output one for every module and script among them, with one line or link for each of its dependencies; there is nothing for unreachable nodes, and both are well-formed whatever characters node names contain. "
    "In Graphviz output roots are marked, an edge is dashed exactly when all imports behind it are optional, it has no arrow head exactly when it is the edge from a module to a package that contains it, and each distribution's reachable nodes form one group.",
    ["inputs", "programs"],
    "all graphs up to the stated number of nodes with arbitrary edges, roots, edge attributes and distributions, and names of arbitrary characters",
    "Tests only look at the first line of the output.",
    ["_dotbuilder.py", "_htmlbuilder.py", "__main__.py"],
    [("export_to_dot", "_dotbuilder.py"), ("export_to_html", "_htmlbuilder.py"), ("format_node/format_edge/group_nodes", "__main__.py")],
    ["text written by the exporters"],
)
prop(
    "P23",
    "The command line builds and writes the graph it was asked for",
    "The command-line tool adds every named module, script or distribution as a root according to the selected kind, with all excluded names excluded and the given paths searched first in the given order, and writes the selected format to the selected file or standard output. "
    "The module search path of the process is unchanged afterwards, also when building fails, and options may be given in any order and number.",
    ["configurations", "fault_sequences"],
    "all option combinations up to the stated number of options, with arbitrary option values, and failures while building",
    "Tests run a few fixed command lines.",
    ["__main__.py", "_utilities.py"],
    [("parse_arguments/make_graph/format_graph/print_graph", "__main__.py")],
    ["graph and output produced for an argument list; sys.path"],
)
prop(
    "P24",
    "The module search path is restored exactly after a guarded block",
    "When a block guarded by the search-path context manager ends, normally or by any exception, the module search path is the same list object with the same entries in the same order as before, whatever the block did to it, also when such blocks are nested. "
    "The exception, if any, is passed on, and stale import caches are dropped.",
    ["histories", "fault_sequences"],
    "all sequences of list modifications up to the stated length, with an exception at any point, nesting included",
    "Tests do two insertions and no exceptions.",
    ["_utilities.py"],
    [("saved_sys_path", "_utilities.py")],
    ["sys.path before and after"],
)
prop(
    "P25",
    "Hook-driven imports add the module or whole package and its dependencies",
    "Importing a module through the hook interface links the importing node to it, and once the hook context ends all its dependencies have been processed, also when the context is left by an exception. "
    "Importing a package that way adds every Python module and subpackage below it, at any depth, with edges from each package to its members; on a plain module, namespace package or missing name it adds just that node (and the packages containing it), and never adds roots. Nodes for directories without an initialiser within a package are optional.",
    ["programs", "histories"],
    "all package trees up to the stated size and all graphs in which the modules may already be present",
    "Tests import three standard-library packages.",
    ["_modulegraph.py"],
    [("import_module/import_package/hook_context/_saved_stack", "_modulegraph.py")],
    ["nodes and edges after the hook context"],
)
prop(
    "P26",
    "Dependencies of a source fragment become roots",
    "Adding the dependencies of a source fragment makes every module it imports with an absolute import, and every submodule it names in a from-import, a root of the graph with its dependencies processed, and adds no other roots than targets of its import statements. "
    "Relative imports in a fragment are ignored, and names in from-imports out of anything but packages are not modules. A fragment that cannot be parsed raises SyntaxError (or ValueError) and leaves the graph unchanged.",
    ["programs"],
    "all fragments up to the stated number of import statements at any nesting, with arbitrary names",
    "Tests use two fragments.",
    ["_modulegraph.py", "_ast_tools.py"],
    [("add_dependencies_for_source", "_modulegraph.py")],
    ["roots and nodes of the graph"],
)
prop(
    "P27",
    "The textual report lists exactly the reachable modules, sorted",
    "The textual report has one line for each module or script node reachable from the roots, with its kind, name and file, in order of name, and no line for unreachable nodes or distributions.",
    ["programs"],
    "all graphs up to the stated number of nodes, edges and roots, with arbitrary names",
    "Tests report graphs of at most one node.",
    ["_modulegraph.py"],
    [("ModuleGraph.report", "_modulegraph.py")],
    ["text written by report"],
)
prop(
    "P28",
    "A name that resolves to another module becomes an alias of that module",
    "When the import system resolves a name to a module of a different name (an entry of sys.modules, a name below six.moves, a vendored package), the graph has an alias node for the imported name with an edge to the node of the actual module, which is processed like any other module and linked to its package. "
    "Importing several aliases of one module, or the module before or after its alias, yields one node for the actual module.",
    ["programs", "histories"],
    "all programs up to the stated bounds in which arbitrary names resolve to arbitrary other modules, in all orders",
    "Tests cover os.path, six and setuptools in one order.",
    ["_modulegraph.py", "_graphbuilder.py"],
    [("_load_module", "_modulegraph.py"), ("node_for_spec", "_graphbuilder.py")],
    ["alias nodes, actual nodes and edges"],
)
prop(
    "P29",
    "SWIG extension modules are found exactly when the SWIG pattern applies",
    "A missing top-level import of an underscore-prefixed module name is resolved to the extension module next to the importing module exactly when that name is the underscore-prefixed last component of the importer's name, the importer defines the SWIG helper function, and such an extension exists there. "
    "The extension then appears as a global module in the graph with an edge from the importer and is handled like any other module; in every other case the name is treated as missing, and no placeholder is left in the interpreter's module table. (With several importers of one missing name, the first decides.)",
    ["inputs", "fault_sequences"],
    "all importer names, kinds and global sets, missing names, and outcomes of the search for the extension, including failing package imports",
    "Tests build three fixed SWIG projects.",
    ["_swig_support.py"],
    [("swig_missing_hook", "_swig_support.py")],
    ["node for the missing name; sys.modules"],
)
prop(
    "P30",
    "Modules compiled with mypyc keep the dependencies of their sources",
    "An extension module (or extension package initialiser) that belongs to a distribution containing a mypyc helper module gets an edge to that helper and the edges for all imports in the Python source file next to it. "
    "Nothing is added when it has no distribution, the distribution has no helper, or no such source exists; a source that does not compile only adds the helper edge.",
    ["inputs", "programs"],
    "all extension nodes, distributions with arbitrary import names, presence and content of the source file up to the stated bounds",
    "Tests compile four fixed projects.",
    ["_mypyc_support.py"],
    [("mypyc_post_processing_hook", "_mypyc_support.py")],
    ["edges of extension-module nodes"],
)

if __name__ == "__main__":
    with open(os.path.join(HERE, "..", "properties.jsonl"), "w") as fp:
        for p in P:
            fp.write(json.dumps(p) + "\n")
    print(len(P), "properties")
