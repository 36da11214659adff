#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
P = []
def prop(id, title, statement, over, text, why, files, mech, technique, note, observe=(), state=()):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=list(over), text=text), why_tests_cant=why,
        anchors=dict(files=list(files), mechanism=[dict(name=n, where=w) for n, w in mech],
                     **({"observe_at": list(observe)} if observe else {}),
                     **({"state": list(state)} if state else {}), hook_needed=None),
        technique=technique, note=note))

V = "crates/rez-next-version/src/"
prop("C01", "Version comparison is one total order with the documented token rules",
     "Any two versions compare the same way from both sides, comparison is transitive, and versions that compare equal are equal and hash equally. Versions are compared token by token: digit runs by numeric value whatever their size or leading zeros, letters before digits, letters by character code, a mixed token segment by segment, and a missing trailing token as zero (so 1.0 equals 1.0.0, is below 1.0.1 and above 1.0.alpha). The empty version is below and the infinite version above every other version.",
     ["inputs"], "all triples of well-formed versions and all lists of them",
     "The tests compare a few dozen literal pairs; transitivity, hash agreement and large numbers quantify over all triples.",
     [V + "version.rs"], [("token comparison, equality and hash", V + "version.rs compare_rez/compare_single_token/Hash")],
     "property-based testing: reference comparator over generated version triples", "independent reference order; numbers to 42 digits, up to 5 tokens")
prop("C02", "Version text is accepted or rejected cleanly and never altered",
     "Parsing any text either fails or gives a version that prints as the trimmed input (the word epsilon as the empty text), reparses and deserialises to an equal version, and reports its token count and numeric components from that text. Up to five tokens of ASCII letters, digits and inner underscores, at most ten characters unless all digits, joined by single '.', '-' or '+' separators are accepted (except the reserved words not and version); text with an empty token, any other character inside, a token starting or ending with an underscore, or a leading v is rejected.",
     ["inputs"], "all strings", "Tests use hand-picked good and bad strings; the claim covers every string and must not crash on any.",
     [V + "version.rs"], [("validation and stored text", V + "version.rs parse")],
     "property-based testing: reference grammar plus text and serde round trips", "arbitrary, corrupted and well-formed text")
prop("C03", "A version range contains exactly the versions its bounds describe",
     "A range written with comma or space separated bounds (>=, >, <=, <, ==, !=, ~=, a bare version for equality, '*'), the forms 'a+', 'a+<b' and 'a..b', 'empty' or '!*' for nothing, empty text or '*' for everything, and '|' between alternatives contains a version exactly when some alternative has all of its bounds satisfied under version ordering. The range keeps its text, and parsing that text or loading the serialised range gives a range with the same members. Any other text is either rejected or handled without crashing.",
     ["inputs"], "all range expressions of the grammar and all versions", "Tests check single literals against single ranges; the claim is over the product of grammar and versions, boundaries included.",
     [V + "range/parser.rs", V + "range/types.rs", V + "range/mod.rs"], [("bound parsing", V + "range/parser.rs"), ("bound matching", V + "range/types.rs bound_matches")],
     "property-based testing: grammar generator with a reference membership evaluator", "probes at, just below and just above every bound")
prop("C04", "Range intersection, union, difference and subset agree with membership",
     "For any two ranges, the intersection contains exactly the versions in both, the union those in either, and the difference those in the first only; intersection and difference are absent exactly when no such version exists. The overlap test is true exactly when a common version exists, and the subset and superset tests exactly when no version contradicts them. Results can be combined further, and their text denotes the same set.",
     ["inputs", "histories"], "all pairs of ranges and all chains of set operations", "Tests check a handful of pairs; set laws quantify over all pairs, all versions and all chains.",
     [V + "range/mod.rs", V + "range/satisfiability.rs"], [("set operations", V + "range/mod.rs intersect/union/subtract/is_subset_of"), ("satisfiability", V + "range/satisfiability.rs")],
     "property-based testing: set semantics over generated ranges and operation chains", "membership at every mentioned version and in every gap between them")

R = "crates/rez-next-package/src/requirement/"
prop("C05", "A requirement is satisfied by exactly the versions its text describes",
     "A requirement text of any documented form (name, name==v, >=, >, <=, <, !=, ~=, comma lists of these, name==a.b.*, name-v, name-v+, name-v+<w, name-v+<=w, name-a..b, name-*) parses to the written package name and is satisfied by exactly the versions of that form: ordering operators compare at the depth of the written version (1.5.3 satisfies ==1.5 and <=1.5), name-v means v or any extension of it, ~= locks all but the last written token, != excludes the equal version. The solver's requirement type and the request type used by contexts give the same answer.",
     ["inputs"], "all requirement texts of the grammar against all versions", "Tests sample a few (requirement, version) pairs; the claim is over the product, boundaries included.",
     [R + "parser.rs", R + "types.rs", "crates/rez-next-package/src/package/requirement.rs"],
     [("parsing", R + "parser.rs parse_name_and_version/parse_rez_version_spec"), ("matching", R + "types.rs is_satisfied_by/check_constraint"), ("request matching", "crates/rez-next-package/src/package/requirement.rs satisfied_by")],
     "property-based testing: grammar generator with a reference evaluator, two implementations compared", "probes at, below, above and extending each mentioned version")
prop("C06", "Requirements keep every part through printing, parsing and serialisation",
     "A requirement with any combination of weak (~) or conflict (!) mark, namespace, version constraint, platform/arch condition and environment conditions parses to those parts, and printing then parsing it again, or serialising and loading it, yields a requirement with the same name, marks, satisfied versions, platforms and environments. Any other text is rejected or accepted with a valid package name (letters, digits, '_', '-', '.'), without crashing.",
     ["inputs"], "all requirements built from the documented parts, and all other strings", "Tests round-trip a few literals; part combinations and arbitrary text are unbounded.",
     [R + "parser.rs", R + "display.rs", R + "types.rs"], [("parsing", R + "parser.rs"), ("printing", R + "display.rs"), ("conditions", R + "types.rs is_platform_satisfied/is_env_satisfied")],
     "property-based testing: parse/print/serde round trips with semantic comparison, plus text fuzzing", "semantic equality over version probes, 12 platforms and 27 environments")
S = "crates/rez-next-solver/src/"
prop("C07", "A solve returns a consistent package set, and finds one whenever one exists",
     "A successful strict solve selects at most one version of each package, all from the repositories, such that every request and every requirement of every selected package and of its selected variant is met: plain requirements are present and satisfied, weak ones (~) satisfied if present, conflicts (!) absent; no package is selected that nothing requires, no prerelease unless allowed, and no dependency cycle. A strict solve fails only if no such selection exists, and always ends. Each selected package says truthfully whether it was requested and which selected packages require it. A lenient solve lists the unmet plain requirements as failed.",
     ["inputs", "histories"], "all repositories and request lists (requires, variants, weak and conflict requirements, cyclic families)",
     "Tests solve a few hand-written repositories; consistency and completeness quantify over all repositories and all backtracking paths.",
     [S + "dependency_resolver.rs", S + "resolution_state.rs"], [("candidate selection, variants and backtracking", S + "dependency_resolver.rs"), ("active constraints, orphans, cycles", S + "resolution_state.rs")],
     "property-based testing: generated repositories, validity oracle plus exhaustive reference search", "up to 6 families, 4 versions each, 3 variants; completeness within the solver's max_attempts (20000 in the check)")
prop("C08", "Solves are repeatable, prefer the newest versions and honour the whole request",
     "Solving the same request gives the same selection (packages, variants, order and failed requirements) every time and in whatever order the repository lists its packages. When the newest admissible version of every reached package works together, exactly those are selected (the oldest when latest is not preferred); prereleases only when allowed. In a complete selection that settles without revising, every package is the preferred one among those that satisfy everything the selection asks of it, a variant that can be satisfied is taken over one that cannot, and requests that differ only in text (name-1 and name-1.0) are all honoured. A solver request's constraints restrict packages without adding them and its excluded packages never appear.",
     ["inputs", "schedules"], "all repositories, request lists, listing orders and hash orders", "Preference and order independence are relations over all repositories; tests check single examples.",
     [S + "dependency_resolver.rs", S + "resolution_state.rs", S + "solver.rs"], [("candidate order", S + "dependency_resolver.rs filter_and_sort_candidates"), ("request conversion", S + "solver.rs resolve")],
     "property-based testing: reference preference model and metamorphic reordering", "up to 6 families; preference judged where no choice needs revising")
prop("C09", "The dependency graph stays consistent under any sequence of edits",
     "After any sequence of adding and re-adding packages, adding edges, removing packages, excluding names and clearing, the graph holds exactly the packages and edges that were accepted: an edge between unknown packages is refused and changes nothing, re-adding a package keeps its edges, removing one removes its edges, excluded names are refused. Reachability is the transitive closure, a cycle is reported exactly when one exists (and is a real cycle), packages are ordered dependents first or an error is given when there is a cycle, and the statistics count nodes, edges and the longest chain. A conflict is reported exactly for a family whose requests share no version, naming the requests and the packages that made them; settling a family keeps its latest or earliest plain version, or fails when there is none that fits.",
     ["histories"], "all operation sequences", "Tests build a few fixed graphs; consistency is an invariant over all edit histories.",
     [S + "graph.rs"], [("edges and ordering", S + "graph.rs add_dependency_edge/remove_package/topological_sort"), ("closure and cycles", S + "graph.rs accessibility/find_cycle")],
     "stateful property-based testing against a set-of-edges model", "8 packages, up to 48 operations, compared after every step")
RP = "crates/rez-next-repository/src/"
prop("C10", "Package repositories offer exactly the packages on disk, nearest first",
     "Querying a list of repositories gives exactly the package directories with a readable package.py (a family directory that holds one itself is a package without a version) that no .ignore marker hides: families are listed sorted and once, a family's packages come newest first with equal versions in repository order, a specific version comes from the first repository that has it, and the latest is the newest anywhere. Each package carries its descriptor path and contents. Only package.py describes a package, and the marker of one version hides no other. A family with an unreadable descriptor is reported as an error every time it is looked up, and a solve that needs it fails. Answers do not depend on earlier queries, and a solve over disk equals the solve over the same packages in memory.",
     ["inputs", "histories"], "all repository trees and query sequences", "Tests use single fixed trees; the claim ranges over trees, repository order and query order.",
     [RP + "simple_repository.rs"], [("scan and cache", RP + "simple_repository.rs scan_directory/find_packages"), ("merging", RP + "simple_repository.rs RepositoryManager")],
     "property-based testing: generated directory trees against a listing model", "up to 3 repositories with 9 packages each")
prop("C11", "Package lifecycle operations do what they report and stay inside the repository",
     "Ignoring, unignoring, removing a version, removing a family and purging ignored versions change exactly the named package (marker or payload) and return what they did: ignore 1 new, 0 already, -1 missing; unignore 1, 0 or -1; remove whether it existed; a family with packages is kept unless forced; a purge returns how many were removed and its dry run returns the same number and changes nothing. Ignored versions are not listed. A read-only repository refuses every change. No name or version (empty, '.', '..', containing a separator, absolute) reads, creates or deletes anything outside its own place in the repository.",
     ["histories", "inputs"], "all sequences of lifecycle calls with arbitrary names and versions", "Tests exercise each call once; the claim is over histories and hostile names.",
     [RP + "package_repository/filesystem.rs"], [("lifecycle", RP + "package_repository/filesystem.rs ignore_package/remove_package/remove_ignored_since"), ("name validation", RP + "package_repository/filesystem.rs validate_component")],
     "stateful property-based testing against a file-tree model with full tree snapshots", "up to 14 calls; hostile names stay within a deep scratch directory", state=["<family>/.ignore<version> markers"])
prop("C12", "Copying, moving and removing packages never loses or touches anything else",
     "A package copy makes the destination directory (destination/name/version) an exact copy of the first matching package in the search paths, which may repeat or lie within each other (files, empty directories, symbolic links) and changes nothing else; an existing destination is replaced only with force, and copying or moving onto, into or around the source is refused. A move also removes exactly the copied source unless told to keep it. A removal removes exactly the listed directories of the named version or family, its preview lists the same, and without force nothing is removed. Counts of files, bytes and versions are true. Names or versions that are not a single path component are refused. The commands cp, mv and rm act on the visible package asked for (newest version when none is given), a dry run changes nothing, rm --interactive removes only what was confirmed and reports how many, and rm --ignored-since removes only ignored packages.",
     ["inputs", "histories"], "all repository contents, call sequences, overlapping locations and hostile names",
     "Tests copy, move and remove one package in one repository; overlap of search paths, destination and source is combinatorial.",
     ["crates/rez-next-package/src/package_copy.rs", "crates/rez-next-package/src/package_move.rs", "crates/rez-next-package/src/package_remove.rs", "src/cli/commands/cp.rs", "src/cli/commands/mv.rs", "src/cli/commands/rm.rs"],
     [("copy", "crates/rez-next-package/src/package_copy.rs copy_package/copy_package_dir"), ("move", "crates/rez-next-package/src/package_move.rs move_package"), ("remove and preview", "crates/rez-next-package/src/package_remove.rs"), ("commands", "src/cli/commands/{cp,mv,rm}.rs")],
     "property-based testing: stateful call sequences and real commands against a file tree model", "whole scratch tree compared with the model after every call; hostile names stay inside a deep scratch directory")
PC = "crates/rez-next-package/src/package_cache.rs"
prop("C13", "The payload cache hands out only complete copies of the variant asked for",
     "A package variant added to the payload cache is copied once into a place of its own, and until it is removed or cleaned every lookup of that exact handle (name, version, index, attributes) reports it found at that place, holding exactly the files it had when it was added, whatever other handles are added, whichever threads add at once, and after reopening. A failed or interrupted copy, a lost payload or garbled metadata is never reported as found and never blocks or damages other entries: a copy in progress or stalled is reported as such and a stalled one is removed by clean. Clean removes exactly the entries not accessed for longer than the maximum age and reports the bytes it freed; an addition that breaks the size or free-space limit is skipped unless forced. Nothing outside the cache directory is changed by any name or version.",
     ["histories", "crashes", "schedules", "inputs"], "all sequences and interleavings of cache calls, with damage left by crashes in between",
     "Tests add, find and remove one entry; hash collisions of handles, leftovers of crashes and concurrent additions need histories and schedules.",
     [PC], [("handles and increments", PC + " VariantHandle/next_increment"), ("copy with flag and metadata", PC + " add_variant"), ("status and cleaning", PC + " get_cached_root/clean")],
     "stateful property-based testing with injected damage against a model, plus concurrent generated schedules", "up to 16 calls over a few handles; 2-4 threads in the concurrent part", state=["<name>/<version>/<hash>/<increment>[.json], .copying-* flags"])
prop("C14", "A package.py is read as Python would execute it, or refused",
     "For every package.py, either loading refuses it or every field of the resulting package (name, version, texts, lists, requirements, variants, tests, flags, format version) equals the value Python leaves in that name, and the environment actions of commands, pre_commands, post_commands and pre_test_commands are exactly the calls Python makes with exactly those argument texts, in order, taking the branches Python takes. This covers string, integer, float and boolean expressions, +, -, *, repetition, chained comparisons, and/or/not, conditional expressions, str.format and lower, lists, tuples, dictionaries, if statements, variables, this.name and this.version parts, os.getenv and any text inside literals (quotes, backslashes, newlines, non-ASCII). Well-typed uses of these are accepted. No input makes loading panic.",
     ["inputs"], "all package.py texts from the generator's grammar",
     "Tests load a few fixed files; agreement with Python must hold for every combination of nested expressions, text escapes, conditions and statement order.",
     ["crates/rez-next-package/src/python_ast_parser", "crates/rez-next-rex/src/parser.rs"], [("expressions", "python_ast_parser/eval.rs"), ("fields and statement order", "python_ast_parser/mod.rs, extract.rs"), ("command functions", "python_ast_parser/commands.rs, rez-next-rex RexParser")],
     "grammar-based generation with the Python interpreter as differential oracle", "files of up to about 12 statements and 3 command functions, expressions of depth 2")
prop("C15", "Package commands build exactly the environment they describe",
     "Resolving packages in order gives an environment that starts from the inherited variables (none lost, whatever their bytes), runs every package's pre_commands, then every package's commands, then every package's post_commands, and applies each action as documented: set, unset, prepend and append to a path with the platform separator, set only when unset or empty, reset to the inherited value, alias, command, source, info, error, and stop, which ends everything that would follow. In each text every {token} and $VARIABLE reference is replaced once, by the package's own name, version, version parts, root and base or by the variable's current value; references to nothing known stay as written and replaced text is not replaced again. One package's tokens never reach another package. NAME_ROOT and NAME_VERSION are set for each package, tool directories join PATH according to the path strategy, configured extra and unset variables apply last, and PATH keeps the first of equal entries in order.",
     ["inputs", "histories"], "all inherited environments, package lists and action sequences",
     "Tests run one or two actions on one package; ordering across packages and phases, nested references and unusual values need sequences.",
     ["crates/rez-next-rex/src/executor.rs", "crates/rez-next-context/src/environment.rs"], [("actions and expansion", "rez-next-rex executor.rs RexExecutor"), ("phases, package variables and PATH", "rez-next-context environment.rs EnvironmentManager")],
     "model-based property testing over generated packages and action sequences", "up to 4 packages, 3 phases, about 8 actions each")
prop("C16", "Scripts and processes get exactly the resolved environment",
     "A script generated for bash, fish, PowerShell or cmd from an environment sets every variable and alias to exactly its text, whatever quotes, dollar signs, backquotes, backslashes, percent signs or newlines it holds, runs nothing hidden in such text, and runs the recorded source, command and info actions. A command started in an environment by the shell executor, the context executor or the env command sees exactly those variables (plus inherited ones when asked for, none that the packages unset), receives its arguments unchanged, alone or in a batch, and its output and exit status are returned unchanged; the name of an alias given as the command runs that alias; a command that outlives its timeout is reported and ended, and no temporary files stay behind. The env command prints the environment as shell, JSON or Python text that reads back to the same values.",
     ["inputs", "schedules"], "all environments, aliases, arguments and exit statuses",
     "Tests look for substrings of scripts built from plain words; the claim is over every text and needs a shell to run the result.",
     ["crates/rez-next-rex/src/shell.rs", "crates/rez-next-context/src/environment.rs", "crates/rez-next-context/src/shell.rs", "crates/rez-next-context/src/execution.rs", "src/cli/commands/env.rs"], [("script generation", "rez-next-rex shell.rs, rez-next-context environment.rs generate_shell_script"), ("execution", "rez-next-context shell.rs ShellExecutor, env.rs execute_shell_command_in_environment")],
     "property-based testing: generated environments run in bash and read back; quoting models for other shells", "fish, PowerShell and cmd are not installed, their scripts are judged by models of their quoting rules")
prop("C17", "Package definitions survive being written and read in every format",
     "A package written as package.py, YAML, JSON, XML, the compressed forms or the binary form, with any options that keep its fields, and read back has the same name, version, requirements, variants, tools, commands, tests, flags, release data and every other field the format carries, whatever quotes, backslashes, newlines, indentation, YAML or XML markup or control characters its texts hold; what is written as package.py is Python that Python itself reads to the same values. Reading a YAML or JSON document gives each field exactly the document's value, ignores unknown keys, and refuses a document whose field has the wrong type or that has no name. Attribute code written for any dictionary is Python that evaluates to that dictionary. Damaged documents are refused or read, never a crash.",
     ["inputs"], "all packages, documents and formats",
     "Tests write one small package per format and look at a few fields; the claim is over every field and every text.",
     ["crates/rez-next-package/src/serialization/save.rs", "crates/rez-next-package/src/serialization/load.rs", "crates/rez-next-package/src/package/methods.rs", "crates/rez-next-package/src/package/serialize.rs", "crates/rez-next-serialise/src/package_serialise.rs"], [("writing", "serialization/save.rs, package/methods.rs render_package_py"), ("reading", "serialization/load.rs")],
     "property-based testing: round trips through every format, field-by-field document reading, and Python as differential oracle", "XML carries a subset of fields by design; U+2028/U+0085 are excluded (YAML library limitation)")
prop("C18", "A saved context is the context that was resolved",
     "A resolved context saved as .rxt or .rxtb, as text, or exported as YAML and loaded again has the same identity, requests, packages (with all their fields and locations), environment, metadata, status and configuration; a file cut anywhere is refused, by loading and by validation. A context built from requests, packages and an environment has exactly those, and its summary and tools describe them. A context is valid exactly when each request holds for its packages: an ordinary request needs its package in the requested range, a weak one only if the package is present, an excluding one needs it absent or outside the range. The context command reports, for a context saved by env and whatever happened to the repository since, the requests, the packages with version and root in resolve order, the tools and where they are (the first on PATH when several packages provide one), the dependency graph with exactly one node per package and one edge per requirement on another resolved package, and code or JSON that sets exactly the variables the packages set; it refuses damaged and missing files.",
     ["inputs", "histories"], "all contexts, formats, cut points, repositories and later changes to them",
     "Tests save small contexts without locations and check a field or two; nothing runs a saved context after its repository changed.",
     ["crates/rez-next-context/src/context.rs", "crates/rez-next-context/src/serialization.rs", "crates/rez-next-context/src/resolved_context.rs", "src/cli/commands/context.rs", "src/cli/commands/env.rs"], [("serialization", "rez-next-context serialization.rs ContextSerializer, context.rs located_packages"), ("reporting", "src/cli/commands/context.rs")],
     "property-based testing: round trips, a reference model of requests, and end-to-end runs of env and context against the environment model", "variables that packages unset are not part of the printed code")
prop("C19", "A suite exposes exactly the tools its contexts and settings say",
     "After any history of adding and removing contexts, aliasing, hiding, prefixing, prioritising and disabling, with saves and reloads in between, a suite lists its contexts in the order they were added, with everything that was set on them, and exposes exactly the visible aliases of its enabled contexts under their prefixed names. Where two contexts offer one name: error mode refuses, first and last keep the context with the highest priority (then the earliest, or the latest), and prefix mode renames the lesser ones and never drops one silently. Operations on unknown contexts, duplicate or invalid names and unknown conflict modes are refused and change nothing; creating a suite never replaces one. Suites are found on every search path, the first path winning, and damaged suite files are refused; optional fields missing from one take their defaults.",
     ["inputs", "histories"], "all operation histories, conflict modes, priorities, search paths and suite files",
     "Tests build one or two contexts with one alias; conflicts, priorities and reloads are not combined.",
     ["crates/rez-next-suites/src/suite.rs", "crates/rez-next-suites/src/suite_manager.rs", "src/cli/commands/suites.rs"], [("tools", "suite.rs Suite::get_tools"), ("files", "suite.rs save/load; suite_manager.rs find_suites/load_suite"), ("command line", "src/cli/commands/suites.rs")],
     "stateful property-based testing against a reference model, through the library and the command line", "wrapper scripts of a suite are not covered")
prop("C20", "Package filters and package orders mean exactly what their rules say",
     "A filter keeps a package exactly when no exclusion matches it, or an inclusion does, as documented; glob rules treat every character except * and ? (and bracket sets where documented) literally and match the whole text, regular expression rules match as the regex does, range rules match packages of their family whose version lies in the range, and timestamp rules compare the package's timestamp with the boundary. Rules of a named family apply to that family alone. A filter written out and read back (pod, JSON, rule text) keeps the same packages. An order returns the same packages, each once: sorted puts versions in ascending or descending version order, version split puts those up to the split first, per-family orders apply to their family or the default, and timestamp orders prefer packages at or before the time; an order written to a pod and read back orders the same way.",
     ["inputs"], "all packages, rule texts, patterns, ranges, timestamps and nested filters and orders",
     "Tests use a few names without special characters and versions that sort the same as text.",
     ["crates/rez-next-package-filter/src/filter.rs", "crates/rez-next-package-filter/src/rule.rs", "crates/rez-next-package/src/filter.rs", "crates/rez-next-package/src/package_order.rs"], [("filter", "filter.rs PackageFilter::excludes, PackageFilterList"), ("rules", "rule.rs and filter.rs rules, to_pod/from_pod"), ("orders", "package_order.rs reorder, to_pod/from_pod")],
     "property-based testing against a reference matcher, with pod round trips", "a range rule on a package without a version is left unspecified")
prop("C21", "Settings come from the named sources, in order, and nothing else changes",
     "The settings in force are the defaults, overridden field by field by the first configuration file that exists and is a configuration: the files of REZ_CONFIG_FILE in the order listed, then the standard places; then by the documented environment variables. A file that sets a few fields leaves every other at its default, in YAML and JSON alike; a missing, unreadable or malformed file is passed over; paths with ~ are expanded wherever a command uses them. The config command prints exactly those settings and the file they come from. Layered configuration (rez-next-config) merges tables key by key with later files and then REZ_ variables winning, in a fixed order, whatever else is in the environment, non-UTF-8 included.",
     ["inputs"], "all sets of configuration files, contents, formats and environments",
     "Tests write complete files and look at one field.",
     ["crates/rez-next-common/src/config.rs", "crates/rez-next-config/src/lib.rs", "src/cli/commands/config.rs", "src/cli/commands/plugins.rs"], [("files", "rez-next-common config.rs load, get_config_paths, load_from_file"), ("layers", "rez-next-config lib.rs merge and environment overrides"), ("command", "src/cli/commands/config.rs")],
     "property-based testing against a reference model of the sources, in child processes with generated homes and environments", "Unix path lists only")
prop("C22", "Searches and reverse dependencies find exactly the packages that qualify",
     "A search returns every package of the repositories searched that matches the pattern (exact, prefix, contains, glob or regex; case only where asked), the text fields, requirement, tool, version range, date and latest-only conditions given, and no other, in the order asked for (versions as versions, never as text), cut to the limit after sorting; an invalid regex, range or date is refused. depends lists, layer by layer and each family once, exactly the families whose latest version needs (or, with the flags, builds with or privately builds with) a family of the layer before, conflicts and weak references as documented, down to the depth asked, with the edges between them; plugins are exactly the packages that declare plugin_for the package. Hidden directories and other repositories contribute nothing.",
     ["inputs"], "all repositories, patterns, filters, sort orders, limits, depths and roots",
     "Tests search one or two packages; substring collisions, several versions and limits are not combined.",
     ["crates/rez-next-search/src/searcher.rs", "crates/rez-next-repository/src/package_search.rs", "src/cli/commands/search_v2", "src/cli/commands/depends.rs"], [("library", "searcher.rs PackageSearcher; package_search.rs get_reverse_dependency_tree, get_plugins"), ("search", "search_v2 matcher.rs, filter.rs, display.rs"), ("depends", "src/cli/commands/depends.rs")],
     "property-based testing of generated repositories against a reference search, through the library and the command line", "output layout is read only as far as it lists packages")
prop("C23", "env and solve select, activate and report one valid resolution",
     "env and solve look at the packages of the paths given by option, environment variable or configuration, in that order of precedence and, where two paths hold the same version, at the copy on the earlier path; missing paths, hidden copies and (with --no-local) the local repository contribute nothing. The selection satisfies every request and requirement, prefers the newest versions where they do, and the command fails, running nothing and leaving no files behind, exactly when there is none or a request is malformed. A command given to env runs exactly once, in an environment where exactly the selected packages are activated, each from its own directory and variant; --print-resolve, --print-env, REZ_USED_RESOLVE and the output of solve name the same packages and versions; solve --format json is JSON, in which requested marks the requested families and required_by lists the selected packages that require the package. Without --strict, solve lists what it could not satisfy.",
     ["inputs"], "all repositories, search paths, requests and options",
     "Tests run env and solve on one to three packages in one repository and look for a word in the output.",
     ["src/cli/commands/env.rs", "src/cli/commands/solve.rs", "crates/rez-next-solver/src/dependency_resolver.rs", "crates/rez-next-repository/src/simple_repository.rs"], [("env", "src/cli/commands/env.rs resolve_environment, execute_in_context"), ("solve", "src/cli/commands/solve.rs; dependency_resolver.rs resolve")],
     "property-based testing of the command line program on generated repositories against a brute-force solver and the executed shell's environment", "shells other than bash and sh are not run")
prop("C24", "view, diff, status and completion report the packages that exist",
     "view NAME shows the newest visible version (view NAME-VERSION that version) with every attribute it was defined with, in the chosen format: YAML and Python output read back as the same values, whatever characters they hold. diff compares the two packages named (without a second one: with the next older version) and reports exactly the requirements, variants, tools and authors that were added or removed; as JSON it is valid JSON. status counts and lists exactly the visible families and versions of the configured paths with the newest version as latest (status --repos counts directories), and missing paths are no error. complete offers exactly the sub-commands, families and versions that start with the word at the cursor, sorted and without repetition, and never fails whatever the line and the cursor position.",
     ["inputs"], "all repositories, package attributes, command lines and cursor positions",
     "Tests check that the commands succeed or print a word.",
     ["src/cli/commands/view.rs", "src/cli/commands/diff.rs", "src/cli/commands/status.rs", "src/cli/commands/complete.rs"], [("view", "src/cli/commands/view.rs"), ("reports", "src/cli/commands/diff.rs, status.rs, complete.rs, view.rs")],
     "property-based testing of the command line program on generated repositories; YAML, JSON and Python readers on the output against the generated definitions", "status --repos counts directories, as existing tests demand; that figure is not claimed")
prop("C25", "A bundle holds the resolved packages, complete, and stands on its own",
     "bundle REQUESTS puts into the destination exactly the packages that the requests resolve to, each with all the files of the copy that was resolved (bytes, modes of files, links as links, variants), replacing an older bundle's copy and leaving the repositories as they were; bundle.json and bundle.yaml are readable and list the requests and the packages with their versions as text; if a package cannot be copied the command fails. With the repositories gone, context.rxt activates every package from the bundle, and activate.sh sourced in bash from any directory sets the package roots and makes the tools of the bundle runnable, in front of the caller's own PATH. Requests without a solution give a bundle without packages.",
     ["inputs"], "all repositories, package trees, requests, destinations and earlier content",
     "Tests bundle packages that do not exist and look for bundle.yaml.",
     ["src/cli/commands/bundle.rs", "crates/rez-next-package/src/package_copy.rs"], [("bundle", "src/cli/commands/bundle.rs")],
     "property-based testing of the command line program: tree comparison with the resolved copies, then context.rxt and activate.sh used with the sources gone", "activation is run in bash only")
prop("C26", "A build succeeds only as a whole and installs exactly the package",
     "build exits with success exactly when every step of every selected variant, and its package tests when they were asked for, succeeded, and goes no further than the first failure. Each step runs in the source directory and sees the documented REZ_BUILD_ values (project, variant, requirements, install flag and paths), the environment of the dependencies its requirements resolve to, the definition's build command with its placeholders replaced, and nothing of the caller's own variables. What is installed is exactly the package's source files (without version control, build output and cache directories at the top level) or what the build command or script made, each variant in prefix/name/version/<its requirements>, together with the definition as written, so that an environment with that package finds it. Source files, other packages and the repositories used are left as they were, also on a repeated build and when source or prefix contain each other. A build whose requirements cannot be met or none of whose selected variants exists runs and installs nothing. Packages with hashed variants are outside this claim.",
     ["inputs", "histories", "crashes"], "all packages, source trees, variants, build kinds, failing steps and locations",
     "Tests build one package without requirements or variants through the library and look at the status.",
     ["crates/rez-next-build/src/builder.rs", "crates/rez-next-build/src/environment.rs", "crates/rez-next-build/src/process.rs", "crates/rez-next-build/src/systems/custom.rs", "src/cli/commands/build.rs"],
     [("steps and installation", "crates/rez-next-build/src/process.rs, systems/custom.rs"), ("build environment", "crates/rez-next-build/src/environment.rs"), ("command", "src/cli/commands/build.rs")],
     "property-based testing of the command line program with failures injected at each build step: recorded steps and environments, tree comparison, then env on the result", "build scripts are sh scripts; cmake, make, node, cargo and python builds only share the common part", state=["<source>/.rez_build", "<prefix>/<name>/<version>"])
prop("C27", "A release is tagged and published only as a whole, from a clean repository",
     "release changes nothing anywhere (no reference, file or build output) and fails when the package is not under git, the state of the repository cannot be read or has uncommitted changes (unless repository errors are skipped), the tag name-version already exists locally (unless that is explicitly allowed, and then the existing tag is kept), a selected variant does not exist or the message file cannot be read; a dry run makes the same checks and changes nothing. When the build, its tests or the push fails, the command fails and leaves no new tag locally or on the remote. When it succeeds there is an annotated tag name-version at the current commit with the given message, the same on the remote, every other reference, the commit checked out and the sources are as before, and the release path holds exactly the selected variants' files and the definition, with other released packages untouched.",
     ["inputs", "histories", "crashes"], "all package definitions, repository states, remotes, messages, options and failing steps",
     "The tests only parse the options; releasing needs repositories in many states and failing remotes.",
     ["src/cli/commands/release.rs"],
     [("checks and order of steps", "src/cli/commands/release.rs"), ("build", "crates/rez-next-build/src/process.rs")],
     "property-based testing of the command line program on generated git repositories and remotes with failures injected at build, test and push; snapshots of references and trees", "local bare repository as the remote; git only", state=["git references", "<release path>/<name>/<version>"])
prop("C28", "test runs exactly the tests asked for, of the right package, in its environment",
     "test takes the package in the named directory, else the one in the working directory when it satisfies the request, else the newest visible package satisfying the request in the search paths (those given first, then the configured ones, local ones only when allowed) whose environment resolves together with the extra packages. It runs exactly the requested tests (names or whole-name * patterns, all when none is named), each once, in the order asked for (those of a pattern, or all, by name), in the package's directory within the resolved environment followed by the pre-test commands, the caller's variables inherited and {root} replaced. The exit status is that of the first failing test, stop-on-fail runs nothing after it, listing and dry run run nothing, and the counts in the summary are true. When no package satisfies the request or nothing resolves the command fails and nothing runs; in place, tests run only when the current environment holds a matching version.",
     ["inputs", "histories"], "all repositories, working directories, requests, test tables, patterns and outcomes",
     "Tests call helper functions on fixed definitions; which package and which tests are run depends on the whole set of repositories and options.",
     ["src/cli/commands/test.rs"],
     [("package selection", "src/cli/commands/test.rs"), ("environment", "crates/rez-next-rex/src/executor.rs")],
     "property-based testing of the command line program: tests record what they see, compared with a model of selection, order and outcome", "sh test commands; up to 5 tests a package")
prop("C29", "bind makes a package of exactly the tool that is on the system, or fails",
     "bind NAME writes one package, in NAME/VERSION of the chosen install path (the one given, else the local one, or the release path), whose definition reads back with that name, the version the tool itself reports, its tools and its requirements, and whose environment runs exactly the program that was found on PATH, whatever characters its directory holds. Unless told not to, it binds the packages that one requires in the same way; one that cannot be bound is only a warning. A tool that is missing, fails, reports no version or has a version outside the one asked for, and a name that is not a known tool, make the command fail and write nothing; searching writes nothing. The binding library does the same for any tool name: a name or version that is not a single directory name is refused, an existing package is replaced only with force, extra metadata reads back as given, and nothing outside the package's directory changes.",
     ["inputs"], "all sets of installed tools, their directories, version outputs, requests and options",
     "Tests call the helpers on fixed output lines or bind whatever the machine has; which program and version are bound depends on the whole PATH.",
     ["src/cli/commands/bind/mod.rs", "crates/rez-next-bind/src/binder.rs"],
     [("detection", "src/cli/commands/bind/detect.rs"), ("definition", "src/cli/commands/bind/package_gen.rs"), ("library", "crates/rez-next-bind/src/binder.rs"), ("library detection", "crates/rez-next-bind/src/detect.rs")],
     "property-based testing of the command line program and the library against fake tools on PATH, with a model of detection; the bound tool is run in the resolved environment", "Unix; directories without braces or dollar signs; quickstart and setuptools not generated")
#--END--
man = dict(version=1, setup_cmd="bash /verif/run.sh build", checks=[], not_applicable=[],
    hooks=dict(guard="none", enable="no hooks are used", source_commits=[]),
    notes="Every check is a subcommand of the harness crate in /verif/harness; run.sh builds it from /repo's working tree.")
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P:
        q = {k: v for k, v in p.items() if k not in ("technique", "note")}
        f.write(json.dumps(q, ensure_ascii=False) + "\n")
        man["checks"].append(dict(property=p["id"], quick_cmd=f"bash /verif/run.sh {p['id']} quick",
            thorough_cmd=f"bash /verif/run.sh {p['id']} thorough", technique=p["technique"], level="exploration",
            level_note=p["note"] + "; seeded search, no claim of absence"))
json.dump(man, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
