from ._base import prop

PE = ("partial evaluation of the source: constant propagation through the call graph with symbolic operands for what the environment decides, every branch on a "
      "symbol followed both ways; results compared with an independent oracle")
PN = ("Decided from the source on every run, nothing of the repository is executed. Covers every outcome of the symbolic parts on the enumerated inputs; "
      "a path that depends on something not modelled is undecided and listed, not reported.")

DEP, RRD, RWD = "parser/dependency.py", "parser/recipe_reader_deps.py", "parser/recipe_parser_deps.py"
RR = "parser/recipe_reader.py"

prop("P06", "Every dependency of a recipe is listed once, where and what it is",
     "get_all_dependencies lists, under the package that needs it, every dependency of every recognised section under /requirements (top level and outputs) once, "
     "with its path, section, text stripped of blanks, and selector if it has one; empty entries, empty sections and unrecognised sections are skipped. The "
     "dependencies of the top-level package also belong to every output. get_package_names_to_path names every package once with its path; a missing name raises "
     "KeyError and a repeated one ValueError. get_dependency_paths lists the path of every entry of the build, host, run and run-constraint sections.",
     ["inputs"], "recipes of both formats with any mix of sections, empty entries, outputs, selectors and package names",
     "Sections, entries, outputs and formats multiply; the tests read a few fixed recipes.",
     [RRD, RR, DEP], [("get_all_dependencies, get_package_names_to_path", RRD), ("get_dependency_paths", RR)], technique=PE, level_note=PN)
prop("P07", "Dependency sections keep their names in both recipe formats",
     "dependency_section_to_str gives every section its name in the format asked for (build, host, run, run_exports, run_constrained in V0 and run_constraints in V1; "
     "requires for tests); no two sections of a format share a name. str_to_dependency_section recognises each of these names, of either format, ignoring case and "
     "surrounding blanks, as that section, and any other text as none.",
     ["inputs"], "every section in every format, every spelling of its name, and other words",
     "The existing tests sample names; a name that is wrong in one format silently drops dependencies.",
     [DEP], [("dependency_section_to_str, str_to_dependency_section", DEP)], technique=PE, level_note=PN)
prop("P08", "Reading a dependency never fails and never loses its text",
     "dependency_data_from_str keeps a text with a Jinja substitution, in either format, as a DependencyVariable without asking MatchSpec; it makes any other text the "
     "MatchSpec of that whole text, or a DependencyVariable if MatchSpec rejects it with ValueError or InvalidMatchSpec; it does not raise. "
     "dependency_data_render_as_str gives back the text that was read. Two DependencyVariables are equal exactly if their texts are, and then have the same hash.",
     ["inputs", "fault_sequences"], "dependency texts with and without substitutions, MatchSpec accepting or rejecting them",
     "Whether MatchSpec rejects a text depends on the installed conda; tests use texts it treats in one way.",
     [DEP], [("dependency_data_from_str, dependency_data_render_as_str, DependencyVariable", DEP)], technique=PE, level_note=PN)
prop("P12", "Selectors mean what their expression says, for every platform",
     "In a selector, not binds tighter than and, and and tighter than or; they are complement, intersection and union of sets of platforms. A known operating system, "
     "architecture or platform name, in any case, is its set of platforms; any other word selects none. Parsing, evaluating and rendering never raise for any "
     "sequence of words. V0 brackets do not change the meaning and V0 selectors render with them; V1 selectors render verbatim. A selector applies to a query "
     "without a platform, and to one with a platform exactly if it selects that platform.",
     ["inputs"], "expressions over all operators, every known word, unknown words and malformed sequences; every platform",
     "The tests fix about forty expressions; precedence and malformed input need all shapes.",
     ["parser/selector_parser.py", "parser/selector_query.py", "parser/platform_types.py"], [("SelectorParser", "parser/selector_parser.py")],
     technique=PE, level_note=PN)
prop("P14", "Platform qualifiers stand for exactly the platforms they name",
     "get_platforms_by_os, get_platforms_by_arch and the Unix qualifier give exactly the platforms whose conda subdirectory names say so (linux-*, osx-*, win-*; unix is "
     "linux and osx; x86 is *-32 and *-64, arm64 is *-arm64, any other architecture its own suffix). As text they are recognised ignoring case and surrounding blanks; any "
     "other text stands for no platform. Every ALL_* table holds every member of its enumeration.",
     ["inputs"], "every operating system, architecture and platform; every spelling; unknown words",
     "A platform missing from one set shows only for recipes with a selector for it.",
     ["parser/platform_types.py"], [("platform tables and queries", "parser/platform_types.py")], technique=PE, level_note=PN)
prop("P15", "Adding and removing dependencies touches only what it should",
     "add_dependency applies one patch: REPLACE replaces the first dependency of the same name in the section, or appends; IGNORE changes nothing and gives False if there is one, "
     "or appends; USE_BOTH appends; EXACT_POSITION replaces what is at the path. A section that does not exist is created, with the dependency as its only entry, only if its "
     "parent exists. For a path that is not a dependency position nothing changes and the result is False; otherwise it is the result of the patch. The selector is "
     "put on the dependency just added, in the mode asked for, only after the patch succeeded; the selector of a replaced dependency survives unless the mode is REPLACE. "
     "remove_dependency removes exactly the dependency's path.",
     ["inputs", "histories"], "all modes, with and without selectors, on sections with, without and with several dependencies of the same name, empty entries and missing sections",
     "Tests try some combinations of mode, selector and position; the guarantee is about all.",
     [RWD, RRD], [("add_dependency, remove_dependency", RWD)], technique=PE, level_note=PN)
prop("S01", "Licence correction only ever gives valid SPDX identifiers, never guesses",
     "find_closest_license_match gives None, an identifier of the SPDX data, or NOASSERTION. An exact identifier is returned as it is. Any other text that contains an "
     "operator (AND, OR, WITH, in any case) or a comma gives None, never one of its parts. A match by close identifier or name gives the identifier of that very licence, "
     "and no match None. A fixed correction applies ignoring case and surrounding blanks and names an identifier or NOASSERTION.",
     ["inputs"], "any licence text, any SPDX data and any answer of the close-match search",
     "The tests sample a dozen licence names; the guarantee must hold for whatever the close-match search answers.",
     ["licenses/spdx_utils.py"], [("SpdxUtils.find_closest_license_match", "licenses/spdx_utils.py")], technique=PE, level_note=PN)
prop("S02", "Dependency scanners find all third-party imports and nothing else",
     "The Python scanner reports every absolute import (import and from, anywhere in a file) of a module outside the standard library and outside the project, under its "
     "package name, and nothing else: as a test dependency if only test files (test_*.py, *_test.py) import it, else a run dependency; python is a host and run dependency. "
     "A file that cannot be read or parsed gives a message and does not affect others. The pyproject scanner reports project.dependencies as run dependencies "
     "and every optional dependency as run constraint; a missing, undecodable, malformed or project-less file gives a message and no dependencies. Neither raises.",
     ["inputs", "fault_sequences"], "source trees with any mix of import forms, files and file failures; project files with and without their sections",
     "Import forms, file roles and file failures combine; tests scan one or two sample projects.",
     ["scanner/dependency/py_dep_scanner.py", "scanner/dependency/pyproject_dep_scanner.py", "scanner/dependency/base_dep_scanner.py"],
     [("PythonDependencyScanner.scan", "scanner/dependency/py_dep_scanner.py"), ("PyProjectDependencyScanner.scan", "scanner/dependency/pyproject_dep_scanner.py")],
     technique=PE, level_note=PN)
prop("S03", "Dependency graphs contain every package and every dependency",
     "Every package of a recipe whose dependencies could be read is a node of the build and the test graph; its build and host dependencies are edges of the build graph "
     "and its run and test dependencies edges of the test graph. If two recipes have a package of the same name the first counts and the name is recorded as duplicate. A "
     "recipe that cannot be read or parsed, or whose dependencies cannot be determined, is recorded as failed and the others are still processed. "
     "Statistics count recipes found, recipes parsed and packages. plot draws the graph and direction asked for.",
     ["inputs", "fault_sequences"], "sets of recipes with any mix of failures, duplicates and dependency sections",
     "Tests build graphs of well-formed recipes; failures and duplicates among them are hardly covered.",
     ["grapher/recipe_graph.py", "grapher/recipe_graph_from_disk.py"], [("RecipeGraph", "grapher/recipe_graph.py"), ("RecipeGraphFromDisk", "grapher/recipe_graph_from_disk.py")],
     technique=PE, level_note=PN)
prop("S05", "Build-configuration variables resolve to the value the selectors choose",
     "get_cbc_variable_value gives the first entry of the variable that has no selector or whose selector applies to the query. If none applies it gives the default, or raises "
     "ValueError without one; for a variable that is not defined the default, or KeyError. The variables are the keys with a list of values, except zip_keys.",
     ["inputs"], "variables with any number of values, any of which have selectors, any answer of the selectors, with and without default",
     "The combinations of selectors, order and query are many; tests use one file.",
     ["parser/cbc_parser.py"], [("CbcParser", "parser/cbc_parser.py")], technique=PE, level_note=PN)
