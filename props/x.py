from ._base import na, prop

prop("X01", "Recipe text, archives and arguments are never executed",
     "No content of a recipe, patch file, archive or command-line argument is ever evaluated as code, unpickled, loaded with a YAML loader that can build "
     "arbitrary objects, or passed through a shell.",
     ["inputs", "programs"], "every input and every reachable call in the package",
     "A test can only show that one input was not executed; the guarantee is about every code path.",
     ["parser/recipe_reader.py", "commands/rattler_bulk_build.py", "scanner/dependency/py_dep_scanner.py"],
     [("YAML loading", "parser/recipe_reader.py"), ("process start", "commands/rattler_bulk_build.py")],
     technique="whole-program reference lint with name resolution",
     level_note="Every reference in the package is resolved through imports and aliases and compared with a list of evaluating functions; "
                "complete for the listed functions, getattr-computed names are themselves reported. Trusts that list.")
prop("X02", "All text is read and written as UTF-8",
     "Every text file the package opens, reads or writes (recipes, patch files, licence data, scanned projects, logs) and every conversion between text "
     "and bytes uses UTF-8 explicitly, never the platform's default encoding, and never drops or replaces characters that cannot be converted.",
     ["inputs", "programs", "configurations"], "every text read, write and conversion in the package, on every platform and locale",
     "The tests run on machines whose default encoding is UTF-8, with ASCII recipes.",
     ["commands/convert.py", "commands/patch.py", "commands/bump_recipe.py", "grapher/recipe_graph_from_disk.py", "licenses/spdx_utils.py",
      "scanner/dependency/py_dep_scanner.py", "utils/cryptography/hashing.py"],
     [("recipe file reads and writes", "commands/convert.py"), ("licence data", "licenses/spdx_utils.py"), ("project sources", "scanner/dependency/py_dep_scanner.py")],
     technique="whole-program lint of text I/O calls with name resolution and constant propagation",
     level_note="Every call is resolved; encodings that are not compile-time constants are listed as undecided. Trusts the table of text-opening functions.")
prop("X03", "The library is silent and leaves process-wide settings alone",
     "No module outside commands/ prints, prompts, writes to a standard stream, starts a debugger or ends the process; none changes the working directory, "
     "environment variables, signal handlers, locale, logging setup, import path, recursion limit or attributes of other packages; and none imports the "
     "command-line modules or their toolkit. Problems are reported by exceptions, return values and message tables only.",
     ["programs", "inputs"], "every reference in every library module",
     "A test sees the output of one run; a stray print or setting on a rare path reaches users' pipelines and other threads.",
     ["parser", "fetcher", "scanner", "grapher", "licenses", "types.py", "utils"],
     [("message table instead of output", "types.py"), ("fetching without changing directory", "fetcher/git_artifact_fetcher.py")],
     technique="whole-program reference lint with name resolution",
     level_note="Every reference of every library module is resolved through imports and aliases. Complete for the listed functions and settings.")
prop("X05", "Parsing, editing, rendering and conversion are deterministic",
     "Within the parser, licence and utility modules nothing consults the clock, random numbers, the environment, the host, the process or object identity, "
     "and no list, text, edit or message is produced in the iteration order of a set (which differs from run to run for strings): the same recipe always "
     "gives the same output.",
     ["inputs", "schedules", "programs"], "every recipe and every hash seed",
     "A test runs with one hash seed; the order a set is walked in varies with the seed and with the elements.",
     ["parser/recipe_parser_convert.py", "parser/recipe_reader.py", "parser/_utils.py", "licenses/spdx_utils.py"],
     [("conversion of Jinja substitutions", "parser/recipe_parser_convert.py"), ("duplicate removal", "parser/_utils.py")],
     technique="whole-program lint and type-directed dataflow analysis of set iterations",
     level_note="Types of iterated expressions come from an interprocedural type propagation; expressions of unknown type are not reported. "
                "Elements picked from a set by iter()/pop() are listed as undecided.")

na("N01", "Licence correction finds the licence that was meant",
   "A misspelt or colloquial licence name is corrected to the SPDX identifier of the licence its author meant.",
   ["inputs"], "every licence text people write",
   "There are unboundedly many spellings.", ["licenses/spdx_utils.py"], [("close matching", "licenses/spdx_utils.py")],
   "the answer is a similarity ranking of texts by difflib against 600 names; what an author meant is no property of the source. That answers are valid identifiers or absent is S01.")
na("N02", "Every converted recipe is accepted by rattler-build",
   "The text a conversion without errors gives satisfies the recipe schema of rattler-build and builds the same packages.",
   ["inputs"], "every old-format recipe",
   "Tests convert stored recipes.", ["parser/recipe_parser_convert.py"], [("conversion", "parser/recipe_parser_convert.py")],
   "the schema and the meaning of both formats live in programs that are not part of this codebase. Where each field goes, with which value, is P21.")
na("N03", "Any YAML is read as YAML",
   "Recipes that use all of YAML (flow collections over several lines, anchors, tags, lists in lists, any indentation) are read as YAML defines them.",
   ["inputs"], "every YAML text",
   "The grammar is unbounded.", ["parser/recipe_reader.py"], [("constructor of RecipeReader", "parser/recipe_reader.py")],
   "each line is given to PyYAML at run time and arbitrary text has no finite family of shapes; the code documents that it reads a subset of YAML. For that subset see P20.")
na("N04", "Bulk commands and graphs finish in reasonable time and memory",
   "The time and memory that commands need grow at most linearly with the number and size of the recipes.",
   ["inputs"], "every number and size of recipes",
   "Tests use a few small recipes.", ["commands/convert.py", "grapher/recipe_graph.py"], [("bulk conversion", "commands/convert.py")],
   "a quantitative run-time property: it depends on backtracking of regular expressions, PyYAML and networkx, for which no static bound is in reach.")
na("N05", "Concurrent runs on one recipe file do not lose each other's edits",
   "Two commands that edit the same recipe file at the same time leave the result of one of the two orders of running them.",
   ["schedules"], "every interleaving of two runs",
   "Interleavings of processes are not tested.", ["commands/bump_recipe.py", "commands/patch.py"], [("reading and writing of the recipe", "commands/patch.py")],
   "the commands take no lock and write in place, so the property does not hold by design; which interleavings happen is decided by the operating system.")
