from ._base import prop

RP, RR, RW = "parser/recipe_parser.py", "parser/recipe_reader.py", "parser/recipe_parser_deps.py"
TS = "typestate analysis of tree, variable table, selector table and modified flag on an abstract interpreter"

prop("P02", "A recipe reports itself modified exactly when an edit changed it",
     "Every editing method that changes a recipe's content (its tree or its variables) makes is_modified() true. An edit that changes nothing because it was "
     "refused, failed or is a test leaves it as it was. No edit makes it false again, and is_modified() itself only reports it.",
     ["inputs", "histories"], "every path of every editing method, and every operation of patch, on every recipe",
     "Tests check the flag after a handful of edits; it has to hold after every path of every method.",
     [RP, RW], [("patch", RP), ("variables, comments, selectors", RP), ("dependency edits", RW)], technique=TS)
prop("P03", "Selector queries reflect the current recipe after every edit",
     "The selector queries of a recipe (list_selectors, contains_selector, get_selector_paths) are answered from a table that every successful edit that "
     "changes nodes of the tree (patches, selectors, comments, dependency edits) rebuilds afterwards: from an empty table, over the whole tree from its root.",
     ["inputs", "histories"], "every path of every editing method on every recipe",
     "A stale entry shows only when a selector query follows a particular edit; tests do a few of these pairs.",
     [RP, RR], [("table rebuild", RR), ("editing methods", RP)], technique=TS)
prop("P04", "An edit that fails leaves the recipe unchanged",
     "When patch returns False or raises, whatever the operation, the recipe's tree and variables are what they were, including a move or copy whose second half "
     "cannot be done. The same holds for variable, selector and comment edits that raise. A test operation never changes anything. "
     "search_and_patch returns True only if none of the patches it applied was refused.",
     ["inputs", "fault_sequences"], "every failing path of every editing method; every exception a helper lets out",
     "Failures in the middle of an edit need recipes that defeat one particular step.",
     [RP], [("patch", RP), ("variables, comments, selectors", RP)], technique=TS)
prop("P05", "patch validates its payload and then does what the operation says",
     "patch validates its payload before it changes anything and raises JsonPatchValidationException for one that does not conform. The schema knows exactly add, "
     "remove, replace, move, copy and test; it requires op and path, value for add, replace and test, and from for move and copy, and allows no other member; "
     "path and from are strings. An operation reads no member that its payload need not have. Each operation can succeed; add and copy take nothing out "
     "of the tree; a successful move does not leave the value in both places or in none.",
     ["inputs"], "all six operations on payloads with exactly the required members, every path",
     "Tests use complete payloads; an operation that depends on an optional member or a schema that lost a clause passes them.",
     [RP, "parser/_types.py"], [("patch", RP), ("schema", "parser/types.py")],
     technique="path-sensitive abstract interpretation per operation; constant evaluation of the schema")
prop("P13", "Variable edits reach both the variable queries and the rendered recipe",
     "set_variable stores the given value under the given name and del_variable removes that name and nothing else, in the table that "
     "contains_variable, get_variable, list_variables and rendering read. On recipes in the new format both also edit the same variable in /context, from which "
     "such recipes are rendered.",
     ["inputs", "histories"], "every path of both methods, for both recipe formats",
     "Tests read back a few variables of old-format recipes.", [RP, RR], [("set_variable, del_variable", RP), ("variable queries", RR)],
     technique="path-sensitive dataflow from the arguments to the variable table and the /context patch; partial evaluation of sequences of edits on recipes of both formats")

EFF = "interprocedural effect and alias analysis of the source"
prop("P01", "Queries never change a recipe",
     "No public query of a recipe (reading, searching, rendering, comparing, listing variables, selectors, dependencies or CBC values, diff, is_modified) changes "
     "that recipe's tree, variables, selector table, schema version or modified flag, or those of another recipe it is given.",
     ["inputs", "histories"], "every public method of the recipe classes that is not an edit, on every recipe and argument",
     "A query that changes state is invisible until a later call returns something different; tests make one call per recipe.",
     [RR, "parser/recipe_reader_deps.py", "parser/cbc_parser.py"], [("queries", RR), ("dependency queries", "parser/recipe_reader_deps.py")], technique=EFF)
prop("P09", "Conversion leaves the original recipe alone and reports what it could not do",
     "render_to_v1_recipe_format changes neither the recipe's own tree, variables, selectors, schema version or modified flag nor any shared table, and the copy it "
     "works on shares none of these with the recipe. Whenever a patch of the conversion is refused, a message is added to the message table.",
     ["inputs"], "every recipe; every patch the conversion applies",
     "Tests compare the converted text and do not look at the original afterwards; refused patches need unusual recipes.",
     ["parser/recipe_parser_convert.py"], [("conversion", "parser/recipe_parser_convert.py")], technique=EFF)
prop("P11", "Objects are isolated: no shared state, no changed arguments",
     "No public function or method of the library (everything but the command line) changes an argument it was given. Nothing changes module-level or "
     "class-level data after it is set up, or a mutable default argument, so two objects never influence one another. Recipe queries that return a list, set or "
     "dictionary return one of their own, not one the recipe keeps using.",
     ["inputs", "histories"], "every function of the repository; every query annotated as returning a container",
     "Aliasing shows only when a caller changes a result, reuses an argument or works with two objects at once.",
     ["parser", "types.py", "scanner", "grapher", "fetcher", "licenses", "utils"], [("queries", RR), ("message table", "types.py"), ("patch sequences", RP)],
     technique=EFF)
from .s import PE, PN

TN = PN + " The inputs are a family of recipe shapes (sections, lists, lists of mappings, nesting, empty keys, comments of every kind and place, multi-line texts, Jinja lines), not every recipe."
PU = "parser/_traverse.py"
prop("P16", "A patch does to the recipe what RFC 6902 says and nothing else",
     "A patch is accepted exactly when its paths name what the operation needs: remove, replace, test and the from of move and copy need an existing entry, "
     "add needs a mapping or list that can take it, with an existing index or `-` for a list, and nothing moves into itself. After an accepted patch the data of "
     "the recipe is what JSON Patch gives for its data, list indices counting entries and not comment lines; every comment line and the comment or selector of "
     "every other entry stays where it was, and the text rendered then reads as the patched data. A test succeeds exactly if the value is equal. Not covered: the document root, empty keys as parents, the index just "
     "after the last, lists in lists, removing the only key of a list entry.",
     ["inputs"], "every path of every recipe shape, existing or not, for all six operations and all kinds of values",
     "The tree of nodes has many special cases (single values, one-entry lists, list entries with keys, comments in lists); tests touch a few on one recipe.",
     [RP, RR, PU], [("patch operations", RP), ("path traversal", PU)], technique=PE, level_note=TN)
prop("P17", "Queries answer what the document says",
     "contains_value is true exactly for paths that name an entry; get_value gives the data at such a path, and otherwise the default, if one is given, or KeyError. "
     "find_value lists, in order, exactly the paths with an equal value of the same type (an empty key is null) and raises ValueError for collections. "
     "list_value_paths lists exactly the paths of single values and empty keys, in order. search lists exactly the values whose text (with the comment if asked "
     "for) matches. get_variable_references lists exactly the values with a substitution naming that variable as a whole word. get_comments_table maps exactly "
     "the addressable lines with a comment to it, without its selector; comment-only lines count for nothing. No query changes the recipe.",
     ["inputs"], "every path of every recipe shape and paths that name nothing",
     "Tests ask for paths of a few recipes; wrong answers need particular combinations of shape, comments and value.",
     [RR, PU], [("value queries", RR), ("traversal", PU)], technique=PE, level_note=TN)
prop("P18", "Rendering loses nothing",
     "render gives YAML text that, read again, holds exactly the entries, values, comments and selectors of the recipe, in the same order and under the same keys, "
     "multi-line texts included. A recipe in the old format renders its variables first, in order, as one set statement each, texts in double quotes; the new "
     "format renders none. Texts stay texts, in quotes where YAML would read something else (\"1.10\", \"yes\", \"\", \"a: b\"). "
     "render_to_object gives the data of the recipe, with null for empty keys. Rendering changes nothing and gives the same text again. "
     "Not covered: texts that are plain numbers in their usual form, such as \"1.2\", texts with a colon or number sign next to a substitution, blank lines, width of the spacing.",
     ["inputs"], "every recipe shape",
     "A lost comment, key or list mark shows only for particular shapes; tests render a few recipes.",
     [RR], [("render, render_to_object", RR)], technique=PE, level_note=TN)
prop("P19", "Selector and comment edits change exactly the line they name",
     "The selector queries tell exactly which lines carry which selector, in order of appearance; comment-only lines count for nothing; "
     "get_selector_at_path gives the selector, or a well-formed default, or raises KeyError (ValueError for a malformed default). add_selector gives the line "
     "the selector; if it had one, REPLACE replaces it and AND and OR join the old and the new one in that order; a plain comment stays after the selector. "
     "remove_selector returns the selector and leaves the comment. add_comment replaces the comment and keeps the selector before it. A path that names nothing "
     "raises KeyError; a malformed selector or an empty or selector-like comment ValueError. Nothing else changes. Not covered: merging when a comment "
     "follows the old selector, sections with a single list entry.",
     ["inputs", "histories"], "every line of every recipe shape in the old format, with and without selector and comment",
     "Key and value share one line but are two nodes; tests edit a few lines.",
     [RP, RR], [("add_selector, remove_selector, add_comment", RP), ("selector queries", RR)], technique=PE, level_note=TN)
prop("P20", "Reading a recipe keeps its structure, values, comments and variables",
     "A recipe text in the usual layout (two spaces per level, list entries indented under their key) is read without an exception into a tree with exactly its "
     "entries, values, comments and multi-line texts, in order and under the right keys, wherever comment and blank lines stand. Jinja statement lines are no part of it; "
     "the variables are those the set statements (old format) or /context (new format) give, with their values, in order. The format is the new one exactly if schema_version is 1.",
     ["inputs"], "every recipe shape",
     "The reader works line by line with an indentation stack; a slip shows only for particular sequences of lines.",
     [RR, "parser/_types.py"], [("constructor of RecipeReader", RR), ("line and Jinja patterns", "parser/_types.py")], technique=PE, level_note=TN)
RC = "parser/recipe_parser_convert.py"
prop("P21", "Conversion moves every field to its place in the new format and loses nothing",
     "Converting an old-format recipe puts every field, at top level and in each output, under its place in the new format with the same value (source fn, folder, git_*; "
     "build entry points, linking, prefix and run-export fields, script_env; run_constrained; about home, dev_url, doc_url; the test section as a list of tests, with pip check "
     "as a flag; output name and version; extras and the misspellings of skip), turns selectors on list entries into if/then and on booleans into an expression, variables into context, and {{ into ${{. "
     "Fields without a place are removed with a warning that names them; comments behind values are kept or named in a warning. The text is YAML and starts with "
     "schema_version 1 and context. The conversion raises nothing and adds no error. Not covered: licence matching, detect_binary_files_with_prefix, "
     "conditional or malformed script_env entries, selectors on sections.",
     ["inputs"], "every field of the old format alone, with all others of its section in several orders, at top level and in outputs; all sections together; special recipes",
     "A field lost, overwritten or left behind shows only with the right neighbours or in an output; tests convert whole recipes and compare with stored files.",
     [RC, RP, RR], [("conversion", RC)], technique=PE, level_note=TN)
prop("P22", "Substituting variables gives what the template engine would",
     "get_value with sub_vars and render_to_object with replace_variables give the data of the recipe with the substitutions of defined variables replaced: plain, with lower and upper, "
     "an index into the text (the whole text if out of range), a sum of two numbers or the concatenation of two texts (in double quotes if it is part of a longer text). The replaced text is read as a YAML value, or kept as a text "
     "where it would be a key, a comment or no YAML. Texts without substitutions keep their type, several lines stay several lines; undefined variables stay, escaped as ${{ }} at the "
     "start of a text. Existing paths raise nothing, other paths give the default unchanged or KeyError. Neither the recipe nor its variables change, and a variable that is set "
     "later counts from then on. Other filters and nested expressions are not covered.",
     ["inputs", "histories"], "every path of each recipe text in both formats, collections and single values, and after set_variable",
     "The same text is read along several code paths (single value, collection, object) that must agree; tests use a few values.",
     [RR], [("get_value, substitution and render_to_object", RR)], technique=PE, level_note=TN)

prop("P23", "Derived answers follow from the recipe",
     "For every recipe text in both formats: get_recipe_name gives the name the recipe states (package/name, or recipe/name in a recipe of the new format with outputs; variables replaced; None if it states none), "
     "is_multi_output is true exactly if there is an outputs section, get_package_paths lists the root and every output in order, append_to_path joins a package path and an extension with one slash, "
     "calc_sha256 is the SHA-256 of the rendered text in UTF-8, two parsers are equal exactly if they render the same text of the same format, and diff is the difference "
     "from the text read to the text rendered now (nothing before the first edit). After an edit each answer is about the edited recipe.",
     ["inputs", "histories"], "every recipe text in both formats, before and after edits of values, variables, comments and outputs",
     "Each answer is derived from several parts of the state and must follow every edit; tests ask a few files once.",
     [RR], [("queries over the recipe", RR)], technique=PE, level_note=TN)

prop("P24", "Pre-processing changes nothing but the documented patterns",
     "The text given to the parser differs from the recipe only where pre_process_recipe_text documents it: a call after a period in a set statement or substitution becomes a filter, lower() and upper() "
     "lose their empty parentheses, min_pin= and max_pin= become lower_bound= and upper_bound=, environ[\"X\"] becomes env.get(\"X\") (os.environ stays), a double-quoted value with one line break becomes a block, "
     "each time they occur. pre_process_remove_hash_type replaces a key hash_type, hashtype or hash in substitution braces by the algorithm the variable names (sha256 if it is not defined), and removes its "
     "definition only if nothing else uses it. Everything else, such as periods in quoted values, comments, blank lines and line ends, is kept.",
     ["inputs"], "lines that are and are not covered by a pattern, alone, in all relevant pairs, repeated, with and without a final line end",
     "Text replacement by regular expressions silently damages recipes that resemble a pattern; tests use one file.",
     [RP, RC], [("pre_process_remove_hash_type", RP), ("pre_process_recipe_text", RC)], technique=PE, level_note=TN)

prop("P25", "Queries of an edited recipe agree with its rendered text",
     "After every sequence of accepted edits (patches, selectors, comments, variables), the queries of the recipe give the same answers as those of a new parser on the rendered text: paths, values, selectors and "
     "where they are, comments, variables and their references. Nothing an edit removed or replaced stays visible to a query, and nothing it added is missing.",
     ["inputs", "histories"], "single edits and sequences of two and three edits of the lines of recipes of every shape, in both formats; the kind of a scalar (9 or \"9\"), emptied sections and lists put into list entries excepted",
     "The tree, the variable table, the selector table and duplicated comments must follow every edit; tests look at one of them after one edit.",
     [RP, RR], [("editing methods", RP), ("queries", RR)], technique=PE, level_note=TN)

prop("C10", "bump-recipe writes the recipe with what is to be bumped and nothing else changed",
     "Given a recipe file that it can bump, bump-recipe writes, or in a dry run prints, that recipe with the new version, the SHA-256 of every archive fetched from it and build number 0, or with the build number "
     "raised by one (--build-num), and with every other line, comment and selector as it was. A build number that is no integer is an error under --build-num. If the run fails, the file is as before, nothing is "
     "printed and the exit status is not 0. The result does not depend on the order in which downloads complete.",
     ["inputs", "configurations", "fault_sequences", "schedules"], "recipes with and without version variable, hash variable, several sources, missing hash or build number, in both formats; every option combination; "
     "each archive missing in turn; downloads completing early and late",
     "The tests bump a few files with mocked fetchers and compare one outcome each; which lines survive depends on the recipe.",
     ["commands/bump_recipe.py", RP], [("bump_recipe", "commands/bump_recipe.py"), ("patch", RP)], technique=PE,
     level_note=PN + " The inputs are a family of whole recipe files; files, downloads, threads and streams are modelled.")
