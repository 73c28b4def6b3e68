from ._base import AI, prop

BUMP = "commands/bump_recipe.py"

prop("C01", "bump-recipe never damages the recipe file",
     "A run of `crm bump-recipe` changes the given recipe file only when the whole run succeeds; then it holds the rendered recipe with every edit of "
     "the run. A run that fails (unreadable or unparsable file, rejected edit, failed fetch) has written nothing and exits with a nonzero status. "
     "With `--dry-run` no file is ever written, and a successful dry run prints the rendered recipe.",
     ["inputs", "configurations", "fault_sequences"],
     "dry run or not, version bump or build number only, no/one/several sources of each kind, and every failure of every read, parse, patch and fetch",
     "Tests run the command on a few recipes with mocked fetchers; failures between edits and their combination with several sources are not tried.",
     [BUMP], [("bump-recipe", BUMP)], technique="typestate analysis of recipe, output and exit status on an abstract interpreter")
prop("C02", "bump-recipe sets the build number as documented",
     "`--build-num` alone raises an integer build number by exactly one and sets a missing one to 0; a build number that is not an integer makes the "
     "command fail. A version bump resets the build number to 0, with or without `--build-num`. With neither option the command fails and touches nothing.",
     ["inputs", "configurations"], "every combination of the options, every build number in the recipe",
     "The suite covers one option at a time on a few recipes.", [BUMP], [("build number update", BUMP)],
     technique="path-sensitive dataflow of the build number on an abstract interpreter")
prop("C03", "bump-recipe gives every archive source the hash of its own new artifact",
     "After a successful version bump the recipe has the requested version and each archive source has the hash of the artifact that was fetched for that "
     "same source after the version was changed, never another source's and never one of an artifact whose fetch failed. Sources that are not archives get "
     "no hash. Without `--target-version` nothing is fetched and neither the version nor a hash changes.",
     ["inputs", "schedules", "fault_sequences"], "no, one and several sources of both kinds; every completion order and failure of the fetches",
     "Tests mock the fetch; the order in which concurrent fetches finish is never varied.", [BUMP, "fetcher/artifact_fetcher.py"],
     [("hash update", BUMP)], technique="dataflow with distinct symbolic fetchers on an abstract interpreter (futures modelled)")
prop("C04", "bump-recipe retries a failing fetch a bounded number of times",
     "During a version bump a failing fetch is tried again, waiting between attempts for a time based on the retry interval that grows with the number of "
     "failures; after a fixed small number of attempts the command ends with a nonzero status. A fetch that succeeds on a later attempt is used like one that "
     "succeeds at once.",
     ["fault_sequences"], "every sequence of failing and succeeding fetch attempts",
     "Tests mock the fetcher with one failure pattern.", [BUMP], [("retry loop", BUMP)],
     technique="bounded path enumeration with attempt counting on an abstract interpreter")

CONV, PATCH, RATT, GRAPH = "commands/convert.py", "commands/patch.py", "commands/rattler_bulk_build.py", "commands/graph.py"

prop("C05", "convert reports the outcome of a conversion truthfully and loses nothing",
     "When a stage of converting one recipe fails (read, pre-process, parse, input already in the new format, convert) the exit code names that stage and "
     "nothing is written to a file or standard output. Otherwise the code says whether there were errors, else warnings, else neither, and the complete "
     "converted recipe goes to the requested output file or, with none requested, to standard output. The input recipe is never written. In bulk mode each "
     "conversion is written next to its own input.",
     ["inputs", "configurations", "fault_sequences"], "single file and bulk, output file or not, every exception of every stage, any number of messages",
     "Tests convert well-formed recipes; no test makes a stage raise or checks the output locations of bulk mode.",
     [CONV], [("conversion of one file", CONV), ("convert command", CONV)],
     technique="path-sensitive abstract interpretation with every stage allowed to fail")
prop("C06", "The patch command applies all patches of a file or none",
     "`crm patch` writes the recipe file only when every patch of the patch file was applied, and then exactly the rendered recipe with all of them, applied in "
     "the order of the file, each once. If a patch is rejected or malformed, or a file cannot be read or parsed, the recipe file is left "
     "untouched and the exit status is nonzero. The patch file is never written.",
     ["inputs", "histories", "fault_sequences"], "one patch or a list of patches; each applied, rejected or malformed; unreadable and non-JSON files",
     "Tests use single patches and lists that fail on the first element; a failure after a successful patch is never tried.",
     [PATCH], [("patch command", PATCH)], technique="typestate analysis of recipe, file and exit status on an abstract interpreter")
prop("C07", "Exit statuses name the failure and are never mistaken for success",
     "Exit codes are pairwise distinct, fit into an exit status, only success is zero, and click's own codes keep their values. bump-recipe ends with the code "
     "for an unreadable file, an unparsable recipe, a rejected edit or a failed fetch according to what failed, and patch with the one for a patch "
     "file that is not JSON or malformed, an unreadable or unparsable recipe or a rejected patch. graph fails on a directory without recipes. Every "
     "command is available in `crm`.",
     ["inputs", "fault_sequences"], "every exit code; every failing step of each command",
     "Tests compare the code of a few provoked failures; aliases and codes of other steps go unnoticed.",
     ["commands/utils/types.py", "commands/bump_recipe.py", PATCH, GRAPH, "commands/conda_recipe_manager.py"],
     [("exit codes", "commands/utils/types.py"), ("failures", "commands/bump_recipe.py"), ("failures", PATCH), ("command group", "commands/conda_recipe_manager.py")],
     technique="constant evaluation of the code table; failure-to-exit-code dataflow on an abstract interpreter")
prop("C08", "Standard output carries nothing but the result of a command",
     "What a command prints to standard output is its result and nothing else, so that it can be redirected or parsed: bump-recipe prints the recipe in a dry run "
     "and otherwise nothing, patch prints nothing, convert prints the converted recipe unless it goes to a file, and the bulk modes of convert and "
     "rattler-bulk-build print one JSON document. The result is printed once. Messages, errors and log output go to standard error.",
     ["inputs", "configurations", "fault_sequences"], "every option combination and outcome of each command except the interactive graph",
     "Click's test runner mixes both streams, and tests look only for expected text.",
     ["commands/bump_recipe.py", PATCH, CONV, RATT, "commands/utils/print.py", "commands/conda_recipe_manager.py"],
     [("print helpers", "commands/utils/print.py"), ("commands", CONV), ("logging setup", "commands/conda_recipe_manager.py")],
     technique="output-effect analysis on an abstract interpreter")
prop("C09", "Bulk commands count every recipe once and apply the success threshold exactly",
     "Bulk convert and rattler-bulk-build succeed if and only if the share of successful recipes among all recipe files found is at least the requested rate, "
     "without rounding. Their statistics count every recipe file found exactly once, under its true outcome, also when file or directory names repeat. A "
     "directory without recipe files is an error.",
     ["inputs", "configurations"], "every outcome of a recipe, alone, everywhere and in pairs; rates at, just below and just above the exact share",
     "Bulk modes start process pools and external programs and have no tests.",
     [CONV, RATT], [("statistics and threshold", CONV), ("statistics and threshold", RATT)],
     technique="constant propagation through the bulk commands on an abstract interpreter")
