from ._base import AI, prop

B, H, G, A = ("fetcher/base_artifact_fetcher.py", "fetcher/http_artifact_fetcher.py", "fetcher/git_artifact_fetcher.py",
              "fetcher/artifact_fetcher.py")

prop("F01", "Fetched content stays inside the fetcher's own temporary directory",
     "Whatever a source URL, archive or repository contains, fetching creates, downloads and extracts files only below the fetcher's own "
     "temporary directory, and archive members cannot escape it. The paths handed out for the archive and the source code are below that directory "
     "and are the places the content was really put.",
     ["inputs"], "every URL, file name, archive content and repository",
     "Tests use a handful of well-formed archives and file names; hostile names and members are never tried.",
     [B, H, G], [("temporary directory", B), ("download and extraction", H), ("clone", G)],
     technique="provenance dataflow over abstract interpretation; extraction-filter rule; partial evaluation of the fetchers over modelled library scenarios")
prop("F02", "Fetched content is only available after a successful fetch",
     "Asking a fetcher for its source code, archive or hash fails with the fetch-required error until a fetch has completed successfully, also when an "
     "earlier fetch failed at any point. After a successful fetch these queries are answered.",
     ["histories", "fault_sequences"], "every sequence of construct, fetch (failing at any library call, or succeeding) and query",
     "Tests query before any fetch and after one good fetch; no test makes a fetch fail half way and then queries.",
     [B, H, G], [("success flag and guard", B), ("http fetch", H), ("git fetch", G)],
     technique="typestate analysis on an abstract interpreter with a failure model; partial evaluation of the fetchers over modelled library scenarios")
prop("F03", "A failing fetch always surfaces as a fetch error",
     "If anything goes wrong during a fetch (network, git, file system, corrupt, truncated or encrypted archive), the caller gets a fetch error, never "
     "another exception type and never a normal return; if nothing goes wrong it returns normally. Fetch errors share one documented base type and stay distinguishable from "
     "the fetch-required and unsupported-source errors.",
     ["fault_sequences", "inputs"], "every failure of every library call a fetch makes",
     "Tests provoke a few failures by mocking; the error types of decompressors and the file system are not enumerated.",
     [B, H, G, "fetcher/exceptions.py"], [("error translation", H), ("error translation", G), ("error types", "fetcher/exceptions.py")],
     technique="exception-flow analysis on an abstract interpreter; partial evaluation of the fetchers over modelled library scenarios")
prop("F04", "A git fetch checks out the requested tag, revision or branch",
     "After a successful git fetch the work tree is at the requested tag, else the requested revision, else the requested branch, of the given "
     "repository; with none given it is at the default. Fetching from a local path works like fetching from a remote one.",
     ["configurations", "inputs"], "all eight combinations of tag, revision and branch; local and remote locations",
     "Git tests run only with a conda installation and mock the checkout; the combinations are not covered.",
     [G], [("checkout target resolution", G)], technique="abstract interpretation over all target configurations; partial evaluation of the fetchers over modelled library scenarios")
prop("F05", "Every supported source of a recipe gets the right fetcher",
     "The table of fetchers made from a recipe has exactly one entry per supported source, keyed by that source's path in the recipe, of the kind its keys "
     "ask for and with its URL, tag, revision and branch after variable substitution. An unsupported source raises "
     "the unsupported-source error, or is skipped if and only if the caller asked for that.",
     ["inputs", "configurations"], "every source section: absent, single or list, of every kind, in both recipe formats, with either ignore flag",
     "Tests cover a few recipe files; the shapes are not enumerated and the module needs conda to import.",
     [A], [("fetcher selection", A)], technique="abstract interpretation over enumerated section shapes with symbolic fields")
prop("F06", "A fetcher's temporary directory lives exactly as long as the fetcher",
     "Each fetcher owns its own temporary directory from construction on, it is kept through fetching so that paths handed out stay valid, "
     "and it is removed when the fetcher goes away. No two fetchers share one.",
     ["histories"], "every construct/fetch history and every failure during them",
     "Directory lifetime is not observed by any test.",
     [B, H, G], [("temporary directory ownership", B)], technique="ownership (escape) analysis on an abstract interpreter; partial evaluation of the fetchers over modelled library scenarios")
