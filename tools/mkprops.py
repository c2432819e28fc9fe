#!/usr/bin/env python3
"""Source of properties.jsonl (kept as Python so that it can be edited and validated)."""
import json, os, sys
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=hook)))
H = "crate-root driver module (cfg posy_verif): posy is a binary crate, its internals are unreachable from outside"

p("C01", "Resolving yields a consistent environment (soundness)",
  "When resolving a brief succeeds, the blueprint pins one Python release and at most one version per package such that the Python requirement and every applicable requirement - the user's and, transitively, those of every pinned package for the extras requested of it and the target Python's markers - is satisfied by the pinned versions. Several constraints on one package are all honoured, every pinned version is on an index and supports the pinned Python, and nothing is pinned that no requirement pulls in.",
  ["inputs", "configurations"], "every brief x every package index (releases, requirements, extras, markers, requires-python) x every platform list",
  "No test resolves anything: the resolver has one unit test, for marker simplification. The space of package universes is unbounded.",
  ["src/resolve.rs", "src/vocab/specifier.rs", "src/vocab/requirement.rs"],
  [("requirements -> solver constraints, incl. extras as virtual packages", "src/resolve.rs requirements_to_pubgrub/get_dependencies"),
   ("candidate versions", "src/resolve.rs fetch_and_sort_versions")],
  [("blueprint", "pins + marker expressions", "src/resolve.rs Blueprint")], ["Brief::resolve result"], H)

p("C02", "Resolving fails only when no solution exists (completeness)",
  "If, for the Python that the brief and platforms select, the reachable package universe contains an assignment of eligible versions that satisfies the brief, resolving it succeeds, whatever backtracking that takes; if it contains none, resolving terminates with an error. Dependency cycles, diamonds, extras, markers, missing packages and dead-end newest releases never make a satisfiable brief fail or a resolution run forever.",
  ["inputs", "configurations"], "every brief x every finite package universe whose metadata is well formed",
  "No test resolves anything; completeness is a statement about all alternatives the solver did not pick.",
  ["src/resolve.rs"], [("solver and candidate enumeration", "src/resolve.rs choose_package_version/get_dependencies")], (), ["Brief::resolve result"], H)

p("C03", "Version preference: yanks, prereleases, requires-python, hints, newest",
  "Only eligible releases are chosen: prereleases only if the user allowed them for that package or its index has no final release at all, and releases that have a file which admits the target Python and is not yanked (or whose hash the previous blueprint pins). Among the eligible releases in range, the version pinned by the previous blueprint wins and otherwise the newest; the Python itself is the preferred eligible release that has a build for a requested platform, earlier platforms first.",
  ["inputs", "configurations", "histories"], "every set of releases (yanked / prerelease / requires-python flags per file) x previous blueprint x allow-prerelease setting",
  "No test covers version selection.",
  ["src/resolve.rs"], [("filter and sort of candidate versions", "src/resolve.rs fetch_and_sort_versions"), ("python pick", "src/resolve.rs resolve_pybi/pick_best_pybi")], (), ["Brief::resolve result"], H)

p("C04", "An installed environment is exactly what the blueprint pins",
  "Building an environment from a blueprint installs the pinned Python and exactly the pinned packages, each from a file of that release whose hash the blueprint lists, choosing the listed wheel that is most compatible with the platform and falling back to a listed source distribution only when no listed wheel fits. A file whose hash is not listed is never installed or built, and if no listed file is usable the operation fails instead of substituting another.",
  ["inputs", "configurations", "histories"], "every blueprint x every index state at install time (files added, removed, re-uploaded since locking) x platforms x earlier contents of the forest",
  "No test installs an environment.",
  ["src/env.rs"], [("file choice", "src/env.rs pick_pinned_binary/get_env")], [("forest", "installed trees keyed by artifact hash", "src/env.rs EnvForest")], ["EnvForest::get_env result, installed tree contents"], H)

p("C05", "Hash-checked downloads: no wrong bytes are ever returned or kept",
  "A download requested with a hash yields exactly the bytes that have that hash or an error, whatever the server, network or earlier runs did. Data that fails the check, is cut short or arrives in a failed attempt is never returned and never kept, so a later request can still obtain the right bytes; once the right bytes were stored, they are served without the network.",
  ["inputs", "fault_sequences", "histories"], "every sequence of requests x server behaviours (right, wrong, truncated, error status, redirect, dropped connection) x hash algorithm",
  "Tests check the hash reader on two strings and never the download path with a misbehaving server.",
  ["src/package_db/http/http.rs", "src/vocab/artifact_hash.rs", "src/kvstore.rs"],
  [("hash cache fill", "src/package_db/http/http.rs get_hashed"), ("checker", "src/vocab/artifact_hash.rs HashChecker")], [("by-hash cache", "bytes per hash", "KVFileStore")], ["get_hashed result; requests seen by the server"], H)

p("C06", "Cache files appear atomically and survive crashes",
  "For each key, readers of the on-disk file cache see either nothing or the complete bytes of one write that finished, never a prefix, a mixture or another key's bytes, also when writers fail or any number of processes are killed at any moment; a completed write stays visible until it is replaced or removed. Data is flushed to disk before it becomes visible, a failed or crashed write leaves the previous value in place, and a reader's open handle keeps the value it opened.",
  ["schedules", "crash_points", "fault_sequences"], "every interleaving of readers, writers, replacers and removers over threads and processes x every crash point x every failing system call",
  "The three store tests are sequential and fault free; the source says 'seriously need some tests that validate the locking'.",
  ["src/kvstore.rs"], [("temporary file + sync + rename under lock", "src/kvstore.rs LockedWrite::commit")], [("entry", "file per key", "<store>/<key path>")], ["get / get_or_set / lock().reader()"], H)

p("C07", "Cache entries are computed once, under a per-key lock",
  "At any time at most one thread or process holds a given cache key, and while it is held nobody else reads through the lock or changes that entry; a holder that finishes, fails or dies releases it and a waiter then proceeds. Concurrent callers that want the same missing entry run the computation once if it succeeds (each retry follows a failure), callers for different keys never wait for each other, and distinct keys never share an entry.",
  ["schedules", "crash_points", "fault_sequences"], "every interleaving of callers of the file and directory stores in threads and processes, with failures, kills and interrupted system calls",
  "Tests are single threaded.",
  ["src/kvstore.rs", "src/util.rs"], [("flock on <key>.lock", "src/kvstore.rs lock")], [("lock file", "one per key", "<key path>.lock")], ["closure invocations, blocking"], H)

p("C08", "Directory entries and installs are all-or-nothing",
  "A directory entry (an installed Python or package, a build directory, a cached locally built wheel) is visible only when complete: if producing it fails, or the process dies at any moment, the entry is absent and the next attempt produces it from scratch, and once present it is never changed or rebuilt. No later run ever uses a half-unpacked tree or a truncated wheel.",
  ["crash_points", "fault_sequences", "histories"], "every install / unpack / build x every crash point and failing file-system call x the run after it",
  "The one directory store test is sequential and fault free.",
  ["src/kvstore.rs", "src/env.rs", "src/package_db/build_wheel.rs"], [("temp dir + rename", "src/kvstore.rs KVDirStore::get_or_set"), ("wheel cache fill", "src/package_db/build_wheel.rs"), ("sdist wheel install", "src/env.rs get_env")], (), ["directory tree after a crash; the next run's result"], H)

p("C09", "The HTTP cache is transparent",
  "A cached answer is byte-for-byte what the origin sent for that URL and is only used without contacting the origin while HTTP freshness rules allow; afterwards it is revalidated, an unmodified answer keeps the stored body and a changed one replaces it. Responses that may not be stored still reach the caller unchanged and are never replayed, cache-only requests never touch the network and fail cleanly when there is nothing usable, and no-store requests neither read nor write the cache.",
  ["histories", "inputs", "fault_sequences"], "every sequence of requests in every cache mode x origin content changes, cache headers, validators, statuses and clock positions",
  "One test covers three requests for one fresh file and one stale file.",
  ["src/package_db/http/http.rs", "src/seek_slice.rs"], [("policy stored next to body", "src/package_db/http/http.rs one_request/fill_cache/read_cache")], [("http cache", "policy + body per request", "KVFileStore")], ["Http::request result; requests seen by the server"], H)

p("C10", "Redirects and retries are followed, bounded and reported",
  "A GET follows redirects, relative ones included, to the final answer and reports the URL it finally came from; after five redirects it stops with an error instead of looping. Transient failures (500, 503, 520, 527, dropped connections) are retried a bounded number of times and other statuses are not retried; when the attempts are used up the failure reaches the caller, and an error page is never mistaken for an index page or for a missing project.",
  ["fault_sequences", "inputs", "histories"], "every redirect graph (chains, loops, relative, cross host, missing Location) and every sequence of failures",
  "One test follows one redirect; retries and limits are untested.",
  ["src/package_db/http/http.rs", "src/package_db/http/ureq_glue.rs", "src/package_db/simple_api/fetch.rs"], [("redirect loop", "src/package_db/http/http.rs request"), ("retry loop", "src/package_db/http/ureq_glue.rs call_with_retry")], (), ["requests seen by the server, result"], H)

p("C11", "Reading a remote file lazily equals reading the whole file",
  "Any sequence of seeks and reads on a lazily fetched remote file returns exactly the bytes, lengths, positions and end-of-file behaviour of the same operations on the complete file, and no byte is transferred twice. If the server cannot serve ranges the whole file is used instead, and a server that answers a range request wrongly or stops supporting it causes an error, never wrong data or a crash.",
  ["histories", "inputs", "fault_sequences"], "every file size x every seek/read sequence x server range behaviours",
  "One test makes a few reads of one 3000-byte file.",
  ["src/package_db/http/lazy_remote_file.rs", "src/package_db/http/http.rs", "src/seek_slice.rs"], [("loaded interval map", "src/package_db/http/lazy_remote_file.rs read")], [("loaded", "byte ranges fetched so far", "LazyRemoteFile.loaded")], ["Read/Seek results; Range requests"], H)

p("C12", "Unpacking never escapes its directory and is faithful",
  "Unpacking any zip, wheel, Python build or source tarball creates, changes or follows nothing outside the target directory, whatever member names, link targets, member types or member order the archive has: such an archive is rejected or the offending member ignored. For well-formed archives every member appears at its path with exactly its bytes, its executable bit and its in-tree symlink target.",
  ["inputs"], "every archive: names (absolute, .., ., //, backslash, drive, non-UTF-8), symlink graphs, file types, order",
  "Tests cover a dozen path strings and two symlink cases.",
  ["src/tree.rs", "src/vocab/artifact_formats.rs"], [("path normalisation", "src/tree.rs NicePathBuf"), ("link containment", "src/tree.rs NiceSymlinkPaths"), ("extraction", "src/tree.rs unpack_zip_carefully/unpack_tar_gz_carefully")], (), ["file tree after unpacking"], H)

p("C13", "Wheels are laid out as their metadata and the wheel spec demand",
  "Installing a wheel puts each member where the wheel's layout rules say - library files in the library directory, each .data category in its own place, nothing else elsewhere - with its bytes, and records the installer. Every console/GUI entry point gets exactly one launcher of its name that runs the named module and object with the environment's Python, scripts marked for Python get a launcher too, and a wheel with a wrong or unsupported layout (missing or mismatched .dist-info, unsupported version, unknown data category) is refused.",
  ["inputs", "configurations"], "every wheel: root-is-purelib, data categories, scripts, entry points, metadata variants",
  "Tests unpack two fixed tiny wheels, without scripts or data variants.",
  ["src/vocab/artifact_formats.rs", "src/trampolines/mod.rs", "src/vocab/entry_points.rs"], [("wheel install", "src/vocab/artifact_formats.rs Wheel::unpack"), ("launchers", "src/trampolines/mod.rs")], (), ["installed tree, running a launcher"], H)

p("C14", "Platform compatibility: the most specific usable build is preferred",
  "A binary is considered usable on a platform exactly when one of its tags is among the tags that platform and Python imply: the tags the Python build declares, with PLATFORM standing for the platform's own tag, any older manylinux/musllinux/macOS level of the same architecture, and the universal binaries that run there. It is never usable when built for something newer or different. Between usable binaries the one with the most specific tag is preferred, in the fixed order the platform defines.",
  ["inputs", "configurations"], "every platform tag (kind, version, arch) x Python version x tag set of the candidate",
  "Tests check a handful of tags of a few platforms against snapshots.",
  ["src/platform_tags/expand.rs", "src/platform_tags/platform.rs", "src/vocab/artifact_name.rs"], [("tag expansion", "src/platform_tags/expand.rs"), ("scoring", "src/platform_tags/platform.rs")], (), ["compatibility of a tag with a platform"], H)

p("C15", "Version specifiers mean what PEP 440 says",
  "For every specifier set and every version, the version is accepted exactly when PEP 440 says so (local labels, epochs, pre/post/dev releases, trailing zeros, wildcards, compatible release), and specifiers that are malformed or not allowed are refused. The ranges handed to the dependency solver contain exactly the versions the specifier accepts, and no specifier or version makes the program crash (numbers of 2^32-1 and more may be refused).",
  ["inputs"], "every operator x specifier version x candidate version, and every conjunction",
  "Tests list a few dozen sample pairs.",
  ["src/vocab/specifier.rs", "src/vocab/version.rs"], [("specifier -> half-open ranges", "src/vocab/specifier.rs to_ranges"), ("successor versions", "src/vocab/version.rs next")], (), ["Specifiers::satisfied_by / to_ranges"], H)

p("C16", "Environment markers and extras select the right requirements",
  "A requirement applies exactly when its PEP 508 marker is true for the target Python's marker values - version comparison when both sides are versions, string comparison otherwise, and/or/parentheses with the usual precedence - with 'extra' bound to the extra being expanded (names compared normalised) and to nothing otherwise. The blueprint records each marker condition that was consulted, without 'extra', with the truth value it had; malformed markers and unknown variables that matter for the result are errors, never silently true or false.",
  ["inputs", "configurations"], "every marker expression x environment x extra",
  "Tests evaluate about twenty markers in one environment.",
  ["src/vocab/reqparse.rs", "src/vocab/requirement.rs", "src/resolve.rs"], [("parser", "src/vocab/reqparse.rs"), ("evaluation", "src/vocab/requirement.rs marker"), ("extra elimination", "src/resolve.rs simplify_out_extra")], (), ["marker eval, blueprint marker_expressions"], H)

p("C17", "Metadata seen at install must equal metadata used for resolving",
  "Installing a pinned package fails with a diagnostic, and yields no environment, when the installed file's requirements, Python requirement or extras differ from those the blueprint recorded, also when the file was already installed earlier; it succeeds when they are equivalent. A wheel, source distribution or Python build whose file name and embedded name or version disagree is refused.",
  ["inputs", "histories"], "every pair of recorded and actual metadata; every file name / metadata pair",
  "No test reaches the comparison.",
  ["src/env.rs", "src/vocab/artifact_formats.rs", "src/resolve.rs"], [("comparison", "src/env.rs get_env"), ("special dir lookup", "src/vocab/artifact_formats.rs find_special_wheel_dir")], (), ["get_env result"], H)

p("C18", "Source builds terminate, are reused, and never recurse into themselves",
  "Building from a source distribution always ends: a package that needs itself to build, directly or through the build requirements of others, is reported as an error instead of recursing or hanging. Build requirements are resolved and installed in an isolated environment, the metadata and the wheel agree with the file's name and version, and a built wheel is kept so that the same file is not built again for a platform it fits.",
  ["histories", "inputs", "configurations"], "every build dependency graph x build backend behaviour x repeated requests",
  "No test builds anything.",
  ["src/package_db/build_wheel.rs", "src/package_db/data-files/build-frontend.py"], [("build stack check", "src/package_db/build_wheel.rs WheelBuilder::new"), ("wheel cache", "src/package_db/build_wheel.rs locally_built_wheel")], [("wheel cache", "built wheels per source file hash", "KVDirStore local-wheels")], ["build results; backend invocations"], H)

p("C19", "Package names and file names are read canonically",
  "Two spellings of a package or extra name are the same exactly when their PEP 503 normal forms agree, wherever names are compared or used as keys. Every artifact file name is either refused or split into distribution, version, build and tags such that printing it gives the name back, names of wheels, Python builds and source distributions are told apart by their extension only, and ordering of files is total and consistent.",
  ["inputs"], "every string offered as a package name, extra or file name",
  "Tests list a few dozen names.",
  ["src/vocab/package_name.rs", "src/vocab/extra.rs", "src/vocab/artifact_name.rs"], [("normalisation", "src/vocab/package_name.rs"), ("file name grammar", "src/vocab/artifact_name.rs")], (), ["parse / eq / hash / Display"], H)

p("C20", "The package index is read faithfully and consistently",
  "For each project the set of files considered is exactly the recognisable files the configured indexes list, each with its absolute URL (base URL and redirects applied), hash, yank state and reason, and Python requirement; unrecognisable entries are skipped without losing others, unsupported API versions are refused, and a project missing from one index does not hide another's files. Within one run every lookup of a project gives the same answer, ordered newest version first.",
  ["inputs", "histories"], "every index page x base URL x set of indexes x changes during the run",
  "Tests parse two fixed pages.",
  ["src/package_db/simple_api/html.rs", "src/package_db/simple_api/fetch.rs", "src/package_db/simple_api/project_info.rs", "src/package_db/package_db.rs"], [("page parser", "src/package_db/simple_api/html.rs"), ("grouping", "src/package_db/simple_api/project_info.rs pack_by_version")], [("artifacts", "memo per project", "PackageDB.artifacts")], ["available_artifacts result"], H)

p("C21", "Environment variables select the environment and nothing else",
  "The variables an environment asks for put its Python's script directory and each package's script directory, in order, before the existing search path, which is kept whole; name the environment's interpreter; and list exactly the library directories of its packages. A Python started that way imports the pinned packages, ignores the user's site directory, and its launchers run that interpreter.",
  ["inputs", "configurations"], "every environment x existing PATH value",
  "No test covers it.",
  ["src/env.rs", "src/data-files/sitecustomize.py"], [("variables", "src/env.rs Env::env_vars"), ("interpreter setup", "src/env.rs munge_unpacked_pybi")], (), ["env_vars result; running python"], H)

p("C22", "Requirements, specifiers, hashes and blueprints survive being written down",
  "Every requirement, specifier set, version, hash and marker that can be parsed prints to a text that parses back to an equal value with the same meaning, and a blueprint or brief written as JSON reads back equal, so that a stored lock file installs the same environment. Input outside the grammar is refused with an error, never a crash or a silently different meaning.",
  ["inputs"], "every string of the requirement grammar (extras, specifiers, URLs, markers, quoting, whitespace) and every value",
  "Tests contain a few dozen strings.",
  ["src/vocab/requirement.rs", "src/vocab/reqparse.rs", "src/vocab/specifier.rs", "src/vocab/artifact_hash.rs", "src/resolve.rs"], [("printers and parsers", "src/vocab")], (), ["parse / Display / serde"], H)

p("C23", "Package metadata is read the way packaging tools write it",
  "Core metadata (headers, folded lines, repeated fields, optional body) gives the name, version, requirements, Python requirement and extras it states, whatever the order and letter case of the fields, and unrelated fields never change the result. Missing or repeated single-valued fields, unsupported metadata versions and malformed lines are refused.",
  ["inputs"], "every metadata document",
  "Tests parse a handful of fixed documents.",
  ["src/vocab/rfc822ish.rs", "src/vocab/core_metadata.rs"], [("field grammar", "src/vocab/rfc822ish.rs"), ("typed fields", "src/vocab/core_metadata.rs")], (), ["parse result"], H)

p("C24", "Parallel runs sharing a cache always finish, with the same results",
  "Any number of processes resolving, building and installing at the same time in one cache directory and one environment directory all finish - none waits forever for a lock while the others still run or have died - and each obtains the result it would have obtained alone. Work for one file is not done twice because of the concurrency.",
  ["schedules", "crash_points"], "every interleaving and kill of processes with overlapping blueprints and acyclic build requirements",
  "No test runs two processes.",
  ["src/kvstore.rs", "src/env.rs", "src/package_db/build_wheel.rs", "src/package_db/package_db.rs"], [("lock nesting order", "src/env.rs get_env, src/package_db/build_wheel.rs")], (), ["completion and results of concurrent runs"], H)

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x) + "\n")
