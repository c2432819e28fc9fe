T = {
 "C15": ("TLA+ definition of PEP 440 (Pep440.tla), model-checked for consistency with TLC; recorded answers of posy's version, specifier and solver code judged against it by TLC",
         "Exhaustive over 7 operators and wildcards on a universe of ~180 version shapes, plus randomly generated specifier sets, spellings and neighbouring versions; numbers below 2^32-1."),
 "C01": ("TLA+ definition of what a consistent environment is (Resolve.tla: Consistent); TLC judges every blueprint that posy's resolver returns for generated package universes served over HTTP",
         "Random small universes (up to ~8 packages x 4 releases, extras, markers, several styles); all judged by TLC against the declarative definition."),
 "C02": ("TLA+ definition of satisfiability of a brief (Resolve.tla: Satisfiable, by enumeration); TLC decides for every generated universe whether posy had to succeed or to fail",
         "Random small universes; TLC enumerates all assignments; a third of the universes with a previous blueprint; cases where PEP 440 itself is ambiguous are left open."),
 "C03": ("TLA+ definition of eligibility and preference (Resolve.tla); TLC judges every pick of posy's resolver",
         "Random universes with yanked, prerelease and requires-python flags per file, previous blueprints, and platform lists."),
 "C16": ("TLA+ definition of PEP 508 requirements and markers (ReqText.tla, Markers.tla), model-checked (MarkersModel.tla); posy's evaluation judged by TLC",
         "All marker token sequences up to a bound plus random requirements, environments and resolutions with markers."),
 "C19": ("TLA+ definition of PEP 503 names and artifact file names (Names.tla), model-checked (NamesModel.tla); posy's answers judged by TLC",
         "All short names over a small alphabet plus random and mutated file names; comparisons checked for being a total order."),
 "C22": ("TLA+ definitions of the requirement/specifier/hash grammar and meaning (ReqText.tla); parse-print-parse judged by TLC for meaning as well as equality",
         "Exhaustive short token sequences plus random texts, briefs and blueprints; every mutation of hashes."),
 "C23": ("TLA+ definition of core metadata files (Metadata.tla), model-checked (MetadataModel.tla); posy's reading of generated files judged by TLC",
         "All documents of up to 4 (6) lines from a line alphabet plus random wheel and pybi metadata."),
}
T["C14"] = ("TLA+ definition of platform compatibility and preference (Platform.tla), model-checked (PlatformModel.tla); posy's compatibility scores and the files it really installs judged by TLC",
  "Every level/architecture/kind near each platform, random Python tag lists and compressed wheel tags, real installs with several usable files, and which of several kept wheels is used.")
T["C20"] = ("TLA+ definition of index pages and URL resolution (Index.tla, Url.tla), model-checked (UrlModel.tla); pages rendered from the model's elements are served over HTTP and posy's file lists judged by TLC",
  "Random pages (anchors, bases, entities, comments, redirects, several indexes, changing pages) and every short URL reference.")
T["C12"] = ("TLA+ model of unpacking (Paths.tla, PathsModel.tla) with links, '..' and the operating system's path walk, checked with TLC for every archive of up to 3 members; the same archives and random hostile ones are unpacked by posy as an unprivileged user and the resulting trees judged by TLC",
  "Model: all archives of 2 members over 8 names/8 targets, of 3 members over 4-6; implementation: those archives plus random zips, tarballs, pybis, sdists and wheels, cut-short archives included.")
T["C13"] = ("explicit TLA+ specification (spec/WheelLayout.tla: entry_points.txt, layout and refusal rules of wheels) evaluated by TLC as the oracle of recorded installations: seeded wheels are installed by the real code, the resulting trees and what every launcher really runs (unix and .exe launchers are executed with stand-in interpreters) are judged",
            "conformance of recorded installations against the specification; launchers are executed")
T["C06"] = ("explicit TLA+ state machine of the store at file-system granularity with power loss, writer death and failing calls (Store.tla, StoreModel.tla), checked exhaustively by TLC; every file-system call of the real KVFileStore is gated by a preload shim, the recorded traces are validated call by call against the specification by TLC, and behaviours TLC generates are replayed into the real code",
  "Model: up to 3 processes/threads, 2 keys, every crash point, torn and lost unsynced writes; implementation: random and TLC-generated schedules with deaths before, during and after every call, short writes and failing calls.")
T["C07"] = ("explicit TLA+ state machine of per-key locks and one-time computation (Store.tla, StoreModel.tla), safety and liveness checked by TLC; real threads and processes run under schedules the shim imposes, recorded traces validated by TLC, TLC behaviours replayed",
  "Model: up to 3 processes, 2 keys; implementation: random and generated schedules of 2-4 actors over overlapping keys, with producers that fail or die.")
T["C08"] = ("explicit TLA+ state machine of directory entries (Store.tla, StoreModel.tla), checked by TLC with crashes at every step; real directory stores driven under the shim, recorded traces validated by TLC",
  "Model: every crash point; implementation: crash at every file-system call of directory entries, then restart; whole installs (wheels, Pythons, source distributions, launchers) interrupted at any of their calls and judged with Crash.tla, whose mechanism (CrashModel.tla) is checked and wrong designs rejected.")
T["C09"] = ("TLA+ specification of HTTP caching, redirects, retries and the hash store as outcome sets (Http.tla); model-checked against a truthful origin (HttpModel.tla: truthful, offline, bounded, hash-checked); random histories and TLC-generated behaviours are run against the real client over loopback with a simulated clock, every exchange and answer judged by TLC",
  "Model: all histories of 4-6 steps for 7 kinds of resources; implementation: random histories of 8-25 operations over random cache headers, validators, clock steps, faults, cut bodies, crashes and restarts. Known finding: chunked bodies cut within a chunk (ureq).")
T["C10"] = ("the same TLA+ specification (Http.tla) for redirects and retries; model-checked loops and bounds; random redirect graphs (chains, loops, relative and cross-host targets, invalid ones) and failure sequences run against the real client, every exchange judged by TLC",
  "Model: loops and redirects to changing pages; implementation: graphs of up to 11 URLs on two hosts, failure runs of up to 9.")
T["C05"] = ("the same TLA+ specification (Http.tla) for downloads by hash: hash store, right/wrong/cut/failed bodies; random histories against the real client with crashes in the middle of bodies, judged by TLC",
  "Model: all histories of 4-6 steps; implementation: histories of up to 25 downloads by sha256 (and algorithms posy refuses) and without hash. The store's own crash safety is C06's.")
T["C11"] = ("TLA+ state machine of a lazily read file (LazyFile.tla: position, loaded parts, requests, answers), checked by TLC together with posy's window strategy (LazyFileModel.tla); behaviours TLC generates and random ones are replayed against the real reader and a server that answers rightly or wrongly; every request and result judged by TLC",
  "Model: every file of up to 10 (13) units with windows of 4, histories of 5-6 operations; implementation: those behaviours plus random histories over sizes at the window edges, 12 kinds of wrong range answers, refusing servers, redirects, faults.")
T["C18"] = ("TLA+ specification of source builds (Build.tla: what has to be built, when that needs itself, the environments of builds, reuse) and a step-by-step state machine of posy's mechanism (BuildModel.tla: stacks, locks, wheel cache), safety and liveness checked by TLC over every small universe; random sequences of resolving and installing with a scripted build backend, recorded hook by hook and judged by TLC",
  "Model: every universe of 2 packages (thorough: 3) and every operation; implementation: universes of up to 5 packages, up to 6 operations, several Pythons, foreign targets, backends that fail, lie, stop silently or are killed, restarts with kept or fresh build directories.")
T["C24"] = ("the same TLA+ specification, with several processes and deaths in the state machine (BuildModel.tla: no deadlock, nothing done twice, everybody gets their own result), checked by TLC; 2-4 real processes at a time over one cache, killed at random moments, the recorded histories judged by TLC; whole processes under schedules the preload shim imposes, what each got judged with Crash.tla",
  "Model: 2 processes, 1 death, every universe of 2 packages, all interleavings; implementation: universes of up to 5 packages, shared and separate environment directories; build directories are private, as in posy's main.")
T["C04"] = ("TLA+ specification of installing (Install.tla: which file, what may be downloaded, which files are good) and a step-by-step state machine of posy's way (InstallModel.tla), checked by TLC; random histories of environments over changing indexes with the real posy, judged by TLC",
  "Model: every index over 3-4 files (wrong hashes, wrong bytes, missing ones), every set of listed hashes, histories of any length; implementation: up to 17 files, up to 5 environments one after the other, wiped caches and environments, source distributions that are built.")
T["C17"] = ("the same TLA+ specification (Install.tla), with what files need as parsed meaning (ReqText.tla); random histories with respelled, reordered and changed metadata, misnamed and broken files, files installed earlier under other names, judged by TLC",
  "Names, versions and metadata in every spelling the generators know; up to 5 environments one after the other.")
T["C21"] = ("TLA+ specification of environments in use (Env.tla: the variables as text, program lookup along the search path, whose module an import finds) and a step-by-step state machine of how they come about (EnvModel.tla: split and join, sitecustomize, .pth, user site), checked by TLC; real environments with a working Python are built, started, and what they answer is judged by TLC",
  "Model: every search path of up to 4 (6) characters and every environment of 2 packages; implementation: environments of up to 4 packages, search paths with empty, relative, repeated and undecodable entries, with the site module frozen and not, launchers and interpreters run.")
