#!/usr/bin/env python3
"""Regenerates properties.jsonl (the text below is the source of truth)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why,
              "anchors": {"files": files,
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe, "hook_needed": None}})

p("C01", "Packages are installed only after their dependencies",
  "During `pkgr install`, R is asked to build or install a package only when every package of the plan that it needs (transitively, via Depends, Imports or LinkingTo; base packages aside) is already completely installed in the library at its final version, and nothing it needs is being installed at that moment. Tarball packages, which come last, are installed only after every planned dependency and every other tarball they need; for repository packages, a dependency that a tarball replaces counts in the state it has before the tarballs.",
  ["schedules", "inputs", "configurations"],
  "every dependency graph, worker count and relative duration of the R processes",
  "Unit tests only check the static layer/dependency maps of a few hand-written graphs; the order that actually happens depends on worker scheduling and on how long each R process takes.",
  ["rcmd/install.go", "rcmd/worker.go", "gpsr/solution.go", "gpsr/dependencies.go", "gpsr/helpers.go", "cmd/install.go"],
  [("layered resolution and per-package transitive closure", "gpsr/solution.go ResolveLayers, gpsr/dependencies.go ResolveInstallationReqs"),
   ("update callback releases a package only when all its dependencies are installed", "rcmd/install.go InstallPackagePlan")],
  ["start and end of every R process", "contents of the library at those moments"])

p("C02", "A successful install yields exactly the desired library",
  "If every download and R invocation succeeds, `pkgr install` terminates and leaves in the library every package of the plan, each at the version and with the content served by the repository chosen for it (or by the tarball). Packages that were there before and are not being updated or overridden stay exactly as they were, and nothing else is added: no backup, lock, partial or unrequested entries. This also holds after an earlier install that failed, and when the library has incomplete folders (without a proper DESCRIPTION) of packages of the plan.",
  ["inputs", "schedules", "configurations"],
  "every repository set, dependency graph, initial library, configuration and schedule",
  "The install tests need the network or cover one or two packages; completeness over arbitrary graphs, initial libraries and thread timings is never sampled.",
  ["cmd/install.go", "cmd/plan.go", "rcmd/install.go", "gpsr/solution.go", "cran/download-package.go", "rollback/types.go"],
  [("install queue driven by inverse dependencies", "rcmd/install.go InstallPackagePlan"),
   ("backup folders removed at the end", "rollback/types.go DeleteBackupPackageFolders")],
  ["library contents after the run"])

p("C03", "A failed install restores the library",
  "If any package (repository package or tarball) fails to download, build or install and rollback is not disabled, then when `pkgr install` ends the library directory has exactly the content it had before: new packages gone, updated or overridden packages back at their old content, unrelated entries untouched, no backup entries, and a library the run created is gone again. Leftovers of one package that cannot be removed do not keep the others from being restored. With rollback disabled, the packages that did install stay and every package that was there before and is not being replaced is untouched.",
  ["fault_sequences", "schedules", "inputs", "configurations"],
  "every set of failing packages, every stage of failure, every initial library and schedule",
  "Rollback unit tests call the rollback helpers on fixed directories; which packages are half done when a failure strikes depends on the schedule and the failure point.",
  ["cmd/install.go", "rollback/operations.go", "rollback/types.go", "rcmd/install.go", "pacman/utils.go"],
  [("__OLD__ staging and restore", "rollback/operations.go tagOldInstallation, rollbackChangedPackages"),
   ("rollback plan", "rollback/types.go CreateRollbackPlan")],
  ["library snapshot before and after the run"])

p("C04", "After a failure nothing depending on it starts and the run ends",
  "Whatever fails (a download, a build, an install, storing a built binary in the cache), `pkgr install` terminates instead of hanging, never asks R to build or install a package that (transitively) depends on a failed one, and names the failed package in an error message. A package that could not be downloaded is never handed to R at all.",
  ["fault_sequences", "schedules"],
  "every set of failing operations, every graph and every schedule of the workers",
  "The queue bookkeeping that decides whether the run ends is only reached with several packages in flight when the failure arrives; no test has that.",
  ["rcmd/install.go", "rcmd/worker.go", "cran/download-package.go", "cmd/install.go"],
  [("wait group balanced against queued installs", "rcmd/install.go InstallPackagePlan"),
   ("failed flag stops further requests", "rcmd/install.go InstallPackagePlan")],
  ["process termination", "start events of R processes", "log output"])

p("C05", "Installing again changes nothing",
  "Immediately repeating a successful `pkgr install` with the same configuration, repositories and cache starts no R build or install (other than for tarballs, which are always reinstalled), leaves the library as it was, and downloads no package again. Within one run every package is built at most once and installed into the library at most once.",
  ["histories", "inputs", "schedules"],
  "every configuration and initial library, every number of repetitions, also after the cache was filled by an earlier run",
  "Tests run one install on one library; repeated runs and exactly-once delivery under concurrent completion signals are not observed.",
  ["rcmd/install.go", "gpsr/solution.go", "pacman/utils.go", "cran/download-package.go"],
  [("requested-package set", "rcmd/install.go InstallPackagePlan"),
   ("already-installed short cut", "rcmd/install.go InstallThroughBinary")],
  ["R install events per package", "library snapshots", "HTTP requests"])

p("C06", "Never more parallel R processes than the configured workers",
  "At no moment of `pkgr install` are more R build/install processes running than the worker count: the value of --threads or else of Threads in the configuration if positive, otherwise the usable CPUs capped at eight. `pkgr load` runs at most twice the worker count of R sessions at once and completes for every thread setting.",
  ["schedules", "configurations"],
  "every thread setting, CPU count and set of simultaneously ready packages",
  "Only the arithmetic helper is unit tested, not the number of processes that actually overlap.",
  ["rcmd/worker.go", "cmd/install.go", "cmd/utils.go", "cmd/load.go", "configlib/config.go"],
  [("fixed worker pool", "rcmd/worker.go NewInstallQueue"), ("worker count", "cmd/utils.go getWorkerCount")],
  ["overlap of R process lifetimes"])

p("C07", "No data races",
  "No execution of the pkgr commands contains a data race: concurrent database fetches, downloads, installs, failures and package loads never access the same memory without synchronisation.",
  ["schedules", "inputs"],
  "every interleaving of the goroutines used for repositories, downloads, install workers and loads",
  "The suite is not run with the race detector and never runs several repositories or workers at once.",
  ["rcmd/install.go", "rcmd/worker.go", "cran/utils.go", "cran/pkg_nexus.go", "cran/repodb.go", "cran/sync.go", "cran/download-package.go", "cmd/load.go"],
  [("channels and mutexes", "rcmd/install.go, cran/sync.go, cran/pkg_nexus.go")],
  ["Go race detector reports"])

p("C08", "Each package comes from the repository the configuration dictates",
  "Every package of the plan, dependencies included, is taken from the repository it is pinned to, and otherwise from the first repository in configuration order that offers it in the applicable type (package Type, else the repository's Type, else the platform default); the downloaded file is the one that repository lists. The outcome does not depend on which repository answers first or on the order of the package lists, and a package pinned to one repository is never taken from another.",
  ["inputs", "schedules", "configurations"],
  "every set of overlapping repositories, pins and type customisations, and every order in which repositories answer",
  "Tests use one or two small fixed repositories; response timing and overlapping offers are not varied.",
  ["cran/pkg_nexus.go", "cran/repodb.go", "cran/download-package.go", "configlib/config.go", "cmd/plan.go"],
  [("first match in configured order", "cran/pkg_nexus.go GetPackage"), ("index-addressed results of concurrent fetches", "cran/pkg_nexus.go NewPkgDb")],
  ["HTTP requests", "content of installed packages", "PkgrRepositoryURL stamps"])

p("C09", "Updates touch exactly the outdated planned packages",
  "A package already in the library is replaced if and only if it belongs to the plan, updating is enabled, and the version offered by its chosen repository is newer than the installed one; with updating disabled (NoUpdate or --no-update) no repository package already present is replaced. Nothing is ever downgraded, and installed packages outside the plan are never touched, however outdated.",
  ["inputs", "configurations"],
  "every combination of installed versions, offered versions, plan membership and update settings",
  "Fixed pairs are tested on the comparison helper; the end-to-end effect on mixed libraries is not.",
  ["pacman/utils.go", "gpsr/dependencies.go", "rollback/types.go", "cmd/install.go", "desc/version.go"],
  [("outdated detection", "pacman/utils.go GetOutdatedPackages"), ("staging filtered to the plan", "rollback/types.go PreparePackagesForUpdate")],
  ["library snapshots", "R install events"])

p("C10", "Plan tells what install does, and changes nothing itself",
  "The packages `pkgr plan` announces as to be installed or updated, with their versions, repositories and types, and the counts it reports, are exactly those an immediately following successful `pkgr install` installs or replaces. `plan` and `inspect` leave the library, the configuration and the project directory unchanged (a configured log file aside), start no R install and download no packages.",
  ["inputs", "configurations", "histories"],
  "every configuration, repository set and initial library",
  "Plan and install are tested separately on fixed inputs, never against each other.",
  ["cmd/plan.go", "gpsr/solution.go", "gpsr/dependencies.go", "cmd/inspect.go", "cmd/install.go"],
  [("same planning function for both", "cmd/plan.go planInstall"), ("plan counts", "gpsr/solution.go GetNumPackagesToInstall")],
  ["plan output", "library diff of the following install"])

p("C11", "Failed or partial downloads are never installed or reused",
  "A package file is handed to R or reused from the cache only if it was received completely: after an HTTP error status, a dropped or truncated transfer, or a killed run, the incomplete data is not installed, and the next run fetches the file again and succeeds once the server does. A file that was received completely is not fetched again.",
  ["fault_sequences", "crash_points", "histories"],
  "every package, every byte at which a transfer stops, every error status, every later run",
  "Needs faulty servers and repeated runs sharing a cache; no test has either.",
  ["cran/download-package.go", "rcmd/install.go", "cmd/install.go"],
  [("cached file reused when present", "cran/download-package.go DownloadPackage")],
  ["HTTP request log", "files passed to R", "library contents after the next run"])

p("C12", "Package indexes are complete and fresh or the run stops",
  "If a configured repository's index cannot be fetched completely (unreachable, error status, cut off; but a repository may lack one of the two package types), the run stops without changing the library and the failure is not remembered as an empty or partial index. A cached index is reused only within its maximum age (3600 s, or R_AVAILABLE_PACKAGES_CACHE_CONTROL_MAX_AGE) and only for the same repository name, URL, package types and R version, and a damaged or half-written cached index never keeps later runs from working.",
  ["fault_sequences", "crash_points", "histories", "configurations"],
  "every index fault, cut-off point, cache age and change of repository or R version between runs",
  "Tests use healthy local repositories with a cold cache.",
  ["cran/repodb.go", "cran/pkg_nexus.go", "cmd/plan.go"],
  [("index cache keyed by hash with age check", "cran/repodb.go FetchPackages, Hash"), ("errors returned to the planner", "cran/pkg_nexus.go NewPkgDb")],
  ["HTTP request log", "library and plan after faults"])

p("C13", "A killed install is recovered by running it again",
  "If pkgr is killed at any moment of an install, running `pkgr install` again (once leftover R processes ended) completes and yields the library a never-interrupted install would have produced, with no leftover backup entries. An installed package is at no time lost without either its old or its new version being in the library after that second run.",
  ["crash_points", "histories"],
  "every kill point of every install, including updates and several kills in a row",
  "No test kills a run.",
  ["cmd/install.go", "rollback/operations.go", "cran/download-package.go", "cran/repodb.go", "rcmd/install.go", "cmd/tarballOps.go"],
  [("state derived from the library at start", "pacman/utils.go GetPriorInstalledPackages"), ("staging by rename", "rollback/operations.go")],
  ["library contents after the recovery run"])

p("C14", "Cached binaries are reused only where they belong",
  "A binary in the package cache is installed instead of building only if it was built from the same package and version of the same repository (name and URL) for the same R minor version and platform; otherwise the package is built from the source of the chosen repository. After a successful build the binary is in the cache, so installing the same package into another library builds nothing, and the cache never exposes an incomplete binary.",
  ["histories", "configurations", "crash_points"],
  "every sequence of installs into different libraries with changing repositories, versions, R versions and platforms that share a cache",
  "Tests never run two installs with a shared cache and a changed environment.",
  ["rcmd/install.go", "rcmd/helpers.go", "cran/utils.go", "cran/download-package.go"],
  [("cache path built from repo hash, R version, package, version and platform", "rcmd/install.go isInCache")],
  ["R build/install events and the file they got", "content of installed packages"])

p("C15", "Tarballs are always installed, with their dependencies",
  "Every package listed under Tarballs is installed from that tarball by each `pkgr install`, replacing whatever version is in the library and winning over the same package from a repository; packages it Depends on, Imports or LinksTo are installed from the repositories first (tarballs that need other tarballs after those), and so are all dependencies (suggested ones included) of listed DESCRIPTION files. If installing a tarball fails, the previously installed version is restored.",
  ["inputs", "histories", "fault_sequences"],
  "every set of tarballs and DESCRIPTION files, their dependency fields and every initial library",
  "One fixed tarball is tested without prior library contents or failures.",
  ["cmd/tarballOps.go", "cmd/plan.go", "cmd/install.go", "desc/structs.go", "rollback/types.go", "cmd/descriptionOps.go"],
  [("tarball packages installed after the plan", "cmd/install.go installAdditionalPackages"), ("dependencies added as user packages", "cmd/plan.go planInstall")],
  ["library contents", "R install events"])

p("C16", "Tarball extraction is faithful, contained and all-or-nothing",
  "Unpacking a package tarball creates exactly its regular files and directories, with identical content and the executable bit kept, and never creates, changes or deletes anything outside its own cache folder, whatever entry names or link entries the archive contains; archives with escaping paths, links or special files are refused. Changed tarball content is never served from an old extraction; a truncated or damaged archive (its checksum is wrong) is refused, and an interrupted or refused extraction is never used as if it were complete.",
  ["inputs", "crash_points", "histories"],
  "every archive content and compression, every prior state of the cache folder",
  "Tests contain a handful of archives and no reuse after an aborted extraction.",
  ["internal/archive/extract.go", "cmd/tarballOps.go"],
  [("rooted creation and local-path check", "internal/archive/extract.go"), ("content hash names the folder", "cmd/tarballOps.go untar")],
  ["file system tree around and inside the cache", "content of installed packages"])

p("C17", "R runs only with the libraries and variables pkgr dictates",
  "Every R process pkgr starts to install packages or to open a session sees only the configured library beside R's own: any R_LIBS_USER or R_LIBS_SITE of the caller is replaced (R_LIBS_USER by an empty directory), so neither the caller's libraries nor another build's temporary files are visible. R_LIBS_USER and, in builds from repository sources and in sessions, R_LIBS_SITE are what pkgr sets even if a package's Env customisation names others. The other variables in a package's Env customisation are set, with the text the configuration gives, for that package's R processes, override the caller's, and are not set for any other package.",
  ["inputs", "configurations", "schedules"],
  "every caller environment, set of Env customisations and library path",
  "The environment helper is unit tested on fixed lists, not the environment the R processes really get.",
  ["rcmd/configure.go", "rcmd/nvp.go", "rcmd/Rsettings.go", "rcmd/RunR.go", "configlib/config.go", "cmd/run.go"],
  [("environment list construction", "rcmd/configure.go configureEnv"), ("library path passed as R_LIBS_SITE", "rcmd/Rsettings.go LibPathsEnv")],
  ["environment and working directory of each R process"])

p("C18", "Credentials in the environment never reach logs or output",
  "The values of GITHUB_TOKEN, GITHUB_PAT, GHE_TOKEN, GHE_PAT, AWS_ACCESS_KEY_ID and AWS_SECRET_KEY (names compared case-insensitively) found in pkgr's environment never appear in its standard output, standard error or log files, at any log level, for any command and also when operations fail, unless the configuration itself repeats them (in a repository URL or a per-package Env setting).",
  ["inputs", "configurations", "fault_sequences"],
  "every secret value, command, log level, log format and failure",
  "One test checks one helper; the output of real runs at trace level is never searched.",
  ["rcmd/configure.go", "rcmd/install.go", "rcmd/RunR.go", "logger/logger.go"],
  [("values hidden before logging", "rcmd/configure.go censoredEnvVars")],
  ["all output and log files of runs with unique secret values"])

p("C19", "Installed DESCRIPTION files record where the package came from",
  "Every package pkgr installs carries in its DESCRIPTION exactly one PkgrVersion, PkgrInstallType and PkgrRepositoryURL field holding the pkgr version, how it was installed (source when built from source in that run, binary for repository binaries and binaries from the cache) and the URL of the repository (for a tarball, the path it was installed from), a Repository field naming that repository when the package had one (its old value, if different, kept as OriginalRepository), and all other fields exactly as the package provided them. Packages pkgr does not install never gain these fields.",
  ["inputs", "configurations"],
  "every DESCRIPTION content, repository and install route (built, cached binary, repository binary, tarball)",
  "A few fixed line lists are tested; arbitrary DESCRIPTION content and routes are not.",
  ["rcmd/install.go", "cmd/install.go"],
  [("fields rewritten after R succeeded", "rcmd/install.go updateDescriptionInfo")],
  ["installed DESCRIPTION files compared with the package's own"])

p("C20", "add and remove edit exactly the package list",
  "`pkgr add` makes the configuration's Packages list contain its former entries plus each named package once, `pkgr remove` makes it its former entries minus exactly the named packages; the file stays valid, and every other setting, comment and line is unchanged. Adding a package already listed or removing one that is not listed changes nothing.",
  ["inputs", "histories"],
  "every configuration layout with a block-style top level (indentation, comments, ordering, empty or missing lists), every argument list and sequence of edits",
  "A few fixed files are tested.",
  ["configlib/add_package.go", "configlib/config.go", "cmd/add.go", "cmd/remove.go"],
  [("line insertion below the Packages key", "configlib/add_package.go insertPackages"), ("line removal", "configlib/config.go remove")],
  ["parsed configuration and raw lines before and after"])

p("C21", "Configuration values mean what the documentation says",
  "Relative paths (Library, Cache, Tarballs, Descriptions, local Repos, log files) are taken relative to the configuration file, `~` expands to the home directory and $VAR/${VAR} to the environment, wherever pkgr is started from and however --config is spelled. Settings given on the command line (library, threads, update, rollback, strict, secure flags) override the configuration, and PKGR_LIBRARY and PKGR_RPATH override it too unless the flag is given; with a Lockfile type and no Library the library is the one renv or packrat uses.",
  ["configurations", "inputs"],
  "every combination of working directory, config path spelling, flags, variables and config values, for each command",
  "Most commands are only run from the directory of the configuration with its default name.",
  ["cmd/root.go", "configlib/config.go", "cmd/add.go", "cmd/load.go"],
  [("change to the configuration's directory", "cmd/root.go initConfig"), ("expansion and defaults", "configlib/config.go NewConfig, loadConfigFromPath")],
  ["where libraries, caches and logs appear", "arguments of R processes"])

p("C22", "inspect reports the true dependency relation",
  "`pkgr inspect --deps` lists for each package of the plan that has dependencies exactly the planned packages it depends on directly or indirectly through Depends, Imports and LinkingTo; --reverse lists exactly the inverse relation; naming packages restricts the report to them without changing it; --tree shows the same relation. Lists contain no duplicates, base packages or the package itself.",
  ["inputs", "configurations"],
  "every dependency graph and every selection of packages",
  "Tests check a few fixed graphs of a few packages.",
  ["cmd/inspect.go", "gpsr/dependencies.go", "gpsr/solution.go"],
  [("transitive closure per package", "gpsr/dependencies.go ResolveInstallationReqs"), ("inversion", "gpsr/solution.go InvertDependencies")],
  ["JSON and tree output against a reference closure"])

p("C23", "clean removes exactly what it names",
  "`pkgr clean cache` deletes exactly the cached source and/or binary packages (per --src-only, --binaries-only) of the selected repositories plus the unpacked copies of the configured tarballs, and `clean pkgdbs` exactly the cached indexes of the selected repositories; nothing else in or outside the cache is added, changed or removed, and libraries, tarballs and configuration stay. Cleaning is safe when there is nothing to clean and a following install works and gives the same library.",
  ["histories", "configurations", "inputs"],
  "every cache content, selection of repositories and flags, default or configured cache",
  "Tests clean one fixed tree through internal helpers.",
  ["cmd/cleanCache.go", "cmd/cleanPkgdb.go", "cmd/clean.go"],
  [("per-repository subfolder removal", "cmd/cleanCache.go deleteCacheSubfolders"), ("index removal by hash", "cmd/cleanPkgdb.go removePackageDatabases")],
  ["cache tree before and after"])

p("C24", "Versions are compared numerically, component by component",
  "An installed package counts as outdated exactly when the offered version is greater as a sequence of numbers separated by dots or dashes, for up to five components of any usual size. A package is available exactly when its R version requirement (>=, >, <=, <, ==, !=, or none) is met by the running R, and when an index lists one package several times with different requirements the usable entry is chosen.",
  ["inputs"],
  "every pair of versions and every requirement, R version and index",
  "Tests compare a handful of version pairs.",
  ["desc/version.go", "desc/desc.go", "cran/repodb.go", "pacman/utils.go"],
  [("parse and compare", "desc/version.go ParseVersion, CompareVersions"), ("requirement check", "cran/repodb.go checkRVersionCompatibility")],
  ["which packages an install replaces or installs"])

p("C25", "TLS certificates are verified unless disabled",
  "With an https repository whose certificate is not trusted, pkgr fetches neither the index nor packages and the library stays as it was, unless NoSecure or --no-secure is given, in which case the install works. Disabling verification is never implied by anything else.",
  ["configurations", "histories"],
  "every place a download can happen (index, packages; warm or cold caches), every way of setting the option",
  "No test talks to a TLS server.",
  ["cran/repodb.go", "cran/download-package.go", "cmd/root.go"],
  [("client built per NoSecure", "cran/repodb.go FetchPackages, cran/download-package.go DownloadPackage")],
  ["requests an untrusted TLS server gets to see"])

p("C26", "load reports the true outcome for every package",
  "`pkgr load --json` contains exactly one entry for each package of the configuration (with --all: for each package of the plan), marked successful exactly when R loaded it, with the path and version R reported and the output of its own load, and a failure count equal to the number of unsuccessful entries, regardless of concurrency and of the order in which loads end.",
  ["schedules", "inputs", "fault_sequences"],
  "every set of packages, failures, outputs, delays and thread counts",
  "Tests load one or two packages; concurrent loads with mixed results are not observed.",
  ["cmd/load.go", "cmd/structs.go", "rcmd/rp/lines.go"],
  [("bounded concurrent attempts collected over a channel", "cmd/load.go load, attemptLoadConcurrent")],
  ["JSON report against the recorded R sessions"])

p("C27", "A run that cannot start leaves everything alone",
  "When an install cannot be carried out as configured (a requested package is in no repository, a pin names an unknown repository, an unknown package type, strict mode without library, circular dependencies, an unreadable tarball or DESCRIPTION file, an unusable package cache, a malformed configuration, R not runnable), pkgr exits with a non-zero status before any R install and the library directory is exactly as before, or still absent. `pkgr plan` exits with a non-zero status in the same situations, a missing library in strict mode and an unusable package cache aside.",
  ["configurations", "inputs", "fault_sequences"],
  "every failing precondition, combined with any library content, pending updates and flags",
  "Tests check the single case, mostly through helpers, not the state of the library afterwards.",
  ["cmd/install.go", "cmd/plan.go", "configlib/config.go", "gpsr/solution.go", "cmd/tarballOps.go", "cmd/descriptionOps.go"],
  [("checks before staging", "cmd/install.go rInstall, cmd/plan.go planInstall")],
  ["exit status", "library before and after", "R install events"])

p("C28", "The plan is exactly the dependency closure the settings ask for",
  "The set of installed packages is the closure of the listed packages over Depends, Imports and LinkingTo, plus the suggested packages (and their closure) of exactly those packages for which Suggests is set globally or individually, an individual setting winning over the global one, in whatever case setting names are written and however many entries a package's customisations are spread over. Base packages and IgnorePackages are never installed, and under NoRecommended recommended packages only when listed; dependencies of any kind that no repository offers are skipped.",
  ["inputs", "configurations"],
  "every graph and every combination of Suggests, IgnorePackages, NoRecommended and listed packages",
  "Tests check the helper on a few fixed graphs.",
  ["gpsr/helpers.go", "gpsr/dependencies.go", "cmd/plan.go", "configlib/config.go"],
  [("graph construction with per-package dependency settings", "gpsr/helpers.go appendToGraph")],
  ["set of installed packages against a reference closure"])

p("C29", "Concurrent pkgr runs sharing a cache do not disturb each other",
  "Several pkgr processes that run at the same time with the same cache and index cache but different libraries each end with the library they would have produced alone, and leave the shared cache in a state from which a further run also succeeds.",
  ["schedules", "histories"],
  "every overlap of two or more runs, with cold, warm or partly filled shared caches",
  "No test runs two processes at once.",
  ["cran/download-package.go", "cran/repodb.go", "rcmd/install.go", "cmd/tarballOps.go"],
  [("files created in the shared cache", "cran/download-package.go, cran/repodb.go Encode, rcmd/install.go")],
  ["libraries and R events of all runs"])

p("C30", "Log files receive the complete record of each run",
  "With a log file configured, every record a command logs at the active level is also in the file chosen for that command (`install` for pkgr install when set, otherwise `all`) as one JSON object per line, also when the run fails; earlier content is kept, or replaced when overwrite is set, and records of parallel workers are never torn or lost. Without a configured file none is created.",
  ["schedules", "histories", "configurations"],
  "every command, log configuration, number of workers, outcome and sequence of runs",
  "The logging set-up is only tested for opening a file.",
  ["logger/logger.go", "cmd/install.go", "cmd/add.go", "cmd/inspect.go", "cmd/clean.go"],
  [("file hook beside the console output", "logger/logger.go AddLogFile, LogrusFileHook.Fire")],
  ["console records compared with log file lines"])

p("C31", "One R does all the work of a command, whatever else is installed",
  "Every R process a command starts (version query, builds, installs of binaries and tarballs, renv's library query, the sessions of load and run) is the executable that RPath (or PKGR_RPATH) names, absolute, below the home folder, through variables or links, or relative to the configuration file, with Rscript beside it; without either it is the first R on PATH. No other R of the machine is started, and where RPath names a path, R processes of builds and of run find that same R first on their PATH. Indexes, binaries, folders of cached binaries and a packrat library are those of the version and platform which this R reports.",
  ["configurations", "environments"],
  "every way of naming R, every order of other R installations on PATH, every command, library given or from a lock file, configuration in any directory",
  "Tests run with a fixed RPath string and compare the command or PATH that is built; no test has a second R.",
  ["rcmd/Rsettings.go", "rcmd/configure.go", "rcmd/RunR.go", "cmd/load.go", "configlib/config.go"],
  [("name of the executable, PATH of the child and Rscript beside it", "rcmd/Rsettings.go R, rcmd/configure.go configureEnv, cmd/load.go, configlib/config.go NewConfig")],
  ["logs of all R installations of the machine", "PATH of every R process", "requests and cache folders"])

os.chdir(os.path.dirname(os.path.abspath(__file__)) + "/..")
with open("properties.jsonl", "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
