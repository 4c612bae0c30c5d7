NA = {}
BASE = "Decided on generated worlds with an R stand-in, a scripted repository server and a reference model written from the documentation; holds on the executions observed, for the case list VERIF_SEED fixes. "
t("C01", "online order monitor over the start/end log of every R process and the library contents each one saw",
  BASE + "Schedules are varied by per-package delays, thread counts and machine load, not enumerated.")
t("C02", "library snapshots compared with the reference model",
  BASE + "Trusts that the R stand-in installs like R; a leg with the real R checks that.")
t("C05", "exactly-once monitor over R processes and HTTP requests of repeated runs", BASE)
t("C03", "library snapshots before and after runs with injected failures",
  BASE + "Failures are injected into R processes and downloads at every stage.", "fault_enumeration")
t("C04", "monitor of the R process log against the dependants of everything that failed; hang detection by process state and goroutine dump",
  BASE + "A hang is reported only with a positive witness, otherwise the case is inconclusive.", "fault_enumeration")
t("C27", "exit status, R process log and library snapshot for each way an install cannot start",
  BASE, "fault_enumeration")
t("C06", "overlap of the R process lifetimes recorded by the R stand-in", BASE)
t("C07", "Go race detector on a -race build of pkgr running generated workloads of every command",
  BASE + "Only races in executions that happened are reported.")
t("C26", "JSON report compared with the recorded R sessions and their scripted results", BASE)
t("C29", "concurrent pkgr processes sharing a cache, every library compared with the reference model", BASE)
t("C08", "HTTP requests and installed payloads compared with the reference choice", BASE)
t("C09", "library snapshots and R process log compared with the reference update rule", BASE)
t("C10", "plan's JSON log compared with what the following install did; snapshots around plan and inspect", BASE)
t("C24", "what install replaces or installs compared with a reference order on versions, many pairs per world", BASE)
t("C28", "planned and installed sets compared with the reference closure", BASE)
t("C11", "files given to R and cached files compared with the server's record of complete transfers, over runs with injected transfer faults", BASE + "Statuses, cut and kill points are sampled, not enumerated at every byte.", "fault_enumeration")
t("C12", "request log, library snapshot and following runs after injected index faults and cache damage", BASE, "fault_enumeration")
t("C25", "request log and library snapshot of runs against a server with an untrusted certificate", BASE)
t("C13", "library snapshot after recovery of runs killed at file system events, R process boundaries, download bytes and random times", BASE + "Kill points are hit by SIGKILL on inotify events, so they are sampled from what the kernel reports, not enumerated.", "fault_enumeration")
t("C14", "history of builds per cache key compared with the R processes of later runs; continuous reading of every cached binary", BASE)
t("C15", "library snapshots and R process log of repeated installs compared with the reference model of tarballs and DESCRIPTION files", BASE)
t("C16", "extraction trees compared with the archive; snapshots of everything outside the cache folder around hostile, damaged and interrupted extractions", BASE + "pkgr runs as an unprivileged user in a scratch world.", "fault_enumeration")
t("C17", "environment, libraries and working directory recorded by every R process compared with the specification, under hostile caller environments", BASE)
t("C18", "search of all output and log files of runs with unique secret values, at every level and for failing runs", BASE + "Secrets are unique per run so a hit is unambiguous.")
t("C19", "installed DESCRIPTION files compared field by field with the package's own, for every install route, also with the real R", BASE)
t("C21", "effective settings observed through library, cache, log and R processes, for equivalent spellings in flags, environment and file", BASE)
t("C20", "parsed configuration and raw lines compared before and after every add and remove of generated command sequences", BASE + "Layouts: top level in block style, lists in block or flow style.")
t("C22", "reported relations (JSON, reversed, tree, selections) compared with the reference closure of the plan", BASE)
t("C23", "snapshots of the whole world around every clean command compared with the exact set it names; request log and library of what follows", BASE)
t("C30", "records on the console compared as a multiset with the lines every log file gained, for sequences of runs and concurrent runs", BASE)
t("C31", "logs of every R installation in a machine with several, and the PATH each R process saw, compared with the R that was named", BASE)
