#!/usr/bin/env python3
"""Writes known-findings.json. Fixed entries suppress nothing."""
import json, os
F = """
0201a18 C08 a package customized without a type (only a Repo or Suggests) lost the type its repository is customized to
1739dbd C15 packages a tarball or DESCRIPTION file lists under Depends were not installed
3727702 C24 versions of one component or of five and more components compared as equal or crashed the comparison
1451c6c C28 NoRecommended did not exclude recommended packages that are only suggested
6fed782 C02 install of tarballs only, or of base packages only, panicked while planning
2d470ed C04 install hung when a built binary could not be stored, or when a package was requested after another had failed
1fdaf7f C04 packages that could not be downloaded were handed to R, or the failure was not reported
4844bba C11 a download that ended early was stored in the cache as complete
03f1d4d C07 the os-release information was read and written by the index downloads at the same time (data race)
96aa8a3 C12 a failed index download left an empty index that later runs used; a damaged cached index ended every run
dfb545e C24 a package that depends on R without a version was never installed
b179648 C10 packages of the library that are not part of the plan were counted and updated
a63df7a C15 packages a tarball overwrites were lost when the install failed
509f6b2 C27 packages were moved away for an update before it was known that they could be downloaded
d7f673d C03 rollback stopped at the first folder it could not remove or restore
ffdaf2b C13 a killed install left backups of packages that no later install brought back
246596e C07 data race on the output of R processes
6951e0a C14 a binary that was only partly copied to the cache was used as complete
1b50fcb C19 DESCRIPTION files with very long lines were cut, and a killed run left them half written
5c5ab16 C17 R_LIBS of the caller reached R, and library paths with an equals sign were cut
bd376db C06 the default number of workers was not capped, and load did not run with some thread settings
f7c67b8 C26 with a relative --config, load looked for packages in the wrong directory and edits found no file
3658ec8 C16 tarballs whose extraction had been interrupted counted as extracted; hard links were extracted as empty files
1254f03 C23 cleaning left the unpacked tarballs of the default cache, and panicked without a cache
d63d080 C03 packages that are symbolic links were not put back by a rollback
b136615 C30 plan, load, run and the clean commands did not log to the All file, and commands that call another command logged records twice
fb198c4 C21 renv was asked for the library of the working directory, not of the configured project, and with an unexpanded RPath
6864903 C20 add and remove edited other lists than Packages, and damaged lists with comments, quotes, other indentation or flow style
069ad82 C15 tarballs were installed before the tarballs they require
33a53d4 C10 plan reported tarballs under wrong names and sources
e192b8c C26 everything R printed after a very long line was lost, so loads of such packages were reported wrongly
03270f4 C26 packages listed twice were loaded twice; --json printed more than the report
4fbac4f C12 cached indexes were shared between configurations that ask for different package types
76ce0c5 C13 a killed install left partial DESCRIPTION files
d415301 C16 tarballs with a damaged compressed stream were accepted
45b7171 C20 add to an empty list that starts with a comment produced an invalid file
2716c4b C23 cleaning package databases planned an install first and failed without network
72fc0ae C02 plans with more packages than the install queue holds never ended
09b4737 C02 packages of which the library had an incomplete folder were silently not installed
7c269e4 C16 tarballs of packages with names like foo.xz or foo.zip were sometimes taken for another kind of archive and refused
e1de805 C09 a copy of a package in a library folder of another name counted as the installed package, which was then updated needlessly or not at all
684b0db C29 runs in containers that share a cache can have the same process number, and destroyed each other's half extracted tarballs
907bda5 C31 a folder on PATH whose name begins like R's own kept R's own folder from coming first, so another R was found
b570b21 C31 a relative RPath was searched from the directory each R process is started in
c326654 C20 add --install did not find its configuration again after editing it when --config was a relative path
16b6263 C15 empty fields and trailing commas in DESCRIPTION files made pkgr ask for a package without a name
3cd95d1 C24 R requirements with != made pkgr panic
39816cd C28 a package customization without settings made pkgr panic
793341c C28 several customizations of one package undid each other or ended pkgr
3483f0c C28 settings of package customizations were ignored when not written in the documented case
1fec8ec C17 customised variables such as true or 1.50 reached R as 1 or 1.5
bcc9b87 C17 run used only the first of several customizations of a package
"""
L = []
for l in F.strip().splitlines():
    c, p, w = l.split(" ", 2)
    L.append({"property": p, "status": "fixed", "commit": c, "what": "fixed: property=%s %s %s" % (p, c, w)})
json.dump(L, open(os.path.join(os.path.dirname(__file__), "..", "known-findings.json"), "w"), indent=1)
print(len(L))
