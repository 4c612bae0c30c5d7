From 0201a1884be0f270b89ce041602797c15530db20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:47 +0000
Subject: [PATCH 01/52] fix: use the repository's type for packages customized
 without a type

---
 cran/pkg_nexus.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cran/pkg_nexus.go b/cran/pkg_nexus.go
index c235fa4..08636a3 100644
--- a/cran/pkg_nexus.go
+++ b/cran/pkg_nexus.go
@@ -128,12 +128,14 @@ func isCorrectRepo(pkg string, r RepoURL, cfg map[string]PkgConfig) bool {
 func (pkgNexus *PkgNexus) GetPackage(pkg string) (desc.Desc, PkgConfig, bool) {
 	cfg, exists := pkgNexus.Config.Packages[pkg]
 	st := pkgNexus.DefaultSourceType
-	if exists && cfg.Type != Default {
+	// a package may be customized without having its own type, eg only a repo
+	typeSet := exists && cfg.Type != Default
+	if typeSet {
 		st = cfg.Type
 	}
 	for _, db := range pkgNexus.Db {
 		rst := st
-		if db.DefaultSourceType != rst && !exists && db.DefaultSourceType != Default {
+		if db.DefaultSourceType != rst && !typeSet && db.DefaultSourceType != Default {
 			rst = db.DefaultSourceType
 		}
 		// For now package existence is checked exactly as the package is specified
-- 
2.43.0


From 1739dbd0df7b9b2c31be7f8e5d3f7770f327e691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:47 +0000
Subject: [PATCH 02/52] fix: count Depends among the dependencies of tarballs
 and DESCRIPTION files

---
 desc/structs.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/desc/structs.go b/desc/structs.go
index 01806d7..2590074 100644
--- a/desc/structs.go
+++ b/desc/structs.go
@@ -81,6 +81,12 @@ type Desc struct {
 func (d *Desc) GetCombinedDependencies(suggests bool) map[string]Dep {
 	combined := map[string]Dep{}
 
+	for key, value := range d.Depends {
+		// a requirement on R itself is no package
+		if key != "R" {
+			combined[key] = value
+		}
+	}
 	for key, value := range d.Imports {
 		combined[key] = value
 	}
-- 
2.43.0


From 37277027b191b0014e4d799a0b1354a4f3ef083c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:02 +0000
Subject: [PATCH 03/52] fix: parse versions with one and with five components

---
 desc/version.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/desc/version.go b/desc/version.go
index 84dda6c..6b9bb7f 100644
--- a/desc/version.go
+++ b/desc/version.go
@@ -8,9 +8,12 @@ import (
 // ParseVersion parses a package string to a version
 func ParseVersion(v string) Version {
 	ver := Version{String: v}
-	parts := regexp.MustCompile(`[\.-]`).Split(v, 4)
+	parts := regexp.MustCompile(`[\.-]`).Split(v, 5)
 	ver.Major, _ = strconv.Atoi(parts[0])
-	ver.Minor, _ = strconv.Atoi(parts[1])
+	// requirements such as R (>= 4) have a single component
+	if len(parts) > 1 {
+		ver.Minor, _ = strconv.Atoi(parts[1])
+	}
 	if len(parts) > 2 {
 		ver.Patch, _ = strconv.Atoi(parts[2])
 	}
-- 
2.43.0


From 1451c6c3fc0b1cc3e7f134a4445ac514cd445d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:02 +0000
Subject: [PATCH 04/52] fix: leave out excluded recommended packages when they
 are suggested

---
 gpsr/helpers.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpsr/helpers.go b/gpsr/helpers.go
index 9258516..4ef899a 100644
--- a/gpsr/helpers.go
+++ b/gpsr/helpers.go
@@ -59,7 +59,7 @@ func appendToGraph(m Graph, d desc.Desc, dependencyConfigs InstallDeps, pkgNexus
 		// to the package specifically as requirements
 		for r := range d.Suggests {
 			_, ok := m[r]
-			if r != "R" && !ok {
+			if r != "R" && !ok && !isExcludedPackage(r, dependencyConfig.NoRecommended) {
 				//fmt.Println(d.Package, "-->", r)
 				pkg, _, exists := pkgNexus.GetPackage(r)
 				if exists {
-- 
2.43.0


From 6fed782b38a3cfeeff105e169031aa70179732ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:19 +0000
Subject: [PATCH 05/52] fix: plan without repository packages

---
 gpsr/solution.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/gpsr/solution.go b/gpsr/solution.go
index 3816786..1f52cf5 100644
--- a/gpsr/solution.go
+++ b/gpsr/solution.go
@@ -82,8 +82,13 @@ func ResolveInstallationReqs(
 
 	outdatedPackages := pacman.GetOutdatedPackages(preinstalledPkgs, pkgNexus.GetPackages(extractNamesFromDesc(preinstalledPkgs)).Packages)
 
+	// there are no layers if no packages are required, eg only tarballs
+	var startingPackages []string
+	if len(resolved) > 0 {
+		startingPackages = resolved[0]
+	}
 	installPlan := InstallPlan{
-		StartingPackages:  resolved[0],
+		StartingPackages:  startingPackages,
 		DepDb:             depDb,
 		InstalledPackages: preinstalledPkgs,
 		OutdatedPackages:  outdatedPackages,
-- 
2.43.0


From 2d470ed49cf3f294c61d2eef2ec4d9d680cf0f61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:18 +0000
Subject: [PATCH 06/52] fix: end the install when a built binary cannot be
 stored or a package is requested after a failure

---
 rcmd/install.go | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/rcmd/install.go b/rcmd/install.go
index 28a40b3..1a7ada4 100644
--- a/rcmd/install.go
+++ b/rcmd/install.go
@@ -12,6 +12,7 @@ import (
 	"runtime"
 	"strings"
 	"sync"
+	"sync/atomic"
 	"syscall"
 	"time"
 
@@ -413,7 +414,8 @@ func InstallPackagePlan(
 	installedPkgs := make(map[string]bool)
 	// if packages ID'd as ready to install signal so can push them only the queue
 	shouldInstall := make(chan string)
-	anyFailed := false
+	// set by the updater and read while requesting installations
+	var anyFailed atomic.Bool
 
 	packagesNeeded := plan.GetNumPackagesToInstall()
 
@@ -425,9 +427,10 @@ func InstallPackagePlan(
 		ncpu,
 		InstallThroughBinary,
 		func(iu InstallUpdate) {
+			defer wg.Done()
 			if iu.Err != nil {
 				log.WithField("err", iu.Err).Warn("error installing")
-				anyFailed = true
+				anyFailed.Store(true)
 				failedPkgs = append(failedPkgs, iu.Package)
 			} else {
 				// set that the package is installed,
@@ -458,7 +461,7 @@ func InstallPackagePlan(
 								allInstalled = false
 							}
 						}
-						if allInstalled && !anyFailed {
+						if allInstalled && !anyFailed.Load() {
 							wg.Add(1)
 							log.WithFields(log.Fields{
 								"from":      iu.Package,
@@ -494,14 +497,14 @@ func InstallPackagePlan(
 
 				}
 			}
-			wg.Done()
 		}, // End anonymous function
 	) // End NewInstallQueue
 	go func(c chan string) {
 		requestedPkgs := make(map[string]bool)
 		for p := range c {
-			if anyFailed {
+			if anyFailed.Load() {
 				// stop trying to install any more
+				wg.Done()
 				continue
 			}
 
@@ -510,6 +513,7 @@ func InstallPackagePlan(
 			_, seen := requestedPkgs[p]
 			if seen {
 				// should only need to request a package once to install
+				wg.Done()
 				continue
 			} else {
 				requestedPkgs[p] = true
@@ -543,7 +547,7 @@ func InstallPackagePlan(
 		}
 	}
 
-	if anyFailed {
+	if anyFailed.Load() {
 		log.Errorf("installation failed for packages: %s", strings.Join(failedPkgs, ", "))
 		return fmt.Errorf("failed installation for packages: %s", strings.Join(failedPkgs, ", "))
 	}
-- 
2.43.0


From 1fdaf7fad71caff2cc6e17699fc50b39711e1a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:45 +0000
Subject: [PATCH 07/52] fix: fail packages that were not downloaded instead of
 installing the working directory

---
 rcmd/install.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/rcmd/install.go b/rcmd/install.go
index 1a7ada4..a001e83 100644
--- a/rcmd/install.go
+++ b/rcmd/install.go
@@ -85,6 +85,9 @@ func Install(
 	} else {
 		ok, err := afero.DirExists(fs, rdir)
 		if !ok || err != nil {
+			if err == nil {
+				err = fmt.Errorf("directory %s does not exist", rdir)
+			}
 			// TODO replace with better error
 			return CmdResult{
 				Stderr:   err.Error(),
@@ -112,7 +115,8 @@ func Install(
 			errs = err.Error()
 		} else {
 			// nil error not ok
-			errs = fmt.Sprintf("%s does not exist", pkgPath)
+			err = fmt.Errorf("%s does not exist", pkgPath)
+			errs = err.Error()
 		}
 		return CmdResult{
 			Stderr:   fmt.Sprintf("err: %s, ok: %v", errs, ok),
@@ -295,6 +299,14 @@ func InstallThroughBinary(
 		return res, "", err
 	}
 
+	if ir.Metadata.Path == "" {
+		// without a path R would be asked to install the working directory
+		return CmdResult{
+			ExitCode: 1,
+			Stderr:   fmt.Sprintf("not downloaded: %s", ir.Package),
+		}, "", fmt.Errorf("package %s was not downloaded", ir.Package)
+	}
+
 	tmpdir := filepath.Join(
 		os.TempDir(),
 		randomString(12),
-- 
2.43.0


From 4844bba277c2950adc55137657c360bd9429d3b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:00 +0000
Subject: [PATCH 08/52] fix: never keep or use incomplete package downloads

---
 cran/download-package.go | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/cran/download-package.go b/cran/download-package.go
index 538efbc..a2dade6 100644
--- a/cran/download-package.go
+++ b/cran/download-package.go
@@ -216,7 +216,7 @@ func DownloadPackage(fs afero.Fs, d PkgDl, dest string, rv RVersion, noSecure bo
 			}).Warn("bad server response")
 			b, _ := ioutil.ReadAll(resp.Body)
 			log.WithField("package", d.Package.Package).Println("body: ", string(b))
-			return Download{Metadata: d}, err
+			return Download{Metadata: d}, fmt.Errorf("failed fetching %s, with status %s", pkgdl, resp.Status)
 		}
 		from = resp.Body
 		// not sure if we need to close both from and resp.Body but shouldn't be problematic to call twice just in case
@@ -227,12 +227,15 @@ func DownloadPackage(fs afero.Fs, d PkgDl, dest string, rv RVersion, noSecure bo
 			log.WithFields(log.Fields{
 				"package": d.Package.Package,
 				"path":    pkgdl,
-			}).Fatal("missing package")
+			}).Error("missing package")
+			return Download{Metadata: d}, err
 		}
 		defer from.Close()
 	}
 
-	file, err := fs.Create(dest)
+	// Write to a separate file first, so that a partial download is never found at dest.
+	part := fmt.Sprintf("%s.%d-%d.part", dest, os.Getpid(), time.Now().UnixNano())
+	file, err := fs.Create(part)
 	if err != nil {
 		log.WithFields(log.Fields{
 			"package": d.Package,
@@ -240,9 +243,15 @@ func DownloadPackage(fs afero.Fs, d PkgDl, dest string, rv RVersion, noSecure bo
 		}).Warn("error downloading package, no tarball created")
 		return Download{}, err
 	}
-	defer file.Close()
 	size, err := io.Copy(file, from)
+	if errClose := file.Close(); err == nil {
+		err = errClose
+	}
+	if err == nil {
+		err = fs.Rename(part, dest)
+	}
 	if err != nil {
+		fs.Remove(part)
 		return Download{Metadata: d}, err
 	}
 
-- 
2.43.0


From 03f1d4d5e9a985b29a72df37bfca4cbe6c4a6eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:02 +0000
Subject: [PATCH 09/52] fix: read the os release under a lock

---
 cran/utils.go | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/cran/utils.go b/cran/utils.go
index a9cc0d2..90c2deb 100644
--- a/cran/utils.go
+++ b/cran/utils.go
@@ -10,6 +10,7 @@ import (
 	"io/ioutil"
 	"regexp"
 	"runtime"
+	"sync"
 )
 
 type BinaryUriType int
@@ -21,6 +22,9 @@ const (
 
 var osRelease OsRelease
 
+// repositories are set up concurrently, and each asks for the os release
+var osReleaseMutex sync.Mutex
+
 var supportedDistros = map[string]bool{
 	"focal": true,
 	"bionic": true,
@@ -109,12 +113,10 @@ func getLinuxCodename() string {
 
 
 func getLinuxBinaryUri() string {
-	if !osRelease.checked {
-		err := ReadOsRelease()
-		if err != nil {
-			log.Warnf("could not get derive linux information with error: %s\n", err)
-			return ""
-		}
+	err := ReadOsRelease()
+	if err != nil {
+		log.Warnf("could not get derive linux information with error: %s\n", err)
+		return ""
 	}
 	if osRelease.Id == "" {
 		return ""
@@ -167,6 +169,8 @@ func RepoURLHash(r RepoURL) string {
 }
 
 func ReadOsRelease() error {
+	osReleaseMutex.Lock()
+	defer osReleaseMutex.Unlock()
 
 	if osRelease.checked {
 		// Already checked
-- 
2.43.0


From 96aa8a36c5ce0a2793673188a4435e5776a18285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:18 +0000
Subject: [PATCH 10/52] fix: stop when an index cannot be fetched, and replace
 damaged cached indexes

---
 cran/repodb.go | 53 +++++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 42 insertions(+), 11 deletions(-)

diff --git a/cran/repodb.go b/cran/repodb.go
index 07014ee..15b6567 100644
--- a/cran/repodb.go
+++ b/cran/repodb.go
@@ -60,7 +60,13 @@ func (repoDb *RepoDb) Decode(file string) error {
 	}
 	defer f.Close()
 	d := gob.NewDecoder(f)
-	return d.Decode(&repoDb.DescriptionsBySourceType)
+	descriptions := make(map[SourceType]map[string]desc.Desc)
+	err = d.Decode(&descriptions)
+	if err != nil {
+		return err
+	}
+	repoDb.DescriptionsBySourceType = descriptions
+	return nil
 }
 
 // Encode encodes the PackageDatabase
@@ -69,7 +75,8 @@ func (repoDb *RepoDb) Encode(file string) error {
 	if err != nil {
 		return err
 	}
-	f, err := os.Create(file)
+	// Write to a separate file first, so that other runs never find a partial database.
+	f, err := os.CreateTemp(filepath.Dir(file), filepath.Base(file)+".part")
 	if err != nil {
 		return err
 	}
@@ -77,10 +84,19 @@ func (repoDb *RepoDb) Encode(file string) error {
 
 	// Encoding the map
 	err = e.Encode(repoDb.DescriptionsBySourceType)
+	if errClose := f.Close(); err == nil {
+		err = errClose
+	}
+	if err == nil {
+		err = os.Chmod(f.Name(), 0644)
+	}
+	if err == nil {
+		err = os.Rename(f.Name(), file)
+	}
 	if err != nil {
-		return err
+		os.Remove(f.Name())
 	}
-	return nil
+	return err
 }
 
 // Hash provides a hash based on the RepoDb sources
@@ -133,10 +149,15 @@ func (repoDb *RepoDb) FetchPackages(rVersion RVersion, noSecure bool) error {
 		}
 		if fi.ModTime().Add(time.Duration(maxSecs)*time.Second).Unix() > time.Now().Unix() {
 			// only read if was cached in the last hour
-			return repoDb.Decode(pkgdbFile)
+			err := repoDb.Decode(pkgdbFile)
+			if err == nil {
+				return nil
+			}
+			// a damaged cache is fetched anew, like an old one
+			log.WithField("file", pkgdbFile).Warnf("could not read cached package database: %s", err)
 		}
 		err := os.Remove(pkgdbFile)
-		if err != nil {
+		if err != nil && !os.IsNotExist(err) {
 			fmt.Println("error removing cache ", pkgdbFile, err)
 		}
 	}
@@ -145,6 +166,8 @@ func (repoDb *RepoDb) FetchPackages(rVersion RVersion, noSecure bool) error {
 		St                    SourceType
 		AvailableDescriptions map[string]desc.Desc
 		Err                   error
+		// the repository answered, but has no packages of this type
+		Absent bool
 	}
 
 	client := &http.Client{}
@@ -175,6 +198,7 @@ func (repoDb *RepoDb) FetchPackages(rVersion RVersion, noSecure bool) error {
 					downloadChannel <- downloadDatabase{
 						St:                    st,
 						AvailableDescriptions: descriptionMap,
+						Absent:                res.StatusCode == http.StatusNotFound || res.StatusCode == http.StatusForbidden || res.StatusCode == http.StatusGone,
 						Err:                   fmt.Errorf("failed fetching PACKAGES file from %s, with status %s", pkgURL, res.Status)}
 					return
 				}
@@ -195,11 +219,14 @@ func (repoDb *RepoDb) FetchPackages(rVersion RVersion, noSecure bool) error {
 			} else {
 				pkgdir, _ := homedir.Expand(pkgURL)
 				pkgdir, _ = filepath.Abs(pkgdir)
-				if fi, err := os.Open(pkgdir); !os.IsNotExist(err) {
-					body, err = ioutil.ReadAll(fi)
-					fi.Close()
-				} else {
+				var err error
+				body, err = os.ReadFile(pkgdir)
+				if os.IsNotExist(err) {
 					err = fmt.Errorf("no package file found at: %s", pkgdir)
+					downloadChannel <- downloadDatabase{St: st, AvailableDescriptions: descriptionMap, Err: err, Absent: true}
+					return
+				}
+				if err != nil {
 					downloadChannel <- downloadDatabase{St: st, AvailableDescriptions: descriptionMap, Err: err}
 					return
 				}
@@ -250,12 +277,16 @@ func (repoDb *RepoDb) FetchPackages(rVersion RVersion, noSecure bool) error {
 
 	}
 	errorCount := 0
+	failed := false
 	var lasterr error
 	for i := 0; i < len(repoDb.DescriptionsBySourceType); i++ {
 		result := <-downloadChannel
 		if result.Err != nil {
 			log.Warnf("error downloading repo %s, type: %s, with information: %s\n", repoDb.Repo.Name, result.St, result.Err)
 			errorCount++
+			if !result.Absent {
+				failed = true
+			}
 			lasterr = result.Err
 			// if one repo fails should return the error and not continue
 			// as don't want a partial repodb as it might cause improperly pulled packages
@@ -264,7 +295,7 @@ func (repoDb *RepoDb) FetchPackages(rVersion RVersion, noSecure bool) error {
 		}
 	}
 	// if only one source fails, this could be because it isn't present - eg if have binary/source but only source available
-	if len(repoDb.DescriptionsBySourceType) > 1 && errorCount == len(repoDb.DescriptionsBySourceType) {
+	if failed || errorCount == len(repoDb.DescriptionsBySourceType) {
 		return lasterr
 	}
 
-- 
2.43.0


From dfb545ea9431a53b46e890af3db6c5cca44666b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:20 +0000
Subject: [PATCH 11/52] fix: accept a dependency on R without a version

---
 cran/repodb.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cran/repodb.go b/cran/repodb.go
index 15b6567..630bff5 100644
--- a/cran/repodb.go
+++ b/cran/repodb.go
@@ -323,6 +323,9 @@ func checkRVersionCompatibility(rVersion RVersion, pkgRConstraint desc.Dep) bool
 	// v2 for R >= 3.5
 	packageValid := false
 	switch pkgRConstraint.Constraint {
+	case desc.None:
+		// eg Depends: R, without any version
+		packageValid = true
 	case desc.GT:
 		packageValid = desc.CompareVersions(installationVersion, pkgRConstraint.Version) > 0
 	case desc.GTE:
-- 
2.43.0


From b1796484e295dedd83bccf1aff9c938d19bda5ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:04 +0000
Subject: [PATCH 12/52] fix: update and count only packages of the plan, each
 once

---
 gpsr/dependencies.go |  8 ++++++--
 gpsr/solution.go     | 13 ++-----------
 2 files changed, 8 insertions(+), 13 deletions(-)

diff --git a/gpsr/dependencies.go b/gpsr/dependencies.go
index 0f1d113..efebe00 100644
--- a/gpsr/dependencies.go
+++ b/gpsr/dependencies.go
@@ -142,12 +142,16 @@ func (ip *InstallPlan) Pack(pkgNexus *cran.PkgNexus) {
 }
 
 func (ip *InstallPlan) GetAllPackages() []string {
-	toInstall := ip.StartingPackages
+	var toInstall []string
+	toInstall = append(toInstall, ip.StartingPackages...)
 	for depsList := range ip.DepDb {
 		toInstall = append(toInstall, depsList)
 	}
 	for pkg := range ip.AdditionalPackageSources {
-		toInstall = append(toInstall, pkg)
+		// may be required from a repository as well
+		if !funk.ContainsString(toInstall, pkg) {
+			toInstall = append(toInstall, pkg)
+		}
 	}
 	return toInstall
 }
diff --git a/gpsr/solution.go b/gpsr/solution.go
index 1f52cf5..0ec26ef 100644
--- a/gpsr/solution.go
+++ b/gpsr/solution.go
@@ -80,8 +80,6 @@ func ResolveInstallationReqs(
 		}
 	}
 
-	outdatedPackages := pacman.GetOutdatedPackages(preinstalledPkgs, pkgNexus.GetPackages(extractNamesFromDesc(preinstalledPkgs)).Packages)
-
 	// there are no layers if no packages are required, eg only tarballs
 	var startingPackages []string
 	if len(resolved) > 0 {
@@ -91,18 +89,11 @@ func ResolveInstallationReqs(
 		StartingPackages:  startingPackages,
 		DepDb:             depDb,
 		InstalledPackages: preinstalledPkgs,
-		OutdatedPackages:  outdatedPackages,
 		CreateLibrary:     !libraryExists,
 		Update:            update,
 	}
 	installPlan.Pack(pkgNexus)
+	// only packages of the plan, others that happen to be in the library are never updated
+	installPlan.OutdatedPackages = pacman.GetOutdatedPackages(preinstalledPkgs, installPlan.PackageDownloads)
 	return installPlan, nil
 }
-
-func extractNamesFromDesc(installedPackages map[string]desc.Desc) []string {
-	var installedPackageNames []string
-	for key := range installedPackages {
-		installedPackageNames = append(installedPackageNames, key)
-	}
-	return installedPackageNames
-}
-- 
2.43.0


From a63df7adeb6b4e9975bc4956e4757db236bdfb6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:17 +0000
Subject: [PATCH 13/52] fix: keep packages that tarballs overwrite until the
 packages needing them are installed

---
 cmd/install.go | 10 +++++++---
 cmd/plan.go    |  9 +++++++++
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/cmd/install.go b/cmd/install.go
index b8ad05a..1f73649 100644
--- a/cmd/install.go
+++ b/cmd/install.go
@@ -87,7 +87,6 @@ func rInstall(cmd *cobra.Command, args []string) error {
 		log.Info("update argument passed. staging packages for update...")
 		rollbackPlan.PreparePackagesForUpdate(fs, cfg.Library)
 	}
-	rollbackPlan.PrepareAdditionalPackagesForOverwrite(fs, cfg.Library)
 
 	// Create a list of package download objects using our install plan and our "nexus" object.
 	// pkgsToDownload := getPackagesToDownload(installPlan, pkgNexus)
@@ -130,9 +129,14 @@ func rInstall(cmd *cobra.Command, args []string) error {
 	)
 
 	//
-	// Install the tarballs, if applicable.
+	// Install the tarballs, if applicable. As they are installed last, nothing is installed from them after a failure,
+	// and the packages they overwrite stay available until then.
 	//
-	errInstallAdditional := installAdditionalPackages(installPlan, rSettings, cfg.Library, cfg.Cache)
+	var errInstallAdditional error
+	if err == nil {
+		rollbackPlan.PrepareAdditionalPackagesForOverwrite(fs, cfg.Library)
+		errInstallAdditional = installAdditionalPackages(installPlan, rSettings, cfg.Library, cfg.Cache)
+	}
 
 	log.WithField("duration", time.Since(startTime)).Info("total package install time")
 
diff --git a/cmd/plan.go b/cmd/plan.go
index 83490c7..6b28760 100644
--- a/cmd/plan.go
+++ b/cmd/plan.go
@@ -250,6 +250,15 @@ func planInstall(rv cran.RVersion, exitOnMissing bool) (*cran.PkgNexus, gpsr.Ins
 
 	installPlan.AdditionalPackageSources = unpackedTarballPkgs
 
+	// Packages that are overwritten from a tarball anyhow aren't updated before.
+	var outdatedPackages []cran.OutdatedPackage
+	for _, p := range installPlan.OutdatedPackages {
+		if _, isAdditional := unpackedTarballPkgs[p.Package]; !isAdditional {
+			outdatedPackages = append(outdatedPackages, p)
+		}
+	}
+	installPlan.OutdatedPackages = outdatedPackages
+
 	logAdditionalPackageOrigins(installPlan.AdditionalPackageSources)
 
 	rollbackPlan := rollback.CreateRollbackPlan(cfg.Library, installPlan, installedPackages)
-- 
2.43.0


From 509f6b2b4590be230abc4be702a4439ba5252068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:05 +0000
Subject: [PATCH 14/52] fix: download packages before changing the library

---
 cmd/install.go | 36 ++++++++++++++++++------------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/cmd/install.go b/cmd/install.go
index 1f73649..ebc527e 100644
--- a/cmd/install.go
+++ b/cmd/install.go
@@ -67,13 +67,25 @@ func rInstall(cmd *cobra.Command, args []string) error {
 	//  as well as a master install plan to guide our process.
 	_, installPlan, rollbackPlan := planInstall(rVersion, true)
 
-	if installPlan.CreateLibrary {
-		if cfg.Strict {
-			log.WithFields(log.Fields{
-				"library": cfg.Library,
-			}).Fatal("library directory must exist before running pkgr in strict mode -- halting execution")
-		}
+	if installPlan.CreateLibrary && cfg.Strict {
+		log.WithFields(log.Fields{
+			"library": cfg.Library,
+		}).Fatal("library directory must exist before running pkgr in strict mode -- halting execution")
+	}
+
+	// Create a list of package download objects using our install plan and our "nexus" object.
+	// pkgsToDownload := getPackagesToDownload(installPlan, pkgNexus)
+
+	// Retrieve a cache to store any packages we need to download for the install.
+	packageCache := rcmd.NewPackageCache(userCache(cfg.Cache), false)
 
+	// Create a pkgMap object, which helps us with parallel downloads (?)
+	pkgMap, err := cran.DownloadPackages(fs, installPlan.PackageDownloads, packageCache.BaseDir, rVersion, cfg.NoSecure)
+	if err != nil {
+		log.Fatalf("error downloading packages: %s", err)
+	}
+
+	if installPlan.CreateLibrary {
 		err := fs.MkdirAll(cfg.Library, 0755)
 		if err != nil {
 			log.WithFields(log.Fields{
@@ -88,18 +100,6 @@ func rInstall(cmd *cobra.Command, args []string) error {
 		rollbackPlan.PreparePackagesForUpdate(fs, cfg.Library)
 	}
 
-	// Create a list of package download objects using our install plan and our "nexus" object.
-	// pkgsToDownload := getPackagesToDownload(installPlan, pkgNexus)
-
-	// Retrieve a cache to store any packages we need to download for the install.
-	packageCache := rcmd.NewPackageCache(userCache(cfg.Cache), false)
-
-	// Create a pkgMap object, which helps us with parallel downloads (?)
-	pkgMap, err := cran.DownloadPackages(fs, installPlan.PackageDownloads, packageCache.BaseDir, rVersion, cfg.NoSecure)
-	if err != nil {
-		log.Fatalf("error downloading packages: %s", err)
-	}
-
 	// Set the arguments to be passed in to the R Package Installer
 	pkgInstallArgs := rcmd.NewDefaultInstallArgs()
 	pkgInstallArgs.Library, _ = filepath.Abs(cfg.Library)
-- 
2.43.0


From d7f673dae3c6e27914c9689d892c20af09ae5673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:08 +0000
Subject: [PATCH 15/52] fix: restore as many packages as possible when a
 rollback meets errors, and keep backups that are still needed

---
 cmd/install.go         |  8 ++++++--
 rollback/operations.go | 30 +++++++++++++++++++++---------
 2 files changed, 27 insertions(+), 11 deletions(-)

diff --git a/cmd/install.go b/cmd/install.go
index ebc527e..4fad1b3 100644
--- a/cmd/install.go
+++ b/cmd/install.go
@@ -140,10 +140,11 @@ func rInstall(cmd *cobra.Command, args []string) error {
 
 	log.WithField("duration", time.Since(startTime)).Info("total package install time")
 
+	var errRollback error
 	if !cfg.NoRollback {
 		// If anything went wrong during the installation, rollback the environment.
 		if err != nil || errInstallAdditional != nil {
-			errRollback := rollback.RollbackPackageEnvironment(fs, rollbackPlan)
+			errRollback = rollback.RollbackPackageEnvironment(fs, rollbackPlan)
 			if errRollback != nil {
 				log.WithFields(log.Fields{}).Error("failed to reset package environment after bad installation. Your package Library will be in a corrupt state. It is recommended you delete your Library and reinstall all packages.")
 			}
@@ -151,7 +152,10 @@ func rInstall(cmd *cobra.Command, args []string) error {
 	}
 	// If any packages were being updated, we need to remove any leftover backup folders that were created.
 	// Errors are handled in the lower functions
-	_ = rollbackPlan.DeleteBackupPackageFolders(fs)
+	// A backup that could not be restored is all that is left of the package, so keep it.
+	if errRollback == nil {
+		_ = rollbackPlan.DeleteBackupPackageFolders(fs)
+	}
 
 	log.Info("duration:", time.Since(startTime))
 
diff --git a/rollback/operations.go b/rollback/operations.go
index fd901cf..9026e4f 100644
--- a/rollback/operations.go
+++ b/rollback/operations.go
@@ -27,6 +27,9 @@ func RollbackPackageEnvironment(fileSystem afero.Fs, rbp RollbackPlan) error {
 		return nil
 	}
 
+	// An error must not keep the remaining packages from being restored.
+	var firstErr error
+
 	for _, pkg := range rbp.NewPackages {
 		err1 := fileSystem.RemoveAll(filepath.Join(rbp.Library, pkg))
 		if err1 != nil {
@@ -34,7 +37,9 @@ func RollbackPackageEnvironment(fileSystem afero.Fs, rbp RollbackPlan) error {
 				"library": rbp.Library,
 				"package": pkg,
 			}).Warn("failed to remove package during rollback", err1)
-			return err1
+			if firstErr == nil {
+				firstErr = err1
+			}
 		}
 	}
 
@@ -42,20 +47,20 @@ func RollbackPackageEnvironment(fileSystem afero.Fs, rbp RollbackPlan) error {
 	//restored from backups.
 	if len(rbp.UpdateRollbacks) > 0 {
 		err2 := rollbackChangedPackages(fileSystem, rbp.UpdateRollbacks)
-		if err2 != nil {
-			return err2
+		if err2 != nil && firstErr == nil {
+			firstErr = err2
 		}
 	}
 
 	//Rollback additional packages -- same process as updated packages, but we hold them in a separate object.
 	if len(rbp.AdditionalPkgRollbacks) > 0 {
 		err3 := rollbackChangedPackages(fileSystem, rbp.AdditionalPkgRollbacks)
-		if err3 != nil {
-			return err3
+		if err3 != nil && firstErr == nil {
+			firstErr = err3
 		}
 	}
 
-	return nil
+	return firstErr
 }
 
 func DeleteBackupPackageFolders(fileSystem afero.Fs, packageBackupInfo []UpdateAttempt) error {
@@ -90,6 +95,8 @@ func rollbackChangedPackages(fileSystem afero.Fs, packageBackupInfo []UpdateAtte
 		return nil
 	}
 
+	var firstErr error
+
 	for _, info := range packageBackupInfo {
 
 		logrus.WithFields(logrus.Fields{
@@ -106,7 +113,10 @@ func rollbackChangedPackages(fileSystem afero.Fs, packageBackupInfo []UpdateAtte
 					"package":           info.Package,
 					"problem_directory": info.ActivePackageDirectory,
 				}).Warn("could not delete directory during package rollback")
-				return err1
+				if firstErr == nil {
+					firstErr = err1
+				}
+				continue
 			}
 		}
 
@@ -116,12 +126,14 @@ func rollbackChangedPackages(fileSystem afero.Fs, packageBackupInfo []UpdateAtte
 			logrus.WithFields(logrus.Fields{
 				"pkg": info.Package,
 			}).Warn("could not rollback package -- package will need reinstallation.")
-			return err2
+			if firstErr == nil {
+				firstErr = err2
+			}
 		}
 
 	}
 
-	return nil
+	return firstErr
 }
 
 // createUpdateBackupFolders ...
-- 
2.43.0


From ffdaf2bab339667466fa1241a1c607b5f6649371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:32 +0000
Subject: [PATCH 16/52] fix: recover the library after an install was killed

---
 cmd/install.go         |  9 ++++++
 rollback/operations.go | 69 ++++++++++++++++++++++++++++++++++++++++--
 2 files changed, 75 insertions(+), 3 deletions(-)

diff --git a/cmd/install.go b/cmd/install.go
index 4fad1b3..f903da2 100644
--- a/cmd/install.go
+++ b/cmd/install.go
@@ -63,6 +63,15 @@ func rInstall(cmd *cobra.Command, args []string) error {
 	// most people should know what platform they are on
 	log.Debugln("OS Platform " + rSettings.Platform)
 
+	// An install that was killed may have left the library with packages in the middle of being replaced.
+	err := rollback.RecoverLibrary(fs, cfg.Library)
+	if err != nil {
+		log.WithFields(log.Fields{
+			"library": cfg.Library,
+			"error":   err,
+		}).Fatal("could not recover the library from an interrupted install")
+	}
+
 	// Get master object containing the packages available in each repository (pkgNexus),
 	//  as well as a master install plan to guide our process.
 	_, installPlan, rollbackPlan := planInstall(rVersion, true)
diff --git a/rollback/operations.go b/rollback/operations.go
index 9026e4f..c5ddc25 100644
--- a/rollback/operations.go
+++ b/rollback/operations.go
@@ -5,8 +5,68 @@ import (
 	"github.com/sirupsen/logrus"
 	"github.com/spf13/afero"
 	"path/filepath"
+	"strings"
 )
 
+const (
+	// backupPrefix tags the old installation of a package while it is replaced
+	backupPrefix = "__OLD__"
+	// removedPrefix tags a folder that is being deleted
+	removedPrefix = "__DEL__"
+)
+
+// RecoverLibrary completes what an install that was killed left undone in the library: packages that were being
+// replaced are restored from their backups, and folders that were being deleted are removed.
+func RecoverLibrary(fileSystem afero.Fs, library string) error {
+	libraryExists, err := afero.DirExists(fileSystem, library)
+	if err != nil || !libraryExists {
+		return err
+	}
+	entries, err := afero.ReadDir(fileSystem, library)
+	if err != nil {
+		return err
+	}
+	for _, entry := range entries {
+		name := entry.Name()
+		switch {
+		case strings.HasPrefix(name, removedPrefix):
+			err = fileSystem.RemoveAll(filepath.Join(library, name))
+		case strings.HasPrefix(name, backupPrefix):
+			// The backup is complete as long as it has this name, unlike the folder of the package.
+			pkg := strings.TrimPrefix(name, backupPrefix)
+			logrus.WithField("pkg", pkg).Warn("restoring package from the backup of an interrupted install")
+			err = removePackage(fileSystem, library, pkg)
+			if err == nil {
+				err = fileSystem.Rename(filepath.Join(library, name), filepath.Join(library, pkg))
+			}
+		}
+		if err != nil {
+			return err
+		}
+	}
+	return nil
+}
+
+// removePackage deletes a folder of the library. It is renamed first, so that a folder which is only partially deleted
+// is not mistaken for a package or a backup.
+func removePackage(fileSystem afero.Fs, library, name string) error {
+	dir := filepath.Join(library, name)
+	exists, err := afero.Exists(fileSystem, dir)
+	if err != nil || !exists {
+		return err
+	}
+	removed := filepath.Join(library, removedPrefix+name)
+	err = fileSystem.RemoveAll(removed)
+	if err != nil {
+		return err
+	}
+	err = fileSystem.Rename(dir, removed)
+	if err != nil {
+		return err
+	}
+	return fileSystem.RemoveAll(removed)
+}
+
 // RollbackPackageEnvironment "executes" the given RollbackPlan, thereby resetting the environment to the state it was in before rbp.InstallPlan was applied.
 func RollbackPackageEnvironment(fileSystem afero.Fs, rbp RollbackPlan) error {
 
@@ -14,6 +74,9 @@ func RollbackPackageEnvironment(fileSystem afero.Fs, rbp RollbackPlan) error {
 	logrus.Trace("Resetting package environment")
 
 	if rbp.InstallPlan.CreateLibrary {
+		for _, pkg := range rbp.NewPackages {
+			_ = removePackage(fileSystem, rbp.Library, pkg) // what remains is removed below
+		}
 		err0 := fileSystem.RemoveAll(rbp.Library)
 
 		if err0 != nil {
@@ -31,7 +94,7 @@ func RollbackPackageEnvironment(fileSystem afero.Fs, rbp RollbackPlan) error {
 	var firstErr error
 
 	for _, pkg := range rbp.NewPackages {
-		err1 := fileSystem.RemoveAll(filepath.Join(rbp.Library, pkg))
+		err1 := removePackage(fileSystem, rbp.Library, pkg)
 		if err1 != nil {
 			logrus.WithFields(logrus.Fields{
 				"library": rbp.Library,
@@ -74,7 +137,7 @@ func DeleteBackupPackageFolders(fileSystem afero.Fs, packageBackupInfo []UpdateA
 		backupExists, _ := afero.Exists(fileSystem, info.BackupPackageDirectory)
 		//_, err1 := fileSystem.Stat(info.BackupPackageDirectory) // Checking existence
 		if backupExists {
-			err1 := fileSystem.RemoveAll(info.BackupPackageDirectory)
+			err1 := removePackage(fileSystem, filepath.Dir(info.BackupPackageDirectory), filepath.Base(info.BackupPackageDirectory))
 			if err1 != nil {
 				logrus.WithFields(logrus.Fields{
 					"package":           info.Package,
@@ -150,7 +213,7 @@ func createUpdateBackupFolders(fileSystem afero.Fs, libraryPath string, outdated
 
 func tagOldInstallation(fileSystem afero.Fs, libraryPath string, outdatedPackage cran.OutdatedPackage) UpdateAttempt {
 	packageDir := filepath.Join(libraryPath, outdatedPackage.Package)
-	taggedPackageDir := filepath.Join(libraryPath, "__OLD__"+outdatedPackage.Package)
+	taggedPackageDir := filepath.Join(libraryPath, backupPrefix+outdatedPackage.Package)
 
 	err := fileSystem.Rename(packageDir, taggedPackageDir)
 	//err := RenameDirRecursive(fileSystem, packageDir, taggedPackageDir)
-- 
2.43.0


From 246596e411bb7f38cee70d9eac30529cc5342748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:09 +0000
Subject: [PATCH 17/52] fix: collect the output of R without a data race

---
 rcmd/install.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/rcmd/install.go b/rcmd/install.go
index a001e83..5dcd24d 100644
--- a/rcmd/install.go
+++ b/rcmd/install.go
@@ -155,8 +155,9 @@ func Install(
 	cmd.Env = envVars
 	cmd.Dir = rdir
 	var outbuf, errbuf, combinedBuf bytes.Buffer
-	stdoutWriter := io.MultiWriter(&outbuf, &combinedBuf)
-	stderrWriter := io.MultiWriter(&errbuf, &combinedBuf)
+	combined := &lockedWriter{w: &combinedBuf} // stdout and stderr are copied concurrently
+	stdoutWriter := io.MultiWriter(&outbuf, combined)
+	stderrWriter := io.MultiWriter(&errbuf, combined)
 	cmd.Stdout = stdoutWriter
 	cmd.Stderr = stderrWriter
     err = cmd.Run()
@@ -226,6 +227,18 @@ func Install(
 	return cmdResult, err
 }
 
+// lockedWriter lets several goroutines share a writer
+type lockedWriter struct {
+	mu sync.Mutex
+	w  io.Writer
+}
+
+func (l *lockedWriter) Write(p []byte) (int, error) {
+	l.mu.Lock()
+	defer l.mu.Unlock()
+	return l.w.Write(p)
+}
+
 // isInCache notes if package binary already available in cache
 // and returns a new installrequest based on the binary path if available
 func isInCache(
-- 
2.43.0


From 6951e0a4673df7d1bcc8a0be792c5ec7eb0946f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:10 +0000
Subject: [PATCH 18/52] fix: never leave a partial binary in the package cache

---
 rcmd/install.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/rcmd/install.go b/rcmd/install.go
index 5dcd24d..5f57e9d 100644
--- a/rcmd/install.go
+++ b/rcmd/install.go
@@ -507,7 +507,15 @@ func InstallPackagePlan(
 						rs.Version.ToString(),
 						filepath.Base(iu.BinaryPath),
 					)
-					_, err := goutils.Copy(iu.BinaryPath, bpath)
+					// copy to a separate file first, so that a partial binary is never found at bpath
+					part := fmt.Sprintf("%s.%d.part", bpath, os.Getpid())
+					_, err := goutils.Copy(iu.BinaryPath, part)
+					if err == nil {
+						err = os.Rename(part, bpath)
+					}
+					if err != nil {
+						os.Remove(part)
+					}
 					log.WithFields(log.Fields{"from": iu.BinaryPath, "to": bpath}).Trace("copied binary")
 					if err != nil {
 						log.WithFields(log.Fields{"from": iu.BinaryPath, "to": bpath}).Error("error copying binary")
-- 
2.43.0


From 1b50fcb9092700282a0946e30e39900ad50247bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:10 +0000
Subject: [PATCH 19/52] fix: keep the other fields of DESCRIPTION files intact,
 and replace them as a whole

---
 rcmd/install.go | 33 +++++++++++++++++++++++++++------
 1 file changed, 27 insertions(+), 6 deletions(-)

diff --git a/rcmd/install.go b/rcmd/install.go
index 5f57e9d..fc690b3 100644
--- a/rcmd/install.go
+++ b/rcmd/install.go
@@ -604,10 +604,15 @@ func writeDescriptionInfo(fs afero.Fs, ir InstallRequest, ia InstallArgs) {
 // function to apply relevant changes to DESCRIPTION file (if applicable) and ultimately write out the updated
 // DESCRIPTION file.
 func updateDescriptionInfo(fs afero.Fs, filename, version, installType, repoURL, repo string) ([]string, error) {
-	descriptionLines, err := goutils.ReadLinesFS(fs, filename)
+	// lines may be of any length, so don't read them with a scanner
+	description, err := afero.ReadFile(fs, filename)
 	if err != nil {
 		return nil, err
 	}
+	descriptionLines := strings.Split(strings.ReplaceAll(string(description), "\r\n", "\n"), "\n")
+	for len(descriptionLines) > 0 && strings.TrimSpace(descriptionLines[len(descriptionLines)-1]) == "" {
+		descriptionLines = descriptionLines[:len(descriptionLines)-1]
+	}
 	descriptionFinal := updateDescriptionInfoByLines(descriptionLines, version, installType, repoURL, repo)
 	err = writeUpdatedDescriptionFile(fs, filename, descriptionFinal)
 
@@ -616,9 +621,15 @@ func updateDescriptionInfo(fs afero.Fs, filename, version, installType, repoURL,
 
 // writes a slice of strings out to a file. Adds newline characters to the end of the each line.
 func writeUpdatedDescriptionFile(fs afero.Fs, filename string, update []string) error {
-	err := goutils.WriteLinesFS(fs, update, filename)
+	// write to a separate file first, so that the package never has a partial DESCRIPTION
+	part := filename + ".part"
+	err := goutils.WriteLinesFS(fs, update, part)
+	if err == nil {
+		err = fs.Rename(part, filename)
+	}
 
 	if err != nil {
+		fs.Remove(part)
 		log.WithFields(log.Fields{
 			"filename": filename,
 		}).Error("could not update DESCRIPTION file", err)
@@ -634,18 +645,28 @@ func writeUpdatedDescriptionFile(fs afero.Fs, filename string, update []string)
 func updateDescriptionInfoByLines(lines []string, version, installType, repoURL, repo string) []string {
 
 	var newLines []string
+	dropping := false
 	for _, line := range lines {
 		//log.Info("Starting repo: " + repo)
 
+		// Indented lines continue the field before.
+		if strings.HasPrefix(line, " ") || strings.HasPrefix(line, "\t") {
+			if !dropping {
+				newLines = append(newLines, line)
+			}
+			continue
+		}
+
 		// Don't add these lines to final set, if they exist. This way, we can add/"overwrite" them at the end.
-		if strings.Contains(line, "PkgrVersion:") ||
-			strings.Contains(line, "PkgrInstallType:") ||
-			strings.Contains(line, "PkgrRepositoryURL") {
+		dropping = strings.HasPrefix(line, "PkgrVersion:") ||
+			strings.HasPrefix(line, "PkgrInstallType:") ||
+			strings.HasPrefix(line, "PkgrRepositoryURL:")
+		if dropping {
 			continue
 		}
 
 		if strings.HasPrefix(line, "Repository:") && strings.TrimSpace(line) != strings.TrimSpace("Repository: "+ repo) {
-			originalRepo := strings.Trim(strings.Split(line, ":")[1], " ")
+			originalRepo := strings.Trim(strings.TrimPrefix(line, "Repository:"), " ")
 			newLines = append(newLines, "OriginalRepository: "+originalRepo)
 			line = "Repository: " + repo
 		}
-- 
2.43.0


From 5c5ab166409915b262fd5cc26992c20b6609f989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:10 +0000
Subject: [PATCH 20/52] fix: keep the caller's R_LIBS from R, and library paths
 with an equals sign

---
 rcmd/configure.go | 5 +++++
 rcmd/nvp.go       | 3 ++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/rcmd/configure.go b/rcmd/configure.go
index 4a73e6b..edbc3f9 100644
--- a/rcmd/configure.go
+++ b/rcmd/configure.go
@@ -54,6 +54,11 @@ func configureEnv(sysEnvVars []string, rs RSettings, pkg string) []string {
 				log.WithField("path", evs[1]).Debug("overriding system R_LIBS_SITE")
 				continue
 			}
+			// R_LIBS takes precedence over both
+			if evs[0] == "R_LIBS" {
+				log.WithField("path", evs[1]).Debug("overriding system R_LIBS")
+				continue
+			}
 			if evs[0] == "PATH" {
 				rDir := filepath.Dir(rs.Rpath)
 				if rDir != "" && rDir != "." && !strings.HasPrefix(evs[1], rDir) {
diff --git a/rcmd/nvp.go b/rcmd/nvp.go
index 76b3265..727499b 100644
--- a/rcmd/nvp.go
+++ b/rcmd/nvp.go
@@ -12,7 +12,8 @@ func (list *NvpList) Append(name, value string) {
 
 // AppendNvp append a string of name=value pair to the list as an Nvp object
 func (list *NvpList) AppendNvp(nvp string) {
-	b := strings.Split(nvp, "=")
+	// the value may contain further equals signs
+	b := strings.SplitN(nvp, "=", 2)
 	if len(b) == 2 {
 		list.Append(b[0], b[1])
 	}
-- 
2.43.0


From bd376db5e068131e3aa90b24fbba977d64f306fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:38 +0000
Subject: [PATCH 21/52] fix: cap the default number of workers, and load with
 any thread setting

---
 cmd/load.go         | 2 +-
 configlib/config.go | 4 +---
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/cmd/load.go b/cmd/load.go
index d57d5e7..0dc95de 100644
--- a/cmd/load.go
+++ b/cmd/load.go
@@ -57,7 +57,7 @@ loaded from the expected library.`,
 			}).Fatal("error getting absolute Path for R directory")
 		}
 
-		load(cfg.Packages, rs, rDir, cfg.Threads, all, json)
+		load(cfg.Packages, rs, rDir, getWorkerCount(cfg.Threads, runtime.GOMAXPROCS(0)), all, json)
 	},
 }
 
diff --git a/configlib/config.go b/configlib/config.go
index 72a20fe..fb7c9f8 100644
--- a/configlib/config.go
+++ b/configlib/config.go
@@ -8,7 +8,6 @@ import (
 	"os"
 	"os/exec"
 	"path/filepath"
-	"runtime"
 	"strings"
 
 	homedir "github.com/mitchellh/go-homedir"
@@ -215,8 +214,7 @@ func loadDefaultSettings() {
 	viper.SetDefault("loglevel", "info")
 	// path to R on system, defaults to R in path
 	viper.SetDefault("rpath", "R")
-	// setting this to GOMAXPROCS(0) because NumCPU() won't work well with the scheduler.
-	viper.SetDefault("threads", runtime.GOMAXPROCS(0))
+	// threads isn't set by default, the commands determine the number then
 }
 
 // IsCustomizationSet ...
-- 
2.43.0


From f7c67b86f662f9dc2bae4c7a72807deea55c3b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:58 +0000
Subject: [PATCH 22/52] fix: find the config file and its directory also when
 --config is a relative path

---
 cmd/load.go         | 15 +++------------
 configlib/config.go |  4 ++++
 2 files changed, 7 insertions(+), 12 deletions(-)

diff --git a/cmd/load.go b/cmd/load.go
index 0dc95de..25ff365 100644
--- a/cmd/load.go
+++ b/cmd/load.go
@@ -10,7 +10,6 @@ import (
 	"github.com/spf13/viper"
 	"os"
 	"os/exec"
-	"path/filepath"
 	"runtime"
 	"strings"
 
@@ -41,19 +40,11 @@ loaded from the expected library.`,
 
 		rs := rcmd.NewRSettings(cfg.RPath)
 
-		// Get directory to test package loads from.
-		// By default, use the same directory as the config file.
-		rDir := viper.GetString("config")
-		if rDir == "" {
-			rDir, _ = os.Getwd()
-		} else {
-			rDir = filepath.Dir(rDir)
-		}
-		rDir, err := filepath.Abs(rDir)
+		// Test package loads from the directory of the config file, which is the working directory by now.
+		rDir, err := os.Getwd()
 		if err != nil {
 			log.WithFields(log.Fields{
-				"error":     err,
-				"directory": rDir,
+				"error": err,
 			}).Fatal("error getting absolute Path for R directory")
 		}
 
diff --git a/configlib/config.go b/configlib/config.go
index fb7c9f8..f155f8e 100644
--- a/configlib/config.go
+++ b/configlib/config.go
@@ -183,6 +183,10 @@ func loadConfigFromPath(configFilename string) error {
 		log.Fatalf("error binding env: %s\n", err)
 	}
 	configFilename, _ = homedir.Expand(filepath.Clean(configFilename))
+	// the working directory changes to that of the config file later on
+	if abs, err := filepath.Abs(configFilename); err == nil {
+		configFilename = abs
+	}
 	viper.SetConfigFile(configFilename)
 	b, err := ioutil.ReadFile(configFilename)
 	// panic if can't find or parse config as this could be explicit to user expectations
-- 
2.43.0


From 3658ec8eef798a29b1f49c20aaa535930e7e077c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:26 +0000
Subject: [PATCH 23/52] fix: never use incomplete extractions of tarballs, and
 refuse hard links

---
 cmd/tarballOps.go           | 13 ++++++++++++-
 internal/archive/extract.go |  4 +++-
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/cmd/tarballOps.go b/cmd/tarballOps.go
index 4bbd650..dea2d90 100644
--- a/cmd/tarballOps.go
+++ b/cmd/tarballOps.go
@@ -3,6 +3,7 @@ package cmd
 import (
 	"crypto/md5"
 	"encoding/hex"
+	"fmt"
 	"github.com/metrumresearchgroup/pkgr/desc"
 	"github.com/metrumresearchgroup/pkgr/gpsr"
 	"github.com/metrumresearchgroup/pkgr/internal/archive"
@@ -84,8 +85,18 @@ func untar(fs afero.Fs, path string, cacheDir string) string {
 			"source_tarball": path,
 		}).Debug("using cached tarball.")
 	} else {
-		err = archive.Extract(path, tarballDirectoryPath)
+		// Extract to a separate directory first, so that a partial extraction is never found in the cache.
+		part := fmt.Sprintf("%s.%d.part", tarballDirectoryPath, os.Getpid())
+		err = archive.Extract(path, part)
+		if err == nil {
+			err = os.Rename(part, tarballDirectoryPath)
+			if extracted, _ := afero.DirExists(fs, tarballDirectoryPath); err != nil && extracted {
+				// another run extracted the same tarball meanwhile
+				err = os.RemoveAll(part)
+			}
+		}
 		if err != nil {
+			os.RemoveAll(part)
 			logrus.WithFields(logrus.Fields{
 				"path": path,
 			}).Fatalf("error while unarchiving tarball: %s", err)
diff --git a/internal/archive/extract.go b/internal/archive/extract.go
index bc25c50..81ff15c 100644
--- a/internal/archive/extract.go
+++ b/internal/archive/extract.go
@@ -84,6 +84,9 @@ func extractFile(ctx context.Context, fi archives.FileInfo, root *os.Root) error
 	switch {
 	case mode.IsDir():
 		return os.MkdirAll(filename, 0o777)
+	case mode.IsRegular() && fi.LinkTarget != "":
+		// A hard link has the mode of a regular file, but no content.
+		return fmt.Errorf("unsupported link: %q", fi.NameInArchive)
 	case mode.IsRegular():
 		// Don't assume that an entry for each parent directory was already
 		// encountered or that an entry even exists (issue 259).
@@ -99,7 +102,6 @@ func extractFile(ctx context.Context, fi archives.FileInfo, root *os.Root) error
 
 		w, err := root.OpenFile(fi.NameInArchive, os.O_CREATE|os.O_EXCL|os.O_WRONLY, 0o666|mode.Perm())
 		if err != nil {
-			w.Close()
 			return err
 		}
 
-- 
2.43.0


From 1254f031c5cbbfbc06507bc78a6011ba2d7bc2a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:57 +0000
Subject: [PATCH 24/52] fix: clean the unpacked tarballs of the default cache,
 and clean safely without a cache

---
 cmd/cleanCache.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/cmd/cleanCache.go b/cmd/cleanCache.go
index 923c19c..7d85b6d 100644
--- a/cmd/cleanCache.go
+++ b/cmd/cleanCache.go
@@ -16,6 +16,7 @@ package cmd
 
 import (
 	"errors"
+	"os"
 	"path/filepath"
 	"strconv"
 	"strings"
@@ -61,8 +62,7 @@ func init() {
 }
 
 func cache(cmd *cobra.Command, args []string) error {
-	cleanCacheFolders()
-	return nil
+	return cleanCacheFolders()
 }
 
 func cleanCacheFolders() error {
@@ -113,7 +113,7 @@ func cleanCacheFolders() error {
 			continue
 		}
 		openedTgz.Close()
-		err = fs.RemoveAll(filepath.Join(cfg.Cache, hashedDirectoryName))
+		err = fs.RemoveAll(filepath.Join(cachePath, hashedDirectoryName))
 		if err != nil {
 			log.WithFields(log.Fields{
 				"file":  tgzFile,
@@ -136,10 +136,14 @@ func deleteCacheSubfolders(fs afero.Fs, repos []string, subfolder string, cacheD
 
 	//Filesystem object for the cache directory
 	cacheDirFsObject, err := fs.Open(cacheDirectory)
-	defer cacheDirFsObject.Close()
+	if os.IsNotExist(err) {
+		// nothing has been cached yet
+		return nil
+	}
 	if err != nil {
 		return err
 	}
+	defer cacheDirFsObject.Close()
 
 	//File info object, I guess I needed this
 	cacheDirObject, _ := cacheDirFsObject.Readdir(0)
-- 
2.43.0


From d63d0809f09ac85dfe0812903d882a17701bbaa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:33 +0000
Subject: [PATCH 25/52] fix: recognize installed packages that are symbolic
 links

---
 pacman/utils.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pacman/utils.go b/pacman/utils.go
index d6db434..65ee5e0 100644
--- a/pacman/utils.go
+++ b/pacman/utils.go
@@ -3,6 +3,7 @@ package pacman
 import (
 	"errors"
 	"fmt"
+	"os"
 	"path/filepath"
 
 	"github.com/dpastoor/goutils"
@@ -25,6 +26,14 @@ func GetPriorInstalledPackages(fileSystem afero.Fs, libraryPath string) map[stri
 
 	fileInfo, _ := installedLibrary.Readdir(0)
 	installedPackageFolders := goutils.ListDirNames(fileInfo)
+	for _, fi := range fileInfo {
+		// libraries may link to packages that are installed elsewhere, eg in the cache of renv
+		if fi.Mode()&os.ModeSymlink != 0 {
+			if isDir, _ := afero.IsDir(fileSystem, filepath.Join(libraryPath, fi.Name())); isDir {
+				installedPackageFolders = append(installedPackageFolders, fi.Name())
+			}
+		}
+	}
 
 	for _, pkgFolder := range installedPackageFolders {
 		descriptionFilePath := filepath.Join(libraryPath, pkgFolder, "DESCRIPTION")
-- 
2.43.0


From b136615d2be49f23dfabfc83d4cbc07a952bf55e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:57 +0000
Subject: [PATCH 26/52] fix: log every command to the file for all commands,
 and each record once

---
 cmd/cleanCache.go | 3 +++
 cmd/cleanPkgdb.go | 3 +++
 cmd/load.go       | 2 ++
 cmd/plan.go       | 3 +++
 cmd/run.go        | 2 ++
 logger/logger.go  | 7 ++++++-
 6 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/cmd/cleanCache.go b/cmd/cleanCache.go
index 7d85b6d..e3f37ee 100644
--- a/cmd/cleanCache.go
+++ b/cmd/cleanCache.go
@@ -24,6 +24,7 @@ import (
 	"github.com/spf13/afero"
 
 	"github.com/dpastoor/goutils"
+	"github.com/metrumresearchgroup/pkgr/logger"
 	log "github.com/sirupsen/logrus"
 	"github.com/spf13/cobra"
 )
@@ -62,6 +63,8 @@ func init() {
 }
 
 func cache(cmd *cobra.Command, args []string) error {
+	logger.AddLogFile(cfg.Logging.All, cfg.Logging.Overwrite)
+
 	return cleanCacheFolders()
 }
 
diff --git a/cmd/cleanPkgdb.go b/cmd/cleanPkgdb.go
index 09a5124..d36c9eb 100644
--- a/cmd/cleanPkgdb.go
+++ b/cmd/cleanPkgdb.go
@@ -19,6 +19,7 @@ import (
 
 	"github.com/metrumresearchgroup/pkgr/configlib"
 
+	"github.com/metrumresearchgroup/pkgr/logger"
 	"github.com/metrumresearchgroup/pkgr/rcmd"
 	log "github.com/sirupsen/logrus"
 	"github.com/spf13/cobra"
@@ -48,6 +49,8 @@ func init() {
 // Using a "middle man" function here allows us to call the cleanPackageDatabases function from the "clean"
 // command when "pkgr clean --all" is run. Without the middle man, passing in arguments becomes strange.
 func executeCommand(cmd *cobra.Command, args []string) error {
+	logger.AddLogFile(cfg.Logging.All, cfg.Logging.Overwrite)
+
 	return cleanPackageDatabases(pkgdbsToClearArgument)
 }
 
diff --git a/cmd/load.go b/cmd/load.go
index 25ff365..9adae70 100644
--- a/cmd/load.go
+++ b/cmd/load.go
@@ -35,6 +35,8 @@ loaded from the expected library.`,
   # Load the above packages and all their dependencies
   pkgr load --json --all`,
 	Run: func(cmd *cobra.Command, args []string) {
+		logger.AddLogFile(cfg.Logging.All, cfg.Logging.Overwrite)
+
 		all := viper.GetBool("all")
 		json := viper.GetBool("json")
 
diff --git a/cmd/plan.go b/cmd/plan.go
index 6b28760..dbfdbf2 100644
--- a/cmd/plan.go
+++ b/cmd/plan.go
@@ -32,6 +32,7 @@ import (
 	"strings"
 	"time"
 
+	"github.com/metrumresearchgroup/pkgr/logger"
 	"github.com/metrumresearchgroup/pkgr/rcmd"
 
 	"github.com/sajari/fuzzy"
@@ -65,6 +66,8 @@ func init() {
 }
 
 func plan(cmd *cobra.Command, args []string) error {
+	logger.AddLogFile(cfg.Logging.All, cfg.Logging.Overwrite)
+
 	log.Infof("Installation would launch %v workers\n", getWorkerCount(cfg.Threads, runtime.GOMAXPROCS(0)))
 	rs := rcmd.NewRSettings(cfg.RPath)
 	rVersion := rcmd.GetRVersion(&rs)
diff --git a/cmd/run.go b/cmd/run.go
index af34d99..0e4ef2b 100644
--- a/cmd/run.go
+++ b/cmd/run.go
@@ -16,6 +16,7 @@ package cmd
 
 import (
 	"github.com/metrumresearchgroup/pkgr/configlib"
+	"github.com/metrumresearchgroup/pkgr/logger"
 	"github.com/metrumresearchgroup/pkgr/rcmd"
 
 	"github.com/spf13/cobra"
@@ -52,6 +53,7 @@ configuration file.
 }
 
 func rRun(cmd *cobra.Command, args []string) error {
+	logger.AddLogFile(cfg.Logging.All, cfg.Logging.Overwrite)
 
 	rs := rcmd.NewRSettings(cfg.RPath)
 	// installation through binary doesn't do this exactly, but its pretty close
diff --git a/logger/logger.go b/logger/logger.go
index da5e38a..fddaabb 100644
--- a/logger/logger.go
+++ b/logger/logger.go
@@ -100,9 +100,13 @@ func SetLogLevel(level string) {
 	}
 }
 
+// path of the file added last
+var logFile string
+
 func AddLogFile(outputFile string, overwrite bool) {
 
-	if outputFile != "" {
+	// a command that calls another one must not add its file again
+	if outputFile != "" && outputFile != logFile {
 
 		var osFlag int
 
@@ -115,6 +119,7 @@ func AddLogFile(outputFile string, overwrite bool) {
 		fileHook, err := NewLogrusFileHook(outputFile, osFlag, 0666)
 		if err == nil {
 			log.AddHook(fileHook)
+			logFile = outputFile
 		}
 	}
 }
-- 
2.43.0


From fb198c42902e4636db7ff88614f32dc5776f8563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:57 +0000
Subject: [PATCH 27/52] fix: ask renv for the library of the configured
 project, with the configured R

---
 configlib/config.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/configlib/config.go b/configlib/config.go
index f155f8e..e4ce801 100644
--- a/configlib/config.go
+++ b/configlib/config.go
@@ -43,6 +43,8 @@ func NewConfig(cfgPath string, cfg *PkgrConfig) {
 		log.Fatalf("error parsing pkgr.yml: %s\n", err)
 	}
 
+	cfg.RPath = expandTilde(cfg.RPath)
+
 	if len(cfg.Library) == 0 {
 		rs := rcmd.NewRSettings(cfg.RPath)
 		rVersion := rcmd.GetRVersion(&rs)
@@ -51,7 +53,6 @@ func NewConfig(cfgPath string, cfg *PkgrConfig) {
 
 	// For all cfg	values that can be repos, make sure that ~ is expanded to the home directory.
 	cfg.Library = expandTilde(cfg.Library)
-	cfg.RPath = expandTilde(cfg.RPath)
 	cfg.Tarballs = expandTildes(cfg.Tarballs)
 	cfg.Descriptions = expandTildes(cfg.Descriptions)
 	cfg.Repos = expandTildesRepos(cfg.Repos)
@@ -105,17 +106,21 @@ func expandTildesRepos(repos []map[string]string) []map[string]string {
 }
 
 // getRenvLibrary calls renv to discover the library path for the
-// current working directory.  This enables matching renv's location
+// directory of the config file.  This enables matching renv's location
 // without trying to implement custom logic that needs to align and
 // stay up to date with renv's own.
 func getRenvLibrary(rpath string) (string, error) {
 	log.Trace("invoking renv to get library path")
 
 	rs := rcmd.NewRSettings(rpath)
+	var projectDir string
+	if configFile := viper.ConfigFileUsed(); configFile != "" {
+		projectDir = filepath.Dir(configFile)
+	}
 	res, err := rcmd.RunRscriptWithArgs(
 		afero.NewOsFs(), "", rs,
 		[]string{"-e", "cat('\n_pkgr_', renv::paths$library(), '_pkgr_\n', sep = '')"},
-		"")
+		projectDir)
 
 	if err != nil {
 		if exerr, ok := err.(*exec.ExitError); ok {
-- 
2.43.0


From 6864903b0fbadfdca82f465cabe7b179f2232c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:24 +0000
Subject: [PATCH 28/52] fix: add and remove edit exactly the package list, in
 any form

---
 configlib/add_package.go | 102 ++++++++++++++++++++++++---------------
 configlib/config.go      |  55 ++++++++++++++-------
 2 files changed, 100 insertions(+), 57 deletions(-)

diff --git a/configlib/add_package.go b/configlib/add_package.go
index 75a816c..8a20a09 100644
--- a/configlib/add_package.go
+++ b/configlib/add_package.go
@@ -1,8 +1,6 @@
 package configlib
 
 import (
-	"bufio"
-	"bytes"
 	"fmt"
 	"github.com/dpastoor/goutils"
 	log "github.com/sirupsen/logrus"
@@ -22,30 +20,54 @@ func AddPackages(pkgs []string) error {
 	if err != nil {
 		return err
 	}
-	var lines []string
-	scanner := bufio.NewScanner(bytes.NewReader(yf))
-	for scanner.Scan() {
-		lines = append(lines, scanner.Text())
-	}
-
-	var pc PkgrConfig
-	err = yaml.Unmarshal(yf, &pc)
+	_, value, err := packagesNode(yf)
 	if err != nil {
 		return err
 	}
+	var listed []string
+	if value != nil {
+		for _, item := range value.Content {
+			listed = append(listed, item.Value)
+		}
+	}
 
 	for _, p := range pkgs {
-		if funk.ContainsString(pc.Packages, p) {
+		if funk.ContainsString(listed, p) {
 			log.Debug(fmt.Sprintf("Package <%s> already found in <%s>", p, ymlfile))
 			continue
 		}
+		listed = append(listed, p)
 		pkgsToInstall = append(pkgsToInstall, p)
 	}
+	if len(pkgsToInstall) == 0 {
+		return nil
+	}
+
+	lines := strings.Split(strings.TrimSuffix(string(yf), "\n"), "\n")
 	newYml := insertPackages(lines, pkgsToInstall...)
 	err = goutils.WriteLines(newYml, ymlfile)
 	return err
 }
 
+// packagesNode returns the key and the value of the list of packages. Both are nil if there is none.
+func packagesNode(yml []byte) (key *yaml.Node, value *yaml.Node, err error) {
+	var doc yaml.Node
+	err = yaml.Unmarshal(yml, &doc)
+	if err != nil {
+		return nil, nil, err
+	}
+	if len(doc.Content) == 0 || doc.Content[0].Kind != yaml.MappingNode {
+		return nil, nil, nil
+	}
+	fields := doc.Content[0].Content
+	for i := 0; i+1 < len(fields); i += 2 {
+		// viper does not care about the case either
+		if strings.EqualFold(fields[i].Value, "Packages") {
+			return fields[i], fields[i+1], nil
+		}
+	}
+	return nil, nil, nil
+}
 
 // insert packages will look for Packages: and add packages beneth
 // if no Packages: line is found (eg if only tarballs/descriptions
@@ -63,40 +85,42 @@ func AddPackages(pkgs []string) error {
 // 	- dplyr
 // 	  - ggplot2
 func insertPackages(lines []string, pkgs ...string) []string {
-	var packageStartIndex int
-	var packagesSet bool
 	var outputLines []string
-	for i, line := range lines {
-		if strings.HasPrefix(line, "Packages:")	{
-			packagesSet = true
-			packageStartIndex = i
-		}
-	}
-	if packageStartIndex == 0 && !packagesSet {
-		outputLines = lines
+	key, value, err := packagesNode([]byte(strings.Join(lines, "\n")))
+	if err != nil || key == nil {
+		outputLines = append(outputLines, lines...)
 		outputLines = append(outputLines, "", "Packages:")
 		for _, pkg := range pkgs {
-			outputLines = append(outputLines, "- " + pkg)
-		}
-	} else {
-		outputLines = append(outputLines, lines[:packageStartIndex+1]...)
-		// given comments might precede packages, we need to find the first non-comment line
-		var firstPackageIndex int
-		for i, l := range lines[packageStartIndex:] {
-			if strings.HasPrefix(strings.TrimSpace(l), "-") {
-				firstPackageIndex = i
-				break
-			}
+			outputLines = append(outputLines, "- "+pkg)
 		}
-		numPadding := strings.Index(lines[packageStartIndex+firstPackageIndex], "-")
+		return outputLines
+	}
 
-		padding := strings.Repeat(" ", numPadding)
-		for _, pkg := range pkgs {
-			outputLines = append(outputLines, padding + "- " + pkg)
+	outputLines = append(outputLines, lines...)
+	if value.Kind == yaml.SequenceNode && value.Style&yaml.FlowStyle != 0 {
+		// eg Packages: [dplyr, ggplot2]
+		inserted := strings.Join(pkgs, ", ")
+		if len(value.Content) > 0 {
+			inserted += ", "
 		}
-		outputLines = append(outputLines, lines[packageStartIndex+1:]...)
+		line := []rune(lines[value.Line-1])
+		outputLines[value.Line-1] = string(line[:value.Column]) + inserted + string(line[value.Column:])
+		return outputLines
 	}
 
-	return outputLines
+	numPadding := key.Column - 1
+	if value.Kind == yaml.SequenceNode {
+		numPadding = value.Column - 1
+	} else if value.Value != "" {
+		// eg Packages: ~
+		line := []rune(lines[value.Line-1])
+		outputLines[value.Line-1] = string(line[:value.Column-1]) + string(line[value.Column-1+len([]rune(value.Value)):])
+	}
 
-}
\ No newline at end of file
+	padding := strings.Repeat(" ", numPadding)
+	var newLines []string
+	for _, pkg := range pkgs {
+		newLines = append(newLines, padding+"- "+pkg)
+	}
+	return append(outputLines[:key.Line:key.Line], append(newLines, outputLines[key.Line:]...)...)
+}
diff --git a/configlib/config.go b/configlib/config.go
index e4ce801..8779cfc 100644
--- a/configlib/config.go
+++ b/configlib/config.go
@@ -14,6 +14,7 @@ import (
 	log "github.com/sirupsen/logrus"
 	"github.com/spf13/afero"
 	"github.com/spf13/viper"
+	"gopkg.in/yaml.v3"
 
 	"github.com/metrumresearchgroup/pkgr/cran"
 	"github.com/metrumresearchgroup/pkgr/gpsr"
@@ -255,33 +256,51 @@ func RemovePackage(name string) error {
 // remove remove a package from the Package section of the yml config file
 func remove(ymlfile string, packageName string) error {
 	appFS := afero.NewOsFs()
-	yf, _ := afero.ReadFile(appFS, ymlfile)
+	yf, err := afero.ReadFile(appFS, ymlfile)
+	if err != nil {
+		return err
+	}
 	fi, err := os.Stat(ymlfile)
 	if err != nil {
 		return err
 	}
-	var out []byte
-	i := 0
-	lines := bytes.Split(yf, []byte("\n"))
-	for _, line := range lines {
-		i++
-		// trim the line to detect the start of the list of packages
-		// but do not write the trimmed string as it may cause an
-		// unneeded file diff to the yml file
-		sline := bytes.TrimLeft(line, " ")
-		if bytes.HasPrefix(sline, []byte("- "+packageName)) {
+	_, value, err := packagesNode(yf)
+	if err != nil {
+		return err
+	}
+	if value == nil || value.Kind != yaml.SequenceNode {
+		return nil
+	}
+
+	// Cut out the entries rather than writing the parsed file, as that may cause an unneeded file diff to the yml file.
+	// Start with the last entry, as the positions of those before stay the same then.
+	out := string(yf)
+	lines := strings.SplitAfter(out, "\n")
+	for i := len(value.Content) - 1; i >= 0; i-- {
+		item := value.Content[i]
+		if item.Value != packageName {
 			continue
 		}
-		out = append(out, line...)
-		if i < len(lines) {
-			out = append(out, []byte("\n")...)
+		lineStart := len(strings.Join(lines[:item.Line-1], ""))
+		start, end := lineStart, lineStart+len(lines[item.Line-1])
+		if value.Style&yaml.FlowStyle != 0 {
+			start += len(string([]rune(lines[item.Line-1])[:item.Column-1]))
+			end = start + len(item.Value)
+			if item.Style&(yaml.SingleQuotedStyle|yaml.DoubleQuotedStyle) != 0 {
+				end += 2
+			}
+			if rest := strings.TrimLeft(out[end:], " \t\r\n"); strings.HasPrefix(rest, ",") {
+				end = len(out) - len(strings.TrimLeft(rest[1:], " "))
+			} else if before := strings.TrimRight(out[:start], " \t\r\n"); strings.HasSuffix(before, ",") {
+				start = len(before) - 1
+			}
 		}
+		out = out[:start] + out[end:]
 	}
-	err = afero.WriteFile(appFS, ymlfile, out, fi.Mode())
-	if err != nil {
-		return err
+	if out == string(yf) {
+		return nil
 	}
-	return nil
+	return afero.WriteFile(appFS, ymlfile, []byte(out), fi.Mode())
 }
 
 // SetCustomizations ... set ENV values in Rsettings
-- 
2.43.0


From 069ad82cbb983ccaea591c0b02ad8b1337d9b6a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:54 +0000
Subject: [PATCH 29/52] fix: install tarballs after the tarballs they require

---
 cmd/install.go       |  3 ++-
 cmd/tarballOps.go    |  6 +++++-
 gpsr/dependencies.go | 34 ++++++++++++++++++++++++++++++++++
 gpsr/structs.go      |  7 ++++---
 4 files changed, 45 insertions(+), 5 deletions(-)

diff --git a/cmd/install.go b/cmd/install.go
index f903da2..df4ee98 100644
--- a/cmd/install.go
+++ b/cmd/install.go
@@ -197,7 +197,8 @@ func installAdditionalPackages(installPlan gpsr.InstallPlan, rSettings rcmd.RSet
 
 	var errorAggregator []error
 
-	for pkgName, additionalPkg := range installPlan.AdditionalPackageSources {
+	for _, pkgName := range installPlan.AdditionalPackagesInOrder() {
+		additionalPkg := installPlan.AdditionalPackageSources[pkgName]
 
 		log.WithFields(log.Fields{
 			"package":    pkgName,
diff --git a/cmd/tarballOps.go b/cmd/tarballOps.go
index dea2d90..c843adb 100644
--- a/cmd/tarballOps.go
+++ b/cmd/tarballOps.go
@@ -42,7 +42,11 @@ func unpackTarballs(fs afero.Fs, tarballs []string, cache string) ([]desc.Desc,
 			}).Fatal("error parsing DESCRIPTION file for tarball package")
 		}
 		descriptions = append(descriptions, desc)
-		untarredMap[desc.Package] = gpsr.AdditionalPkg{InstallPath: untarredFolder, OriginPath: tarballPath, Type: "tarball"}
+		var dependencies []string
+		for d := range desc.GetCombinedDependencies(false) {
+			dependencies = append(dependencies, d)
+		}
+		untarredMap[desc.Package] = gpsr.AdditionalPkg{InstallPath: untarredFolder, OriginPath: tarballPath, Type: "tarball", Dependencies: dependencies}
 	}
 
 	return descriptions, untarredMap
diff --git a/gpsr/dependencies.go b/gpsr/dependencies.go
index efebe00..b456908 100644
--- a/gpsr/dependencies.go
+++ b/gpsr/dependencies.go
@@ -179,3 +179,37 @@ func (ip *InstallPlan) GetNumPackagesToInstall() int {
 	return len(requiredPackages) - installedRequired + toUpdate
 
 }
+
+// AdditionalPackagesInOrder lists the names of the additional packages such that each one comes after those it requires,
+// directly or by way of other packages of the plan.
+func (ip *InstallPlan) AdditionalPackagesInOrder() []string {
+	var ordered []string
+	visited := make(map[string]bool)
+	var visit func(pkg string)
+	visit = func(pkg string) {
+		if visited[pkg] {
+			return
+		}
+		visited[pkg] = true
+		additional, isAdditional := ip.AdditionalPackageSources[pkg]
+		dependencies := ip.DepDb[pkg]
+		if isAdditional {
+			dependencies = additional.Dependencies
+		}
+		for _, d := range dependencies {
+			visit(d)
+		}
+		if isAdditional {
+			ordered = append(ordered, pkg)
+		}
+	}
+	var names []string
+	for pkg := range ip.AdditionalPackageSources {
+		names = append(names, pkg)
+	}
+	sort.Strings(names)
+	for _, pkg := range names {
+		visit(pkg)
+	}
+	return ordered
+}
diff --git a/gpsr/structs.go b/gpsr/structs.go
index ae4c550..f490116 100644
--- a/gpsr/structs.go
+++ b/gpsr/structs.go
@@ -18,9 +18,10 @@ type InstallPlan struct {
 }
 
 type AdditionalPkg struct {
-	InstallPath string
-	OriginPath  string
-	Type        string
+	InstallPath  string
+	OriginPath   string
+	Type         string
+	Dependencies []string // Names of the packages this package directly requires.
 }
 
 // PkgDeps contains which dependencies should be installed
-- 
2.43.0


From 33a53d46c85046e9694e5ec9dab78a1523622ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:09 +0000
Subject: [PATCH 30/52] fix: report tarballs by name and source in the plan

---
 cmd/plan.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/cmd/plan.go b/cmd/plan.go
index dbfdbf2..39bd224 100644
--- a/cmd/plan.go
+++ b/cmd/plan.go
@@ -320,7 +320,16 @@ func planInstall(rv cran.RVersion, exitOnMissing bool) (*cran.PkgNexus, gpsr.Ins
 	if toInstall > 0 && toInstall != totalPackagesRequired {
 		// log which packages to install, but only if doing an incremental install
 		for _, pn := range pkgs {
-			//_, isAdditionalPkg := installPlan.AdditionalPackageSources[pn]
+			additionalPkg, isAdditionalPkg := installPlan.AdditionalPackageSources[pn]
+			if isAdditionalPkg {
+				// always installed, whatever is there
+				log.WithFields(log.Fields{
+					"package": pn,
+					"source":  additionalPkg.OriginPath,
+					"type":    additionalPkg.Type,
+				}).Info("to install")
+				continue
+			}
 			if !funk.ContainsString(installedPackageNames, pn) {
 				pkgDesc, cfg, _ := pkgNexus.GetPackage(pn)
 				log.WithFields(log.Fields{
-- 
2.43.0


From e192b8cf65be4ea37f563fe45bd71ce18d6d9d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:05 +0000
Subject: [PATCH 31/52] fix: keep R output after very long lines

---
 rcmd/rp/lines.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rcmd/rp/lines.go b/rcmd/rp/lines.go
index 0e607b0..7d74f04 100644
--- a/rcmd/rp/lines.go
+++ b/rcmd/rp/lines.go
@@ -18,6 +18,7 @@ func ScanLines(b []byte) []string {
 // with all input-like lines (which start with ">") excluded.
 func ScanROutput(b []byte, outputOnly bool) []string {
 	scanner := bufio.NewScanner(bytes.NewBuffer(b))
+	scanner.Buffer(nil, len(b)+1) // lines may be of any length
 	output := []string{}
 	re := regexp.MustCompile("^\\[\\d+\\]")
 	for scanner.Scan() {
-- 
2.43.0


From 03270f435759e4ad731b3189ec7b2024cf1d79f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:05 +0000
Subject: [PATCH 32/52] fix: load each listed package once, and print nothing
 but the report with --json

---
 cmd/load.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/cmd/load.go b/cmd/load.go
index 9adae70..2c28303 100644
--- a/cmd/load.go
+++ b/cmd/load.go
@@ -40,6 +40,10 @@ loaded from the expected library.`,
 		all := viper.GetBool("all")
 		json := viper.GetBool("json")
 
+		if json {
+			logger.SetLogLevel("fatal") // nothing but the report, from here on
+		}
+
 		rs := rcmd.NewRSettings(cfg.RPath)
 
 		// Test package loads from the directory of the config file, which is the working directory by now.
@@ -86,7 +90,13 @@ func load(userPackages []string, rs rcmd.RSettings, rDir string, threads int, al
 	if all {
 		toLoad = installPlan.GetAllPackages()
 	} else {
-		toLoad = userPackages
+		listed := make(map[string]bool)
+		for _, pkg := range userPackages {
+			if !listed[pkg] {
+				listed[pkg] = true
+				toLoad = append(toLoad, pkg)
+			}
+		}
 	}
 
 	report := InitLoadReport(getRSessionMetadata(rs, rDir))
-- 
2.43.0


From 4fbac4f462e527a0dc048560ce2ea96f8eac3c0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:25 +0000
Subject: [PATCH 33/52] fix: key cached indexes by the package types and
 binaries they hold

---
 cran/repodb.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cran/repodb.go b/cran/repodb.go
index 630bff5..c25f4ab 100644
--- a/cran/repodb.go
+++ b/cran/repodb.go
@@ -110,7 +110,7 @@ func (repoDb *RepoDb) Hash(rVersion string) string {
 		stsum += st + 1
 	}
 
-	io.WriteString(h, repoDb.Repo.Name+repoDb.Repo.URL+fmt.Sprint(stsum)+rVersion)
+	io.WriteString(h, repoDb.Repo.Name+repoDb.Repo.URL+repoDb.RepoSuffix+fmt.Sprint(int(stsum))+rVersion)
 	return fmt.Sprintf("%x", h.Sum(nil))
 }
 
-- 
2.43.0


From 76ce0c5b9cea569fe70d160c93b594b74f63a0a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:33 +0000
Subject: [PATCH 34/52] fix: remove partial DESCRIPTION files of a killed
 install

---
 rollback/operations.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/rollback/operations.go b/rollback/operations.go
index c5ddc25..3225b54 100644
--- a/rollback/operations.go
+++ b/rollback/operations.go
@@ -39,6 +39,14 @@ func RecoverLibrary(fileSystem afero.Fs, library string) error {
 			if err == nil {
 				err = fileSystem.Rename(filepath.Join(library, name), filepath.Join(library, pkg))
 			}
+		default:
+			// A DESCRIPTION file that was being written, see writeUpdatedDescriptionFile.
+			part := filepath.Join(library, name, "DESCRIPTION.part")
+			var exists bool
+			exists, _ = afero.Exists(fileSystem, part)
+			if exists {
+				err = fileSystem.Remove(part)
+			}
 		}
 		if err != nil {
 			return err
-- 
2.43.0


From d4153013d99cc29fa88b6bac4ea4d9366be6f514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:09 +0000
Subject: [PATCH 35/52] fix: verify the checksum of compressed tarballs when
 extracting them

---
 internal/archive/extract.go | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/internal/archive/extract.go b/internal/archive/extract.go
index 81ff15c..a5a333a 100644
--- a/internal/archive/extract.go
+++ b/internal/archive/extract.go
@@ -66,9 +66,28 @@ func Extract(filename string, dir string) error {
 	}
 	defer root.Close()
 
-	return ex.Extract(context.Background(), r, func(ctx context.Context, fi archives.FileInfo) error {
+	var in io.Reader = r
+	if ca, ok := format.(archives.CompressedArchive); ok && ca.Extraction != nil && ca.Compression != nil {
+		rc, err := ca.Compression.OpenReader(r)
+		if err != nil {
+			return err
+		}
+		defer rc.Close()
+		ex, in = ca.Extraction, rc
+	}
+
+	err = ex.Extract(context.Background(), in, func(ctx context.Context, fi archives.FileInfo) error {
 		return extractFile(ctx, fi, root)
 	})
+	if err != nil {
+		return err
+	}
+
+	// Compressed data ends with a checksum, which is verified only when
+	// everything after the last entry has been read, too.
+	_, err = io.Copy(io.Discard, in)
+
+	return err
 }
 
 func extractFile(ctx context.Context, fi archives.FileInfo, root *os.Root) error {
-- 
2.43.0


From 45b7171aef52a4da79da6093b724ca1e332b53c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:35 +0000
Subject: [PATCH 36/52] fix: add packages to an empty list that starts with a
 comment

---
 configlib/add_package.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/configlib/add_package.go b/configlib/add_package.go
index 8a20a09..401b3f7 100644
--- a/configlib/add_package.go
+++ b/configlib/add_package.go
@@ -104,7 +104,12 @@ func insertPackages(lines []string, pkgs ...string) []string {
 			inserted += ", "
 		}
 		line := []rune(lines[value.Line-1])
-		outputLines[value.Line-1] = string(line[:value.Column]) + inserted + string(line[value.Column:])
+		rest := string(line[value.Column:])
+		if strings.HasPrefix(rest, "#") {
+			// a comment needs a space before it
+			rest = " " + rest
+		}
+		outputLines[value.Line-1] = string(line[:value.Column]) + inserted + rest
 		return outputLines
 	}
 
-- 
2.43.0


From 2716c4b6f48ace31468ae1f1e6aca0be84d58a32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:43 +0000
Subject: [PATCH 37/52] fix: clean package databases without planning an
 install

---
 cmd/cleanPkgdb.go |  9 ++++--
 cmd/plan.go       | 70 +++++++++++++++++++++++++----------------------
 cran/repodb.go    |  8 +++++-
 3 files changed, 52 insertions(+), 35 deletions(-)

diff --git a/cmd/cleanPkgdb.go b/cmd/cleanPkgdb.go
index d36c9eb..c1f4cdf 100644
--- a/cmd/cleanPkgdb.go
+++ b/cmd/cleanPkgdb.go
@@ -18,6 +18,7 @@ import (
 	"strings"
 
 	"github.com/metrumresearchgroup/pkgr/configlib"
+	"github.com/metrumresearchgroup/pkgr/cran"
 
 	"github.com/metrumresearchgroup/pkgr/logger"
 	"github.com/metrumresearchgroup/pkgr/rcmd"
@@ -89,8 +90,12 @@ func removePackageDatabases(pkgdbsToClear []string, cfg configlib.PkgrConfig) er
 
 	rs := rcmd.NewRSettings(cfg.RPath)
 
-	pkgNexus, _, _ := planInstall(rs.Version, false)
-	repoDatabases := pkgNexus.Db
+	// No need to plan an install here: that would fetch missing databases and unpack tarballs.
+	repos, cic := configuredRepos()
+	var repoDatabases []*cran.RepoDb
+	for _, repo := range repos {
+		repoDatabases = append(repoDatabases, cran.NewEmptyRepoDb(repo, cran.DefaultType(), cic.Repos[repo.Name]))
+	}
 
 	for _, dbToClear := range pkgdbsToClear {
 		for _, repoDatabase := range repoDatabases {
diff --git a/cmd/plan.go b/cmd/plan.go
index 39bd224..68d745a 100644
--- a/cmd/plan.go
+++ b/cmd/plan.go
@@ -83,6 +83,43 @@ func plan(cmd *cobra.Command, args []string) error {
 	return nil
 }
 
+// configuredRepos returns the repositories of the configuration and their customizations
+func configuredRepos() ([]cran.RepoURL, *cran.InstallConfig) {
+	var repos []cran.RepoURL
+	for _, r := range cfg.Repos {
+		for nm, url := range r {
+			repo, _ := configlib.GetRepoCustomizationByName(nm, cfg.Customizations)
+			// for now no need to check if customization exists as the repo will have a default empty string
+			// regardless so no additional logic needed
+			repos = append(repos, cran.RepoURL{Name: nm, URL: url, Suffix: repo.RepoSuffix})
+		}
+	}
+	cic := cran.NewInstallConfig()
+	for _, repoSlice := range cfg.Customizations.Repos {
+		for rn, val := range repoSlice {
+			rc := cran.RepoConfig{}
+			if strings.EqualFold(val.RepoType, "MPN") {
+				rc.RepoType = cran.MPN
+				rc.DefaultSourceType = cran.Binary
+			}
+			if strings.EqualFold(val.RepoType, "RSPM") {
+				rc.RepoType = cran.RSPM
+			}
+			if strings.EqualFold(val.Type, "binary") {
+				rc.DefaultSourceType = cran.Binary
+			}
+			if strings.EqualFold(val.Type, "source") {
+				rc.DefaultSourceType = cran.Source
+			}
+			if val.RepoSuffix != "" {
+				rc.RepoSuffix = val.RepoSuffix
+			}
+			cic.Repos[rn] = rc
+		}
+	}
+	return repos, cic
+}
+
 func planInstall(rv cran.RVersion, exitOnMissing bool) (*cran.PkgNexus, gpsr.InstallPlan, rollback.RollbackPlan) {
 	startTime := time.Now()
 
@@ -126,39 +163,8 @@ func planInstall(rv cran.RVersion, exitOnMissing bool) (*cran.PkgNexus, gpsr.Ins
 		//fs.Chmod(cfg.Library, 0755)
 	}
 
-	var repos []cran.RepoURL
-	for _, r := range cfg.Repos {
-		for nm, url := range r {
-			repo, _ := configlib.GetRepoCustomizationByName(nm, cfg.Customizations)
-			// for now no need to check if customization exists as the repo will have a default empty string
-			// regardless so no additional logic needed
-			repos = append(repos, cran.RepoURL{Name: nm, URL: url, Suffix: repo.RepoSuffix})
-		}
-	}
 	st := cran.DefaultType()
-	cic := cran.NewInstallConfig()
-	for _, repoSlice := range cfg.Customizations.Repos {
-		for rn, val := range repoSlice {
-			rc := cran.RepoConfig{}
-			if strings.EqualFold(val.RepoType, "MPN") {
-				rc.RepoType = cran.MPN
-				rc.DefaultSourceType = cran.Binary
-			}
-			if strings.EqualFold(val.RepoType, "RSPM") {
-				rc.RepoType = cran.RSPM
-			}
-			if strings.EqualFold(val.Type, "binary") {
-				rc.DefaultSourceType = cran.Binary
-			}
-			if strings.EqualFold(val.Type, "source") {
-				rc.DefaultSourceType = cran.Source
-			}
-			if val.RepoSuffix != "" {
-				rc.RepoSuffix = val.RepoSuffix
-			}
-			cic.Repos[rn] = rc
-		}
-	}
+	repos, cic := configuredRepos()
 	pkgNexus, err := cran.NewPkgDb(repos, st, cic, rv, cfg.NoSecure)
 	if err != nil {
 		log.Panicln("error getting pkgdb ", err)
diff --git a/cran/repodb.go b/cran/repodb.go
index c25f4ab..307f2a5 100644
--- a/cran/repodb.go
+++ b/cran/repodb.go
@@ -26,6 +26,12 @@ import (
 // This occasionally is needed for repos that have self signed or certs not fully verifiable
 // which will return errors such as x509: certificate signed by unknown authority
 func NewRepoDb(url RepoURL, dst SourceType, rc RepoConfig, rv RVersion, noSecure bool) (*RepoDb, error) {
+	repoDatabasePointer := NewEmptyRepoDb(url, dst, rc)
+	return repoDatabasePointer, repoDatabasePointer.FetchPackages(rv, noSecure)
+}
+
+// NewEmptyRepoDb returns a new Repo database without fetching the packages of the repository
+func NewEmptyRepoDb(url RepoURL, dst SourceType, rc RepoConfig) *RepoDb {
 	repoDatabasePointer := &RepoDb{
 		DescriptionsBySourceType: make(map[SourceType]map[string]desc.Desc),
 		Time:                     time.Now(),
@@ -48,7 +54,7 @@ func NewRepoDb(url RepoURL, dst SourceType, rc RepoConfig, rv RVersion, noSecure
 
 	repoDatabasePointer.DescriptionsBySourceType[Source] = make(map[string]desc.Desc)
 
-	return repoDatabasePointer, repoDatabasePointer.FetchPackages(rv, noSecure)
+	return repoDatabasePointer
 }
 
 // Decode decodes the package database
-- 
2.43.0


From 72fc0ae7c0216b01efbcc54853c43f95698f60f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:51 +0000
Subject: [PATCH 38/52] fix: install plans of more packages than the install
 queue holds

---
 rcmd/install.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/rcmd/install.go b/rcmd/install.go
index fc690b3..2dffa42 100644
--- a/rcmd/install.go
+++ b/rcmd/install.go
@@ -437,8 +437,6 @@ func InstallPackagePlan(
 	// for now this will only be updated in the Update function
 	// however if it may be concurrently accessed should consider a syncmap implementation
 	installedPkgs := make(map[string]bool)
-	// if packages ID'd as ready to install signal so can push them only the queue
-	shouldInstall := make(chan string)
 	// set by the updater and read while requesting installations
 	var anyFailed atomic.Bool
 
@@ -446,6 +444,15 @@ func InstallPackagePlan(
 
 	iDeps := plan.InvertDependencies()
 
+	// if packages ID'd as ready to install signal so can push them only the queue.
+	// There is room for every signal: the updater must never wait for the install queue,
+	// which can only drain while the updater takes updates.
+	signals := len(plan.StartingPackages)
+	for _, deps := range iDeps {
+		signals += len(deps)
+	}
+	shouldInstall := make(chan string, signals)
+
 	failedPkgs := []string{}
 
 	installQueue := NewInstallQueue(
-- 
2.43.0


From 09b4737499fffd96044834056d94d433f8cd5976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:35 +0000
Subject: [PATCH 39/52] fix: install packages of which the library has only an
 incomplete folder

---
 rcmd/install.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/rcmd/install.go b/rcmd/install.go
index 2dffa42..a35eca5 100644
--- a/rcmd/install.go
+++ b/rcmd/install.go
@@ -20,6 +20,7 @@ import (
 	"github.com/fatih/structs"
 	"github.com/fatih/structtag"
 	"github.com/metrumresearchgroup/pkgr/cran"
+	"github.com/metrumresearchgroup/pkgr/desc"
 	"github.com/metrumresearchgroup/pkgr/gpsr"
 	log "github.com/sirupsen/logrus"
 	"github.com/spf13/afero"
@@ -274,6 +275,18 @@ func isInCache(
 	return true, ir
 }
 
+// isInstalled tells whether the library has the package. A folder without a
+// proper DESCRIPTION, eg of an interrupted installation, is no package.
+func isInstalled(fs afero.Fs, library string, pkg string) bool {
+	file, err := fs.Open(filepath.Join(library, pkg, "DESCRIPTION"))
+	if err != nil {
+		return false
+	}
+	defer file.Close()
+	installed, _ := desc.ParseDesc(file)
+	return installed.Package != ""
+}
+
 // InstallThroughBinary installs in a two pass fashion
 // by first installing and generating a binary in
 // a tmp dir, then installs the binary to the desired
@@ -285,8 +298,7 @@ func InstallThroughBinary(
 	fs afero.Fs,
 	ir InstallRequest,
 	pc PackageCache) (CmdResult, string, error) {
-	exists, _ := goutils.DirExists(fs, filepath.Join(ir.InstallArgs.Library, ir.Package))
-	if exists {
+	if isInstalled(fs, ir.InstallArgs.Library, ir.Package) {
 		log.WithFields(log.Fields{
 			"package": ir.Package,
 			"version": ir.Metadata.Metadata.Package.Version,
-- 
2.43.0


From 7c269e40fe4862dfb5e4c7dd616765e78fc649bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:28 +0000
Subject: [PATCH 40/52] fix: recognize the format of tarballs by their
 extension only

---
 internal/archive/extract.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/internal/archive/extract.go b/internal/archive/extract.go
index a5a333a..bd25434 100644
--- a/internal/archive/extract.go
+++ b/internal/archive/extract.go
@@ -6,6 +6,7 @@ import (
 	"io"
 	"os"
 	"path/filepath"
+	"strings"
 
 	"github.com/mholt/archives"
 )
@@ -36,7 +37,14 @@ import (
 //     depending on whether the entry in the archive has execute bits.
 //     Directories are created with mode 0o777 (before umask).
 func Extract(filename string, dir string) error {
-	format, _, err := archives.Identify(context.Background(), filename, nil)
+	// The format is recognized by any part of a name, so leave out the name and
+	// version of the package (e.g., "foo.xz_1.0.tar.gz").
+	name := filepath.Base(filename)
+	if i := strings.LastIndex(name, ".tar"); i >= 0 {
+		name = name[i:]
+	}
+
+	format, _, err := archives.Identify(context.Background(), name, nil)
 	if err != nil {
 		return fmt.Errorf("unable to identify format: %q: %w", filename, err)
 	}
-- 
2.43.0


From e1de8059a07a3420bc3c5757fd28a8e934b9cc3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:39 +0000
Subject: [PATCH 41/52] fix: folders that are not named like their package do
 not count as installed packages

---
 pacman/utils.go | 14 ++++++++++++++
 rcmd/install.go |  2 +-
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/pacman/utils.go b/pacman/utils.go
index 65ee5e0..39350b2 100644
--- a/pacman/utils.go
+++ b/pacman/utils.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"os"
 	"path/filepath"
+	"strings"
 
 	"github.com/dpastoor/goutils"
 	"github.com/metrumresearchgroup/pkgr/cran"
@@ -49,6 +50,19 @@ func GetPriorInstalledPackages(fileSystem afero.Fs, libraryPath string) map[stri
 				"source repo": installedPackage.Repository,
 			}).Debug("found installed package")
 
+			// R knows packages by their folders: a copy of a package under another name is not that package.
+			// The exception are the backups of interrupted installs, which the next install restores.
+			restored, isBackup := strings.CutPrefix(pkgFolder, "__OLD__")
+			if installedPackage.Package != restored {
+				log.WithFields(log.Fields{
+					"folder":  pkgFolder,
+					"package": installedPackage.Package,
+				}).Debug("ignoring folder that is not named like its package")
+				continue
+			}
+			if _, found := installed[installedPackage.Package]; found && !isBackup {
+				continue
+			}
 			installed[installedPackage.Package] = installedPackage
 		}
 	}
diff --git a/rcmd/install.go b/rcmd/install.go
index a35eca5..92b0261 100644
--- a/rcmd/install.go
+++ b/rcmd/install.go
@@ -284,7 +284,7 @@ func isInstalled(fs afero.Fs, library string, pkg string) bool {
 	}
 	defer file.Close()
 	installed, _ := desc.ParseDesc(file)
-	return installed.Package != ""
+	return installed.Package == pkg
 }
 
 // InstallThroughBinary installs in a two pass fashion
-- 
2.43.0


From 684b0db0822fa9226c55ebc2164217f25d502531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:27 +0000
Subject: [PATCH 42/52] fix: concurrent runs with the same process number
 (containers sharing a cache) used the same temporary files

---
 cmd/tarballOps.go | 3 ++-
 rcmd/install.go   | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/cmd/tarballOps.go b/cmd/tarballOps.go
index c843adb..52d98ed 100644
--- a/cmd/tarballOps.go
+++ b/cmd/tarballOps.go
@@ -12,6 +12,7 @@ import (
 	"io"
 	"os"
 	"path/filepath"
+	"time"
 )
 
 func unpackTarballs(fs afero.Fs, tarballs []string, cache string) ([]desc.Desc, map[string]gpsr.AdditionalPkg) {
@@ -90,7 +91,7 @@ func untar(fs afero.Fs, path string, cacheDir string) string {
 		}).Debug("using cached tarball.")
 	} else {
 		// Extract to a separate directory first, so that a partial extraction is never found in the cache.
-		part := fmt.Sprintf("%s.%d.part", tarballDirectoryPath, os.Getpid())
+		part := fmt.Sprintf("%s.%d-%d.part", tarballDirectoryPath, os.Getpid(), time.Now().UnixNano())
 		err = archive.Extract(path, part)
 		if err == nil {
 			err = os.Rename(part, tarballDirectoryPath)
diff --git a/rcmd/install.go b/rcmd/install.go
index 92b0261..5553af7 100644
--- a/rcmd/install.go
+++ b/rcmd/install.go
@@ -527,7 +527,7 @@ func InstallPackagePlan(
 						filepath.Base(iu.BinaryPath),
 					)
 					// copy to a separate file first, so that a partial binary is never found at bpath
-					part := fmt.Sprintf("%s.%d.part", bpath, os.Getpid())
+					part := fmt.Sprintf("%s.%d-%d.part", bpath, os.Getpid(), time.Now().UnixNano())
 					_, err := goutils.Copy(iu.BinaryPath, part)
 					if err == nil {
 						err = os.Rename(part, bpath)
-- 
2.43.0


From 907bda5429728921eb18ba89458e188dcf16952f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:06 +0000
Subject: [PATCH 43/52] fix: R's own folder was missing from PATH when PATH
 begins with a folder of a similar name

---
 rcmd/configure.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rcmd/configure.go b/rcmd/configure.go
index edbc3f9..5ef7627 100644
--- a/rcmd/configure.go
+++ b/rcmd/configure.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"os"
 	"path/filepath"
+	"runtime"
 	"strings"
 
 	log "github.com/sirupsen/logrus"
@@ -60,8 +61,8 @@ func configureEnv(sysEnvVars []string, rs RSettings, pkg string) []string {
 				continue
 			}
 			if evs[0] == "PATH" {
-				rDir := filepath.Dir(rs.Rpath)
-				if rDir != "" && rDir != "." && !strings.HasPrefix(evs[1], rDir) {
+				rDir := filepath.Dir(rs.R(runtime.GOOS))
+				if rDir != "." && filepath.SplitList(evs[1])[0] != rDir {
 					evs[1] = fmt.Sprintf("%s:%s", rDir, evs[1])
 					log.WithField("path", evs[1]).Debug("adding Rpath to front of system PATH")
 				}
-- 
2.43.0


From b570b21ab8a94e1fc162d7616998e351da42266f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:06 +0000
Subject: [PATCH 44/52] fix: a relative RPath depended on the directory R is
 started in

---
 configlib/config.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/configlib/config.go b/configlib/config.go
index 8779cfc..00aa638 100644
--- a/configlib/config.go
+++ b/configlib/config.go
@@ -45,6 +45,10 @@ func NewConfig(cfgPath string, cfg *PkgrConfig) {
 	}
 
 	cfg.RPath = expandTilde(cfg.RPath)
+	if r := filepath.Clean(cfg.RPath); filepath.Base(r) != r && !filepath.IsAbs(r) {
+		// relative to the config file, whichever directory R is started in
+		cfg.RPath = filepath.Join(filepath.Dir(viper.ConfigFileUsed()), r)
+	}
 
 	if len(cfg.Library) == 0 {
 		rs := rcmd.NewRSettings(cfg.RPath)
-- 
2.43.0


From c326654b31d16d0532f4c50e0e09756433abd980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:06 +0000
Subject: [PATCH 45/52] fix: add --install did not find a config file given by
 a relative path after editing it

---
 cmd/add.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cmd/add.go b/cmd/add.go
index bf96857..7ea61de 100644
--- a/cmd/add.go
+++ b/cmd/add.go
@@ -22,6 +22,7 @@ import (
 	"github.com/metrumresearchgroup/pkgr/logger"
 	log "github.com/sirupsen/logrus"
 	"github.com/spf13/cobra"
+	"github.com/spf13/viper"
 )
 
 // installCmd represents the R CMD install command
@@ -62,6 +63,8 @@ func rAdd(ccmd *cobra.Command, args []string) error {
 	}
 	if install {
 		// if installing now, must call initConfig again for cobra to read in the yml file changes and see the new package/s
+		// the working directory is that of the file by now, so its path as given may not lead there anymore
+		viper.Set("config", viper.ConfigFileUsed())
 		initConfig()
 		rInstall(nil, nil)
 	}
-- 
2.43.0


From 16b6263eb1318425c0646afa475a46f2f35e49e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:06 +0000
Subject: [PATCH 46/52] fix: empty entries of dependency fields counted as a
 package without a name

---
 desc/desc.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/desc/desc.go b/desc/desc.go
index 7203ead..0260dc7 100644
--- a/desc/desc.go
+++ b/desc/desc.go
@@ -73,26 +73,34 @@ func NewDesc(d desc) Desc {
 	if len(d.Imports) > 0 {
 		for _, dp := range d.Imports {
 			dep := ParseDep(dp)
-			dsc.Imports[dep.Name] = dep
+			if dep.Name != "" {
+				dsc.Imports[dep.Name] = dep
+			}
 		}
 	}
 	if len(d.Suggests) > 0 {
 		for _, dp := range d.Suggests {
 			dep := ParseDep(dp)
-			dsc.Suggests[dep.Name] = dep
+			if dep.Name != "" {
+				dsc.Suggests[dep.Name] = dep
+			}
 		}
 
 	}
 	if len(d.Depends) > 0 {
 		for _, dp := range d.Depends {
 			dep := ParseDep(dp)
-			dsc.Depends[dep.Name] = dep
+			if dep.Name != "" {
+				dsc.Depends[dep.Name] = dep
+			}
 		}
 	}
 	if len(d.LinkingTo) > 0 {
 		for _, dp := range d.LinkingTo {
 			dep := ParseDep(dp)
-			dsc.LinkingTo[dep.Name] = dep
+			if dep.Name != "" {
+				dsc.LinkingTo[dep.Name] = dep
+			}
 		}
 	}
 	return dsc
-- 
2.43.0


From 3cd95d179fa0cc9ef758bace9d3f4285ace13244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:06 +0000
Subject: [PATCH 47/52] fix: R requirements with != made pkgr panic

---
 cran/repodb.go  | 2 ++
 desc/desc.go    | 3 +++
 desc/structs.go | 3 +++
 3 files changed, 8 insertions(+)

diff --git a/cran/repodb.go b/cran/repodb.go
index 307f2a5..9d41f86 100644
--- a/cran/repodb.go
+++ b/cran/repodb.go
@@ -342,6 +342,8 @@ func checkRVersionCompatibility(rVersion RVersion, pkgRConstraint desc.Dep) bool
 		packageValid = desc.CompareVersions(installationVersion, pkgRConstraint.Version) <= 0
 	case desc.Equals:
 		packageValid = desc.CompareVersions(installationVersion, pkgRConstraint.Version) == 0
+	case desc.NotEquals:
+		packageValid = desc.CompareVersions(installationVersion, pkgRConstraint.Version) != 0
 	default:
 		break
 	}
diff --git a/desc/desc.go b/desc/desc.go
index 0260dc7..bd26b67 100644
--- a/desc/desc.go
+++ b/desc/desc.go
@@ -25,6 +25,9 @@ func ParseDep(d string) Dep {
 		if strings.Contains(pv, "==") {
 			dep.Constraint = Equals
 			dep.Version = ParseVersion(strings.TrimSpace(strings.Replace(pv, "==", "", 1)))
+		} else if strings.Contains(pv, "!=") {
+			dep.Constraint = NotEquals
+			dep.Version = ParseVersion(strings.TrimSpace(strings.Replace(pv, "!=", " ", 1)))
 		} else if strings.Contains(pv, ">=") {
 			dep.Constraint = GTE
 			dep.Version = ParseVersion(strings.TrimSpace(strings.Replace(pv, ">=", " ", 1)))
diff --git a/desc/structs.go b/desc/structs.go
index 2590074..bbabf9f 100644
--- a/desc/structs.go
+++ b/desc/structs.go
@@ -15,6 +15,8 @@ func (c Constraint) ToString() string {
 		return "<="
 	case Equals:
 		return "=="
+	case NotEquals:
+		return "!="
 	default:
 		return "Unknown constraint"
 	}
@@ -29,6 +31,7 @@ const (
 	Equals
 	LTE
 	LT
+	NotEquals
 )
 
 // Version represents a package version
-- 
2.43.0


From 39816cdf670e3bb5e052e0339bcfb234e9648bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:06 +0000
Subject: [PATCH 48/52] fix: a package customization without settings made pkgr
 panic

---
 configlib/config.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/configlib/config.go b/configlib/config.go
index 00aa638..be7d196 100644
--- a/configlib/config.go
+++ b/configlib/config.go
@@ -234,9 +234,12 @@ func loadDefaultSettings() {
 // IsCustomizationSet ...
 func IsCustomizationSet(key string, elems []interface{}, elem string) bool {
 	for _, v := range elems {
-		for k, iv := range v.(map[interface{}]interface{}) {
+		// an entry or a package without any settings is no map
+		entry, _ := v.(map[interface{}]interface{})
+		for k, iv := range entry {
 			if k == elem {
-				for k2 := range iv.(map[interface{}]interface{}) {
+				settings, _ := iv.(map[interface{}]interface{})
+				for k2 := range settings {
 					if k2 == key {
 						return true
 					}
-- 
2.43.0


From 793341c46eef71a4ad859458e82037163b70011b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:06 +0000
Subject: [PATCH 49/52] fix: of several customizations of a package the last
 one reset or failed on what it does not set

---
 configlib/config.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/configlib/config.go b/configlib/config.go
index be7d196..08742d0 100644
--- a/configlib/config.go
+++ b/configlib/config.go
@@ -348,7 +348,9 @@ func setCfgCustomizations(cfg PkgrConfig, dependencyConfigurations *gpsr.Install
 
 func setViperCustomizations(cfg PkgrConfig, pkgSettings []interface{}, dependencyConfigurations gpsr.InstallDeps, pkgNexus *cran.PkgNexus) {
 	pkgCustomizationsSlice := cfg.Customizations.Packages
-	for _, pkgCustomizations := range pkgCustomizationsSlice {
+	for i, pkgCustomizations := range pkgCustomizationsSlice {
+		// what other entries for the same package set is not in v
+		pkgSettings := pkgSettings[i : i+1]
 		for pkg, v := range pkgCustomizations {
 			if IsCustomizationSet("Suggests", pkgSettings, pkg) {
 				pkgDepTypes := dependencyConfigurations.Default
-- 
2.43.0


From 3483f0c33bc9026504d105eb779c48f9143353ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:06 +0000
Subject: [PATCH 50/52] fix: names of package settings in other case than
 documented were ignored, unlike all others

---
 configlib/config.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/configlib/config.go b/configlib/config.go
index 08742d0..3769113 100644
--- a/configlib/config.go
+++ b/configlib/config.go
@@ -240,7 +240,8 @@ func IsCustomizationSet(key string, elems []interface{}, elem string) bool {
 			if k == elem {
 				settings, _ := iv.(map[interface{}]interface{})
 				for k2 := range settings {
-					if k2 == key {
+					// setting names are read without regard to case everywhere
+					if name, ok := k2.(string); ok && strings.EqualFold(name, key) {
 						return true
 					}
 				}
-- 
2.43.0


From 1fec8ec6baafb600779aea7f176bf7fb16de6b8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:06 +0000
Subject: [PATCH 51/52] fix: environment variables of customizations that look
 like booleans or numbers reached R with other values

---
 configlib/config.go | 54 +++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 54 insertions(+)

diff --git a/configlib/config.go b/configlib/config.go
index 3769113..eebee65 100644
--- a/configlib/config.go
+++ b/configlib/config.go
@@ -44,6 +44,8 @@ func NewConfig(cfgPath string, cfg *PkgrConfig) {
 		log.Fatalf("error parsing pkgr.yml: %s\n", err)
 	}
 
+	setEnvText(cfg, viper.ConfigFileUsed())
+
 	cfg.RPath = expandTilde(cfg.RPath)
 	if r := filepath.Clean(cfg.RPath); filepath.Base(r) != r && !filepath.IsAbs(r) {
 		// relative to the config file, whichever directory R is started in
@@ -68,6 +70,58 @@ func NewConfig(cfgPath string, cfg *PkgrConfig) {
 	return
 }
 
+// setEnvText sets the environment variables of package customizations to the text given in the config file,
+// as viper gives those that look like numbers or booleans (true, 1.50) as other text.
+func setEnvText(cfg *PkgrConfig, cfgPath string) {
+	b, err := ioutil.ReadFile(cfgPath)
+	if err != nil {
+		return
+	}
+	var doc yaml.Node
+	if yaml.Unmarshal([]byte(os.ExpandEnv(string(b))), &doc) != nil || len(doc.Content) == 0 {
+		return
+	}
+	entries := yamlField(yamlField(doc.Content[0], "Customizations"), "Packages")
+	for i, pkgs := range cfg.Customizations.Packages {
+		if entries == nil || i >= len(entries.Content) {
+			break
+		}
+		for pkg, settings := range pkgs {
+			node := yamlField(yamlField(entries.Content[i], pkg), "Env")
+			text := make(map[string]string)
+			if node == nil || node.Decode(&text) != nil {
+				continue
+			}
+			for name := range settings.Env {
+				if v, ok := text[name]; ok {
+					settings.Env[name] = v
+				}
+			}
+		}
+	}
+}
+
+// yamlField gives the value of a field of a mapping, or nil if there is no such field.
+// As in viper, the case of the name does not matter, but fields with the very name go first.
+func yamlField(n *yaml.Node, name string) *yaml.Node {
+	if n != nil && n.Kind == yaml.AliasNode {
+		n = n.Alias
+	}
+	if n == nil || n.Kind != yaml.MappingNode {
+		return nil
+	}
+	var found *yaml.Node
+	for i := 0; i+1 < len(n.Content); i += 2 {
+		if n.Content[i].Value == name {
+			return n.Content[i+1]
+		}
+		if strings.EqualFold(n.Content[i].Value, name) {
+			found = n.Content[i+1]
+		}
+	}
+	return found
+}
+
 /// expand the ~ at the beginning of a path to the home directory.
 /// consider any problems a fatal error.
 func expandTilde(p string) string {
-- 
2.43.0


From bcc9b872b098e3d31fe166c287c11700ea35d5aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:06 +0000
Subject: [PATCH 52/52] fix: run used only the first of several customizations
 of a package

---
 cmd/run.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/cmd/run.go b/cmd/run.go
index 0e4ef2b..ba63edc 100644
--- a/cmd/run.go
+++ b/cmd/run.go
@@ -60,10 +60,7 @@ func rRun(cmd *cobra.Command, args []string) error {
 	// at least for experimentation for now. If necessary can refactor out the
 	// specifics so could be run here exactly.
 	rs.LibPaths = append(rs.LibPaths, cfg.Library)
-	pc, exists := configlib.GetPackageCustomizationByName(pkg, cfg.Customizations)
-	if exists {
-		rs.PkgEnvVars[pkg] = pc.Env
-	}
+	rs = configlib.SetCustomizations(rs, cfg)
 	rcmd.StartR(fs, pkg, rs, "")
 	return nil
 }
-- 
2.43.0

