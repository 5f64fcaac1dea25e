From e3f467f7446cfa3345c6cbb800bde4f29b066a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:42 +0000
Subject: [PATCH 01/32] fix: report a missing source file in CopyFile instead
 of succeeding

---
 src/ferryd/core/util.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ferryd/core/util.go b/src/ferryd/core/util.go
index b70fa06..19c5b1b 100644
--- a/src/ferryd/core/util.go
+++ b/src/ferryd/core/util.go
@@ -38,7 +38,7 @@ func CopyFile(source, dest string) error {
 	// Stat the source first
 	st, err = os.Stat(source)
 	if err != nil {
-		return nil
+		return err
 	}
 	if src, err = os.Open(source); err != nil {
 		return err
-- 
2.43.0


From c8159383bf85ed0ab336ec43b05582845766b196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:42 +0000
Subject: [PATCH 02/32] fix: never truncate a shared file when the link target
 already exists

---
 src/ferryd/core/util.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/ferryd/core/util.go b/src/ferryd/core/util.go
index 19c5b1b..d0509c1 100644
--- a/src/ferryd/core/util.go
+++ b/src/ferryd/core/util.go
@@ -70,6 +70,23 @@ func LinkOrCopyFile(source, dest string, forceCopy bool) error {
 	if os.Link(source, dest) == nil {
 		return nil
 	}
+	sourceInfo, err := os.Stat(source)
+	if err != nil {
+		return err
+	}
+	if destInfo, err := os.Stat(dest); err == nil {
+		// Already linked, copying would truncate the one shared file
+		if os.SameFile(sourceInfo, destInfo) {
+			return nil
+		}
+		// A stale file may be linked elsewhere, so never write through it
+		if err := os.Remove(dest); err != nil {
+			return err
+		}
+		if os.Link(source, dest) == nil {
+			return nil
+		}
+	}
 	return CopyFile(source, dest)
 }
 
-- 
2.43.0


From e46eca6ccdc11e84bf52563b86235a97cfc06591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:00 +0000
Subject: [PATCH 03/32] fix: keep runes intact that are split across writes of
 the index escaper

---
 src/ferryd/core/escape.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/ferryd/core/escape.go b/src/ferryd/core/escape.go
index c16991f..1150c62 100644
--- a/src/ferryd/core/escape.go
+++ b/src/ferryd/core/escape.go
@@ -9,7 +9,8 @@ import (
 
 // EscapedWriter is a writer that escapes non-ASCII sequences written to it using HTML encoding.
 type EscapedWriter struct {
-	w io.Writer
+	w    io.Writer
+	rest []byte // Incomplete trailing rune of the previous write
 }
 
 // NewEscapedWriter returns an initialised EscapedWriter.
@@ -22,11 +23,14 @@ func (e *EscapedWriter) Write(b []byte) (n int, err error) {
 	n = len(b)
 	escaped := make([]byte, 0, len(b))
 
-	for len(b) > 0 {
+	// A rune may be split across writes
+	b = append(e.rest, b...)
+	for utf8.FullRune(b) {
 		r, size := utf8.DecodeRune(b)
 		escaped = e.appendRune(escaped, r)
 		b = b[size:]
 	}
+	e.rest = append([]byte(nil), b...)
 
 	if _, err = e.w.Write(escaped); err != nil {
 		return 0, fmt.Errorf("failed to write escaped bytes: %w", err)
-- 
2.43.0


From 170243bd40e47a9d7b74a08c379f52ea192295e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:27 +0000
Subject: [PATCH 04/32] fix: reject package metadata without history or source,
 or with unsafe names

---
 src/libeopkg/main.go     |  2 +-
 src/libeopkg/metadata.go | 17 +++++++++++++++++
 src/libeopkg/package.go  |  3 +++
 3 files changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/libeopkg/main.go b/src/libeopkg/main.go
index 4cf8ee0..acd51bb 100644
--- a/src/libeopkg/main.go
+++ b/src/libeopkg/main.go
@@ -47,7 +47,7 @@ type LocalisedField struct {
 // FixMissingLocalLanguage should be used on a set of LocalisedField to restore
 // the missing "en" that is required in the very first field set.
 func FixMissingLocalLanguage(fields *[]LocalisedField) {
-	if fields == nil {
+	if fields == nil || len(*fields) < 1 {
 		return
 	}
 	field := &(*fields)[0]
diff --git a/src/libeopkg/metadata.go b/src/libeopkg/metadata.go
index 0ee0ef4..1b83c4c 100644
--- a/src/libeopkg/metadata.go
+++ b/src/libeopkg/metadata.go
@@ -154,6 +154,23 @@ func (m *MetaPackage) GetID() string {
 	return filepath.Base(m.PackageURI)
 }
 
+// isSane ensures that we have the fields everyone relies on, and that those
+// used to form file names can never leave the directory they're used within
+func (m *MetaPackage) isSane() bool {
+	if len(m.History) < 1 || m.Name == "" || m.Source.Name == "" {
+		return false
+	}
+	if m.Source.Name == "." || m.Source.Name == ".." {
+		return false
+	}
+	for _, s := range []string{m.Name, m.Source.Name, m.GetVersion(), m.DistributionRelease, m.Architecture} {
+		if strings.ContainsAny(s, "/\x00") {
+			return false
+		}
+	}
+	return true
+}
+
 // GetRelease is a helpful wrapper to return the package's current release
 func (m *MetaPackage) GetRelease() int {
 	return m.History[0].Release
diff --git a/src/libeopkg/package.go b/src/libeopkg/package.go
index e6aa1ab..6385b89 100644
--- a/src/libeopkg/package.go
+++ b/src/libeopkg/package.go
@@ -110,6 +110,9 @@ func (p *Package) ReadMetadata() error {
 	if err = dec.Decode(metadata); err != nil {
 		return err
 	}
+	if !metadata.Package.isSane() {
+		return ErrEopkgCorrupted
+	}
 	p.Meta = metadata
 	// Clean up extra junk
 	for i := range p.Meta.Package.Summary {
-- 
2.43.0


From 3aca873652a573e34f759faea8a95036217ae13c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:27 +0000
Subject: [PATCH 05/32] fix: index the target of a source copy unless asked to
 skip it

---
 src/ferryd/core/api.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/ferryd/core/api.go b/src/ferryd/core/api.go
index 71e97de..6183a13 100644
--- a/src/ferryd/core/api.go
+++ b/src/ferryd/core/api.go
@@ -123,10 +123,9 @@ func (m *Manager) CopySource(repoID, target, sourceID string, release int, skipI
 	}
 
 	if skipIndex {
-		return m.Index(target)
-	} else {
 		return nil
 	}
+	return m.Index(target)
 }
 
 // TrimObsolete will ask the repo to remove obsolete packages
-- 
2.43.0


From 7f1171bf01371bdb9299313a6cdc862a454dbc02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:48 +0000
Subject: [PATCH 06/32] fix: trim every version of every obsolete package, and
 keep a published version on unref

---
 src/ferryd/core/repo.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/ferryd/core/repo.go b/src/ferryd/core/repo.go
index c0344f5..d448dac 100644
--- a/src/ferryd/core/repo.go
+++ b/src/ferryd/core/repo.go
@@ -553,7 +553,7 @@ func (r *Repository) UnrefPackage(db libdb.Database, pool *Pool, pkgID string) e
 		}
 		// Learn highest relno here, it's going to be the published ID
 		curRel := availEntry.Meta.GetRelease()
-		if curRel > newHighest {
+		if newHighestID == "" || curRel > newHighest {
 			newHighest = curRel
 			newHighestID = id
 		}
@@ -1179,16 +1179,15 @@ func (r *Repository) TrimObsolete(db libdb.Database, pool *Pool) error {
 
 			// Check if its obsolete, if its automatically obsolete through our
 			// dbginfo trick, warn in the console
-			if r.dist != nil && r.dist.IsObsolete(nom) {
+			if r.dist.IsObsolete(nom) || r.dist.IsObsolete(entry.Name) {
 				if nom != entry.Name {
 					// Scream really loudly, but remove it because its "just" dbginfo.
 					log.WithFields(log.Fields{
 						"repo": r.ID,
 						"name": poolEntry.Meta.Name,
 					}).Error("Abandoned obsolete package. Removing!")
-					removalIDs = append(removalIDs, id)
 				}
-				return nil
+				removalIDs = append(removalIDs, id)
 			}
 		}
 
-- 
2.43.0


From d236ba3e5a1117a618260c24db0260dcd767461e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:48 +0000
Subject: [PATCH 07/32] fix: change pool and repository records together, and
 remove files only after that

---
 src/ferryd/core/pool.go |  39 ++++++-------
 src/ferryd/core/repo.go | 119 ++++++++++++++++++++++++++++------------
 src/ferryd/core/util.go |  21 +++++++
 3 files changed, 122 insertions(+), 57 deletions(-)

diff --git a/src/ferryd/core/pool.go b/src/ferryd/core/pool.go
index d0204ae..818a013 100644
--- a/src/ferryd/core/pool.go
+++ b/src/ferryd/core/pool.go
@@ -21,8 +21,6 @@ import (
 	"os"
 	"path/filepath"
 
-	log "github.com/sirupsen/logrus"
-
 	"github.com/getsolus/ferryd/src/libdb"
 	"github.com/getsolus/ferryd/src/libeopkg"
 )
@@ -257,35 +255,32 @@ func (p *Pool) RefEntry(db libdb.Database, id string) error {
 // Should the refcount hit 0, the package will then be removed from the pool
 // storage.
 func (p *Pool) UnrefEntry(db libdb.Database, id string) error {
-	entry, err := p.GetEntry(db, id)
+	pkgPath, err := p.releaseEntry(db, id)
 	if err != nil {
 		return err
 	}
-	entry.RefCount--
-	if entry.RefCount > 0 {
-		return p.putEntry(db, entry)
+	if pkgPath != "" {
+		removePackageFiles([]string{pkgPath})
 	}
+	return nil
+}
 
-	// RefCount is 0 so we now need to delete this entry
-	pkgPath := filepath.Join(p.poolDir, entry.Meta.GetPathComponent(), id)
-	if err := os.Remove(pkgPath); err != nil {
-		log.WithFields(log.Fields{
-			"path":  pkgPath,
-			"error": err,
-		}).Warning("Failed to remove package")
+// releaseEntry will drop one reference to the given ID. If that was the last
+// one the entry is deleted, and the path of the now unused pool file is
+// returned. That file may only be removed once the deletion is committed.
+func (p *Pool) releaseEntry(db libdb.Database, id string) (string, error) {
+	entry, err := p.GetEntry(db, id)
+	if err != nil {
+		return "", err
 	}
-
-	// Warn if unable to delete parents
-	if err := RemovePackageParents(pkgPath); err != nil {
-		log.WithFields(log.Fields{
-			"path":  pkgPath,
-			"error": err,
-		}).Warning("Failed to remove package parents")
+	entry.RefCount--
+	if entry.RefCount > 0 {
+		return "", p.putEntry(db, entry)
 	}
 
-	// Now remove from DB
+	// RefCount is 0 so we now need to delete this entry
 	b := db.Bucket([]byte(DatabaseBucketPool))
-	return b.DeleteObject([]byte(id))
+	return p.GetMetaPoolPath(id, entry.Meta), b.DeleteObject([]byte(id))
 }
 
 // MarkDeltaFailed will insert a record indicating that it is not possible
diff --git a/src/ferryd/core/repo.go b/src/ferryd/core/repo.go
index d448dac..24a0bdc 100644
--- a/src/ferryd/core/repo.go
+++ b/src/ferryd/core/repo.go
@@ -247,6 +247,9 @@ func (r *RepositoryManager) DeleteRepo(db libdb.Database, pool *Pool, id string)
 
 	delete(r.repos, id)
 
+	// Files that nobody needs once the removal is committed
+	var stale []string
+
 	// Let's iterate over every one of our packages here and start up an unref
 	// cycle
 	err = db.Update(func(db libdb.Database) error {
@@ -262,16 +265,20 @@ func (r *RepositoryManager) DeleteRepo(db libdb.Database, pool *Pool, id string)
 
 			// First up, find all the packages to unref
 			for _, id := range entry.Available {
-				if err := repo.removePackageInternal(db, pool, id); err != nil {
+				paths, err := repo.removePackageInternal(db, pool, id)
+				if err != nil {
 					return err
 				}
+				stale = append(stale, paths...)
 			}
 
 			// Next up, find all the deltas to unref
 			for _, id := range entry.Deltas {
-				if err := repo.removeDeltaInternal(db, pool, id); err != nil {
+				paths, err := repo.removeDeltaInternal(db, pool, id)
+				if err != nil {
 					return err
 				}
+				stale = append(stale, paths...)
 			}
 
 			// Remove all IDs for this package, now we must remove this entry
@@ -289,6 +296,8 @@ func (r *RepositoryManager) DeleteRepo(db libdb.Database, pool *Pool, id string)
 		return err
 	}
 
+	removePackageFiles(stale)
+
 	deletionPaths := []string{
 		repo.path,
 		repo.assetPath,
@@ -335,6 +344,13 @@ func (r *Repository) RefDelta(db libdb.Database, pool *Pool, deltaID string) err
 	r.insertMut.Lock()
 	defer r.insertMut.Unlock()
 
+	// Pool and repository records must always change together
+	return db.Update(func(db libdb.Database) error {
+		return r.refDeltaInternal(db, pool, deltaID)
+	})
+}
+
+func (r *Repository) refDeltaInternal(db libdb.Database, pool *Pool, deltaID string) error {
 	// Ensure we REALLY have the delta.
 	poolEntry, err := pool.GetEntry(db, deltaID)
 	if err != nil {
@@ -407,6 +423,13 @@ func (r *Repository) AddLocalDelta(db libdb.Database, pool *Pool, pkg *libeopkg.
 	r.insertMut.Lock()
 	defer r.insertMut.Unlock()
 
+	// Pool and repository records must always change together
+	return db.Update(func(db libdb.Database) error {
+		return r.addLocalDeltaInternal(db, pool, pkg, mapping)
+	})
+}
+
+func (r *Repository) addLocalDeltaInternal(db libdb.Database, pool *Pool, pkg *libeopkg.Package, mapping *DeltaInformation) error {
 	// Find our local package entry for the delta package first
 	entry, err := r.GetEntry(db, pkg.Meta.Package.Name)
 	if err != nil {
@@ -451,43 +474,34 @@ func (r *Repository) AddLocalDelta(db libdb.Database, pool *Pool, pkg *libeopkg.
 }
 
 // Internal helper to remove packages
-func (r *Repository) removePackageInternal(db libdb.Database, pool *Pool, id string) error {
+// This only drops the records, the returned files may be removed as soon as
+// the database update is committed.
+func (r *Repository) removePackageInternal(db libdb.Database, pool *Pool, id string) ([]string, error) {
 	r.insertMut.Lock()
 	defer r.insertMut.Unlock()
 
 	poolEntry, err := pool.GetEntry(db, id)
 	if err != nil {
-		return nil
+		return nil, nil
 	}
 
 	pkgDir := filepath.Join(r.path, poolEntry.Meta.GetPathComponent())
-	pkgTarget := filepath.Join(pkgDir, poolEntry.Name)
+	paths := []string{filepath.Join(pkgDir, poolEntry.Name)}
 
-	// If we cant unlink the file it aint getting out of the DB either...
-	if err = os.Remove(pkgTarget); err != nil {
-		log.WithFields(log.Fields{
-			"repo":  r.ID,
-			"id":    id,
-			"error": err,
-		}).Warning("Failed to remove target for package")
+	// Tell the pool we no longer need this guy
+	poolPath, err := pool.releaseEntry(db, id)
+	if err != nil {
+		return nil, err
 	}
-
-	// This is a "we tried but oh noes, not fatal.
-	if err = RemovePackageParents(pkgTarget); err != nil {
-		log.WithFields(log.Fields{
-			"repo":  r.ID,
-			"id":    id,
-			"error": err,
-		}).Warning("Failed to remove parent structure for package")
+	if poolPath != "" {
+		paths = append(paths, poolPath)
 	}
-
-	// Tell the pool we no longer need this guy
-	return pool.UnrefEntry(db, id)
+	return paths, nil
 }
 
 // removeDeltaInternal has the same job as removePackageInternal, but in future should
 // be extended to remove the skip records
-func (r *Repository) removeDeltaInternal(db libdb.Database, pool *Pool, id string) error {
+func (r *Repository) removeDeltaInternal(db libdb.Database, pool *Pool, id string) ([]string, error) {
 	return r.removePackageInternal(db, pool, id)
 }
 
@@ -496,25 +510,44 @@ func (r *Repository) removeDeltaInternal(db libdb.Database, pool *Pool, id strin
 //
 // Additionally, we'll locate stray deltas which lead either TO or FROM the given
 // package as they'll now be useless to anyone.
+//
+// The records change in one go, and the files are only removed after that.
 func (r *Repository) UnrefPackage(db libdb.Database, pool *Pool, pkgID string) error {
+	var stale []string
+	err := db.Update(func(db libdb.Database) error {
+		var err error
+		stale, err = r.unrefPackageInternal(db, pool, pkgID)
+		return err
+	})
+	if err != nil {
+		return err
+	}
+	removePackageFiles(stale)
+	return nil
+}
+
+// unrefPackageInternal performs the database side of UnrefPackage and returns
+// the files which are no longer needed once that is committed
+func (r *Repository) unrefPackageInternal(db libdb.Database, pool *Pool, pkgID string) ([]string, error) {
 	newHighest := 0
 	var newHighestID string
 
 	// Require a pool entry to remove it
 	poolEntry, err := pool.GetEntry(db, pkgID)
 	if err != nil {
-		return err
+		return nil, err
 	}
 
 	// Now examine our own local entry
 	entry, err := r.GetEntry(db, poolEntry.Meta.Name)
 	if err != nil {
-		return err
+		return nil, err
 	}
 
-	// Try to remove it from disk first
-	if err := r.removePackageInternal(db, pool, pkgID); err != nil {
-		return err
+	// Drop the package itself first
+	stale, err := r.removePackageInternal(db, pool, pkgID)
+	if err != nil {
+		return nil, err
 	}
 
 	// Deltas remaining after removals
@@ -524,14 +557,16 @@ func (r *Repository) UnrefPackage(db libdb.Database, pool *Pool, pkgID string) e
 	for _, deltaID := range entry.Deltas {
 		pkgDelta, err := pool.GetEntry(db, deltaID)
 		if err != nil {
-			return err
+			return nil, err
 		}
 
 		// We found a delta that is referencing us, we must garbage collect it now
 		if pkgDelta.Delta.FromID == pkgID || pkgDelta.Delta.ToID == pkgID {
-			if err := r.removeDeltaInternal(db, pool, pkgDelta.Name); err != nil {
-				return err
+			paths, err := r.removeDeltaInternal(db, pool, pkgDelta.Name)
+			if err != nil {
+				return nil, err
 			}
+			stale = append(stale, paths...)
 		} else {
 			remainDeltas = append(remainDeltas, pkgDelta.Name)
 		}
@@ -549,7 +584,7 @@ func (r *Repository) UnrefPackage(db libdb.Database, pool *Pool, pkgID string) e
 		}
 		availEntry, err := pool.GetEntry(db, id)
 		if err != nil {
-			return err
+			return nil, err
 		}
 		// Learn highest relno here, it's going to be the published ID
 		curRel := availEntry.Meta.GetRelease()
@@ -569,11 +604,11 @@ func (r *Repository) UnrefPackage(db libdb.Database, pool *Pool, pkgID string) e
 
 	// Is this package set now "empty"? Then remove it from our indexes
 	if len(entry.Available) < 1 {
-		return rootBucket.DeleteObject([]byte(entry.Name))
+		return stale, rootBucket.DeleteObject([]byte(entry.Name))
 	}
 
 	// Stuff it back into the DB with the modified bits in place.
-	return r.putEntry(db, entry)
+	return stale, r.putEntry(db, entry)
 }
 
 // RefPackage will dupe a package from the pool into our own storage
@@ -581,6 +616,13 @@ func (r *Repository) RefPackage(db libdb.Database, pool *Pool, pkgID string) err
 	r.insertMut.Lock()
 	defer r.insertMut.Unlock()
 
+	// Pool and repository records must always change together
+	return db.Update(func(db libdb.Database) error {
+		return r.refPackageInternal(db, pool, pkgID)
+	})
+}
+
+func (r *Repository) refPackageInternal(db libdb.Database, pool *Pool, pkgID string) error {
 	// Require a pool entry to clone from
 	poolEntry, err := pool.GetEntry(db, pkgID)
 	if err != nil {
@@ -672,6 +714,13 @@ func (r *Repository) AddLocalPackage(db libdb.Database, pool *Pool, pkg *libeopk
 	r.insertMut.Lock()
 	defer r.insertMut.Unlock()
 
+	// Pool and repository records must always change together
+	return db.Update(func(db libdb.Database) error {
+		return r.addLocalPackageInternal(db, pool, pkg)
+	})
+}
+
+func (r *Repository) addLocalPackageInternal(db libdb.Database, pool *Pool, pkg *libeopkg.Package) error {
 	pkgDir := filepath.Join(r.path, pkg.Meta.Package.GetPathComponent())
 	pkgTarget := filepath.Join(pkgDir, pkg.ID)
 
diff --git a/src/ferryd/core/util.go b/src/ferryd/core/util.go
index d0509c1..7b37146 100644
--- a/src/ferryd/core/util.go
+++ b/src/ferryd/core/util.go
@@ -25,6 +25,8 @@ import (
 	"os"
 	"path/filepath"
 
+	log "github.com/sirupsen/logrus"
+
 	"github.com/getsolus/ferryd/src/libeopkg"
 )
 
@@ -116,6 +118,25 @@ func RemovePackageParents(path string) error {
 	return nil
 }
 
+// removePackageFiles will remove package files that are no longer recorded
+// anywhere, along with their then empty parents. Problems are not fatal.
+func removePackageFiles(paths []string) {
+	for _, path := range paths {
+		if err := os.Remove(path); err != nil {
+			log.WithFields(log.Fields{
+				"path":  path,
+				"error": err,
+			}).Warning("Failed to remove package")
+		}
+		if err := RemovePackageParents(path); err != nil {
+			log.WithFields(log.Fields{
+				"path":  path,
+				"error": err,
+			}).Warning("Failed to remove package parents")
+		}
+	}
+}
+
 // FileSha1sum is a quick wrapper to grab the sha1sum for the given file
 func FileSha1sum(path string) (string, error) {
 	mfile, err := MapFile(path)
-- 
2.43.0


From 2f8a88875431a0e985ddcf2bd3a0c7a309d419ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:35 +0000
Subject: [PATCH 08/32] fix: replace compressed files left behind by an
 interrupted run

---
 src/libeopkg/util.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/libeopkg/util.go b/src/libeopkg/util.go
index b4d7ec5..c496ff1 100644
--- a/src/libeopkg/util.go
+++ b/src/libeopkg/util.go
@@ -56,6 +56,7 @@ func IsDeltaPossible(oldPackage, newPackage *MetaPackage) bool {
 func XzFile(inputPath string, keepOriginal bool) error {
 	cmd := []string{
 		"xz",
+		"-f", // Replace leftovers of an interrupted run
 		"-6",
 		"-T", "8",
 		inputPath,
@@ -73,6 +74,7 @@ func XzFile(inputPath string, keepOriginal bool) error {
 func UnxzFile(inputPath string, keepOriginal bool) error {
 	cmd := []string{
 		"unxz",
+		"-f", // Replace leftovers of an interrupted run
 		"-T", "8",
 		inputPath,
 	}
@@ -91,6 +93,7 @@ func UnxzFile(inputPath string, keepOriginal bool) error {
 func ZstdFile(inputPath string, keepOriginal bool) error {
 	cmd := []string{
 		"zstd",
+		"-f", // Replace leftovers of an interrupted run
 		"-3",
 		"-T8",
 		inputPath,
@@ -108,6 +111,7 @@ func ZstdFile(inputPath string, keepOriginal bool) error {
 func UnzstdFile(inputPath string, keepOriginal bool) error {
 	cmd := []string{
 		"unzstd",
+		"-f", // Replace leftovers of an interrupted run
 		"-T8",
 		inputPath,
 	}
-- 
2.43.0


From 1541a0155a194076fea950134e991eb7a97e989e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:38 +0000
Subject: [PATCH 09/32] fix: do not list buckets whose name merely starts with
 our own

---
 src/libdb/leveldb.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libdb/leveldb.go b/src/libdb/leveldb.go
index 4dee577..509b781 100644
--- a/src/libdb/leveldb.go
+++ b/src/libdb/leveldb.go
@@ -157,7 +157,7 @@ func (l *levelDbHandle) Bucket(id []byte) Database {
 		db:          l.db,
 		prefix:      newID,
 		keyPrefix:   []byte(fmt.Sprintf("%s-", string(newID))),
-		prefixBytes: util.BytesPrefix(newID),
+		prefixBytes: util.BytesPrefix([]byte(fmt.Sprintf("%s-", string(newID)))),
 		batch:       l.batch,
 		seqLock:     l.seqLock,
 	}
-- 
2.43.0


From 90b0df0496b6f8e8e61085422679da3262777627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:40 +0000
Subject: [PATCH 10/32] fix: retire a job and record its outcome in one update

---
 src/ferryd/jobs/store.go | 52 +++++++++++++++++-----------------------
 1 file changed, 22 insertions(+), 30 deletions(-)

diff --git a/src/ferryd/jobs/store.go b/src/ferryd/jobs/store.go
index 292070b..440741b 100644
--- a/src/ferryd/jobs/store.go
+++ b/src/ferryd/jobs/store.go
@@ -212,7 +212,7 @@ func (s *JobStore) ClaimSequentialJob() (*JobEntry, error) {
 }
 
 // Used to mark the completion of a job and store in the appropriate bucket
-func (s *JobStore) markCompletion(j *JobEntry) error {
+func (s *JobStore) markCompletion(db libdb.Database, j *JobEntry) error {
 	var bucketID []byte
 	if j.failure != nil {
 		bucketID = BucketFailJobs
@@ -222,7 +222,7 @@ func (s *JobStore) markCompletion(j *JobEntry) error {
 
 	// We're already locked at this point so its safe to work out our next
 	// index
-	bucket := s.db.Bucket(bucketID).Bucket(BucketRecord)
+	bucket := db.Bucket(bucketID).Bucket(BucketRecord)
 	record := IndexRecord{
 		Index: 0,
 	}
@@ -250,22 +250,18 @@ func (s *JobStore) markCompletion(j *JobEntry) error {
 	binary.BigEndian.PutUint64(nextID, record.Index)
 
 	// We'll need to figure out how to truncate our buckets..
-	return s.db.Update(func(db libdb.Database) error {
-		bucket := db.Bucket(bucketID)
-
-		storeJob := libferry.Job{
-			Timing:      j.Timing,
-			Description: j.description,
-		}
+	storeJob := libferry.Job{
+		Timing:      j.Timing,
+		Description: j.description,
+	}
 
-		// Mark relevant failure fields
-		if j.failure != nil {
-			storeJob.Error = j.failure.Error()
-			storeJob.Failed = true
-		}
+	// Mark relevant failure fields
+	if j.failure != nil {
+		storeJob.Error = j.failure.Error()
+		storeJob.Failed = true
+	}
 
-		return bucket.PutObject(nextID, &storeJob)
-	})
+	return db.Bucket(bucketID).PutObject(nextID, &storeJob)
 }
 
 // RetireAsyncJob removes a completed asynchronous job
@@ -273,14 +269,12 @@ func (s *JobStore) RetireAsyncJob(j *JobEntry) error {
 	s.modMut.Lock()
 	defer s.modMut.Unlock()
 
-	err := s.db.Update(func(db libdb.Database) error {
-		return db.Bucket(BucketAsyncJobs).DeleteObject(j.id)
+	return s.db.Update(func(db libdb.Database) error {
+		if err := db.Bucket(BucketAsyncJobs).DeleteObject(j.id); err != nil {
+			return err
+		}
+		return s.markCompletion(db, j)
 	})
-
-	if err != nil {
-		return err
-	}
-	return s.markCompletion(j)
 }
 
 // RetireSequentialJob removes a completed synchronous job
@@ -288,14 +282,12 @@ func (s *JobStore) RetireSequentialJob(j *JobEntry) error {
 	s.modMut.Lock()
 	defer s.modMut.Unlock()
 
-	err := s.db.Update(func(db libdb.Database) error {
-		return db.Bucket(BucketSequentialJobs).DeleteObject(j.id)
+	return s.db.Update(func(db libdb.Database) error {
+		if err := db.Bucket(BucketSequentialJobs).DeleteObject(j.id); err != nil {
+			return err
+		}
+		return s.markCompletion(db, j)
 	})
-
-	if err != nil {
-		return err
-	}
-	return s.markCompletion(j)
 }
 
 // pushJobInternal is identical between sync and async jobs, it
-- 
2.43.0


From dd2207f4273ec20b6ce5ff4f0b7f7c80ce739acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:43 +0000
Subject: [PATCH 11/32] fix: report the status even if a queued job has no
 valid handler

---
 src/ferryd/jobs/store.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/ferryd/jobs/store.go b/src/ferryd/jobs/store.go
index 440741b..5af3128 100644
--- a/src/ferryd/jobs/store.go
+++ b/src/ferryd/jobs/store.go
@@ -19,6 +19,7 @@ package jobs
 import (
 	"encoding/binary"
 	"errors"
+	"fmt"
 	"sync"
 	"time"
 
@@ -350,15 +351,14 @@ func (s *JobStore) cloneCurrentJobs(ret *[]*libferry.Job, bucketID []byte) error
 			}
 
 			// Now stuff the job into the ret
-			hnd, err := NewJobHandler(j)
-			if err != nil {
-				return err
-			}
-
 			r := &libferry.Job{
-				Description: hnd.Describe(),
+				Description: fmt.Sprintf("Unsupported job '%s'", j.Type),
 				Timing:      j.Timing,
 			}
+			// One bad job must not hide all of the others
+			if hnd, err := NewJobHandler(j); err == nil {
+				r.Description = hnd.Describe()
+			}
 			*ret = append(*ret, r)
 
 			return nil
-- 
2.43.0


From 9c57fe0aac5232f22c4bf7ba058bd941c90d22b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:46 +0000
Subject: [PATCH 12/32] fix: refuse upload manifests whose files are outside of
 the upload directory

---
 src/ferryd/core/transit_manifest.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ferryd/core/transit_manifest.go b/src/ferryd/core/transit_manifest.go
index 3088258..5c83cf2 100644
--- a/src/ferryd/core/transit_manifest.go
+++ b/src/ferryd/core/transit_manifest.go
@@ -149,6 +149,11 @@ func NewTransitManifest(path string) (*TransitManifest, error) {
 			return nil, ErrInvalidPayload
 		}
 
+		// Only ever import what lives next to the manifest
+		if !filepath.IsLocal(f.Path) {
+			return nil, ErrInvalidPayload
+		}
+
 		if !strings.HasSuffix(f.Path, ".eopkg") {
 			return nil, ErrIllegalUpload
 		}
-- 
2.43.0


From 8d685052bd3a37c2d135ec3511702fc63c986b00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:49 +0000
Subject: [PATCH 13/32] fix: refuse repository names that are not plain
 directory names

---
 src/ferryd/core/repo.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/ferryd/core/repo.go b/src/ferryd/core/repo.go
index 24a0bdc..fb0c653 100644
--- a/src/ferryd/core/repo.go
+++ b/src/ferryd/core/repo.go
@@ -203,6 +203,11 @@ func (r *RepositoryManager) CreateRepo(db libdb.Database, id string) (*Repositor
 	r.repoLock.Lock()
 	defer r.repoLock.Unlock()
 
+	// Must be usable as a single directory name
+	if id == "." || id == ".." || filepath.Base(id) != id || strings.ContainsRune(id, 0) {
+		return nil, fmt.Errorf("The specified repository name '%s' is invalid", id)
+	}
+
 	if _, err := r.GetRepo(db, id); err == nil {
 		return nil, fmt.Errorf("The specified repository '%s' already exists", id)
 	}
@@ -225,6 +230,9 @@ func (r *RepositoryManager) CreateRepo(db libdb.Database, id string) (*Repositor
 
 	repository, err := r.bakeRepo(id)
 	if err != nil {
+		// Don't keep a repository that nobody can ever use
+		os.Remove(rbase)
+		rootBucket.DeleteObject([]byte(id))
 		return nil, err
 	}
 
-- 
2.43.0


From 32f25682ac611c3bd18637dc0582dfe8e2de2edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:53 +0000
Subject: [PATCH 14/32] fix: describe a package whose ID is already pooled by
 what the pool has

---
 src/ferryd/core/repo.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/ferryd/core/repo.go b/src/ferryd/core/repo.go
index fb0c653..388d9c3 100644
--- a/src/ferryd/core/repo.go
+++ b/src/ferryd/core/repo.go
@@ -729,11 +729,12 @@ func (r *Repository) AddLocalPackage(db libdb.Database, pool *Pool, pkg *libeopk
 }
 
 func (r *Repository) addLocalPackageInternal(db libdb.Database, pool *Pool, pkg *libeopkg.Package) error {
-	pkgDir := filepath.Join(r.path, pkg.Meta.Package.GetPathComponent())
+	meta := r.effectiveMeta(db, pool, pkg)
+	pkgDir := filepath.Join(r.path, meta.GetPathComponent())
 	pkgTarget := filepath.Join(pkgDir, pkg.ID)
 
 	// Already have a package, so let's copy the existing bits over
-	repoEntry := r.buildSaneEntry(db, pool, &pkg.Meta.Package, pkg.ID)
+	repoEntry := r.buildSaneEntry(db, pool, meta, pkg.ID)
 
 	// nil == already included
 	if repoEntry == nil {
@@ -751,7 +752,7 @@ func (r *Repository) addLocalPackageInternal(db libdb.Database, pool *Pool, pkg
 	}
 
 	// Ensure the eopkg file is linked inside our own tree
-	source := pool.GetPackagePoolPath(pkg)
+	source := pool.GetMetaPoolPath(pkg.ID, meta)
 	if err := LinkOrCopyFile(source, pkgTarget, false); err != nil {
 		return err
 	}
@@ -759,6 +760,15 @@ func (r *Repository) addLocalPackageInternal(db libdb.Database, pool *Pool, pkg
 	return r.putEntry(db, repoEntry)
 }
 
+// effectiveMeta will return the metadata that including this package leads to.
+// An ID that is already in the pool keeps the data it was first added with.
+func (r *Repository) effectiveMeta(db libdb.Database, pool *Pool, pkg *libeopkg.Package) *libeopkg.MetaPackage {
+	if poolEntry, err := pool.GetEntry(db, pkg.ID); err == nil {
+		return poolEntry.Meta
+	}
+	return &pkg.Meta.Package
+}
+
 // AddPackage will attempt to load the local package and then add it to the
 // repository via AddLocalPackage
 func (r *Repository) AddPackage(db libdb.Database, pool *Pool, filename string, anal bool) error {
-- 
2.43.0


From 93cac38b40207ea4bf83e0dc2454e5e3f74995ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:57 +0000
Subject: [PATCH 15/32] fix: check all packages of an import or upload before
 adding the first one

---
 src/ferryd/core/api.go  |  5 ++++
 src/ferryd/core/repo.go | 61 ++++++++++++++++++++++++++++++++++-------
 2 files changed, 56 insertions(+), 10 deletions(-)

diff --git a/src/ferryd/core/api.go b/src/ferryd/core/api.go
index 6183a13..6389e6b 100644
--- a/src/ferryd/core/api.go
+++ b/src/ferryd/core/api.go
@@ -184,6 +184,11 @@ func (m *Manager) AddPackages(repoID string, packages []string, anal bool) error
 		return err
 	}
 
+	// Reject bad sets before changing anything
+	if err := repo.checkPackages(m.db, m.pool, packages, anal); err != nil {
+		return err
+	}
+
 	for _, pkg := range packages {
 		if err := repo.AddPackage(m.db, m.pool, pkg, anal); err != nil {
 			return err
diff --git a/src/ferryd/core/repo.go b/src/ferryd/core/repo.go
index 388d9c3..6e4fc5d 100644
--- a/src/ferryd/core/repo.go
+++ b/src/ferryd/core/repo.go
@@ -787,10 +787,20 @@ func (r *Repository) AddPackage(db libdb.Database, pool *Pool, filename string,
 		return r.AddLocalPackage(db, pool, pkg)
 	}
 
+	if err := r.checkUpload(db, pool, r.effectiveMeta(db, pool, pkg), pkg.ID); err != nil {
+		return err
+	}
+
+	// Hey look buddy, you made it.
+	return r.AddLocalPackage(db, pool, pkg)
+}
+
+// checkUpload will ensure that the package is newer than the one we publish
+func (r *Repository) checkUpload(db libdb.Database, pool *Pool, meta *libeopkg.MetaPackage, id string) error {
 	// Do we have this?
-	localPkg, err := r.GetEntry(db, pkg.Meta.Package.Name)
+	localPkg, err := r.GetEntry(db, meta.Name)
 	if err != nil {
-		return r.AddLocalPackage(db, pool, pkg)
+		return nil
 	}
 
 	// We have this package, so Published link must work
@@ -800,20 +810,51 @@ func (r *Repository) AddPackage(db libdb.Database, pool *Pool, filename string,
 	}
 
 	// We must have an older release, don't build the same thing again
-	if published.Meta.GetRelease() > pkg.Meta.Package.GetRelease() {
-		return fmt.Errorf("local package has higher release: %v %v", localPkg.Published, pkg.ID)
+	if published.Meta.GetRelease() > meta.GetRelease() {
+		return fmt.Errorf("local package has higher release: %v %v", localPkg.Published, id)
 	}
 
 	// Check for the same release, either way its wrong, but report it specifically
-	if published.Meta.GetRelease() == pkg.Meta.Package.GetRelease() {
-		if published.Meta.GetVersion() != pkg.Meta.Package.GetVersion() {
-			return fmt.Errorf("new package has different version but same release: %v %v", localPkg.Published, pkg.ID)
+	if published.Meta.GetRelease() == meta.GetRelease() {
+		if published.Meta.GetVersion() != meta.GetVersion() {
+			return fmt.Errorf("new package has different version but same release: %v %v", localPkg.Published, id)
 		}
-		return fmt.Errorf("attempted to re-include an existing package through upload: %v", pkg.ID)
+		return fmt.Errorf("attempted to re-include an existing package through upload: %v", id)
 	}
+	return nil
+}
 
-	// Hey look buddy, you made it.
-	return r.AddLocalPackage(db, pool, pkg)
+// checkPackages will ensure that all of the packages can be added, so that we
+// never start on a set which we'd have to abandon half way through
+func (r *Repository) checkPackages(db libdb.Database, pool *Pool, filenames []string, anal bool) error {
+	releases := make(map[string]int)
+
+	for _, filename := range filenames {
+		pkg, err := libeopkg.Open(filename)
+		if err != nil {
+			return err
+		}
+		err = pkg.ReadMetadata()
+		pkg.Close()
+		if err != nil {
+			return err
+		}
+		if !anal {
+			continue
+		}
+
+		meta := r.effectiveMeta(db, pool, pkg)
+		if err := r.checkUpload(db, pool, meta, pkg.ID); err != nil {
+			return err
+		}
+		// Must be newer than the ones ahead of it in the same upload, too
+		if release, ok := releases[meta.Name]; ok && release >= meta.GetRelease() {
+			return fmt.Errorf("upload contains a newer or equal release: %v", pkg.ID)
+		}
+		releases[meta.Name] = meta.GetRelease()
+	}
+
+	return nil
 }
 
 // GetPackageNames will traverse the buckets and find all package names as stored
-- 
2.43.0


From fa58a3567ad6b885313fa0c3e039414fd492e232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:00 +0000
Subject: [PATCH 16/32] fix: hand out one repository object per repository
 under concurrency

---
 src/ferryd/core/repo.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/ferryd/core/repo.go b/src/ferryd/core/repo.go
index 6e4fc5d..765fa6a 100644
--- a/src/ferryd/core/repo.go
+++ b/src/ferryd/core/repo.go
@@ -175,6 +175,14 @@ func (r *RepositoryManager) GetRepos(db libdb.Database) ([]*Repository, error) {
 // GetRepo will attempt to get the named repo if it exists, otherwise
 // return an error. This is a transactional helper to make the API simpler
 func (r *RepositoryManager) GetRepo(db libdb.Database, id string) (*Repository, error) {
+	r.repoLock.Lock()
+	defer r.repoLock.Unlock()
+
+	return r.getRepoInternal(db, id)
+}
+
+// getRepoInternal is used by GetRepo, and everyone already holding the lock
+func (r *RepositoryManager) getRepoInternal(db libdb.Database, id string) (*Repository, error) {
 	// Cache each repository.
 	if repo, ok := r.repos[id]; ok {
 		return repo, nil
@@ -208,7 +216,7 @@ func (r *RepositoryManager) CreateRepo(db libdb.Database, id string) (*Repositor
 		return nil, fmt.Errorf("The specified repository name '%s' is invalid", id)
 	}
 
-	if _, err := r.GetRepo(db, id); err == nil {
+	if _, err := r.getRepoInternal(db, id); err == nil {
 		return nil, fmt.Errorf("The specified repository '%s' already exists", id)
 	}
 
@@ -248,7 +256,7 @@ func (r *RepositoryManager) DeleteRepo(db libdb.Database, pool *Pool, id string)
 	r.repoLock.Lock()
 	defer r.repoLock.Unlock()
 
-	repo, err := r.GetRepo(db, id)
+	repo, err := r.getRepoInternal(db, id)
 	if err != nil {
 		return fmt.Errorf("The specified repository '%s' does not exist", id)
 	}
-- 
2.43.0


From 8bdb5c25d81792e181c67c50d364ebc87db826af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:14 +0000
Subject: [PATCH 17/32] fix: only include deltas whose packages are both in the
 repository

---
 src/ferryd/core/repo.go | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/ferryd/core/repo.go b/src/ferryd/core/repo.go
index 765fa6a..a2bea41 100644
--- a/src/ferryd/core/repo.go
+++ b/src/ferryd/core/repo.go
@@ -349,6 +349,16 @@ func (r *Repository) GetEntry(db libdb.Database, id string) (*RepoEntry, error)
 	return entry, nil
 }
 
+// connects determines whether both ends of the delta are available here
+func (e *RepoEntry) connects(delta *DeltaInformation) bool {
+	from, to := false, false
+	for _, id := range e.Available {
+		from = from || id == delta.FromID
+		to = to || id == delta.ToID
+	}
+	return from && to
+}
+
 // Private method to re-put the entry into the DB
 func (r *Repository) putEntry(db libdb.Database, entry *RepoEntry) error {
 	rootBucket := db.Bucket([]byte(DatabaseBucketRepo)).Bucket([]byte(r.ID)).Bucket([]byte(DatabaseBucketPackage))
@@ -379,6 +389,11 @@ func (r *Repository) refDeltaInternal(db libdb.Database, pool *Pool, deltaID str
 		return err
 	}
 
+	// The same delta ID might have been built from other packages
+	if poolEntry.Delta == nil || !entry.connects(poolEntry.Delta) {
+		return fmt.Errorf("delta '%s' does not connect packages of '%s'", deltaID, r.ID)
+	}
+
 	// Extract our relevant paths
 	localPath := pool.GetMetaPoolPath(deltaID, poolEntry.Meta)
 	targetDir := filepath.Join(r.path, poolEntry.Meta.GetPathComponent())
@@ -452,6 +467,10 @@ func (r *Repository) addLocalDeltaInternal(db libdb.Database, pool *Pool, pkg *l
 		return err
 	}
 
+	if !entry.connects(mapping) {
+		return fmt.Errorf("delta '%s' does not connect packages of '%s'", pkg.ID, r.ID)
+	}
+
 	pkgDir := filepath.Join(r.path, pkg.Meta.Package.GetPathComponent())
 	pkgTarget := filepath.Join(pkgDir, pkg.ID)
 
-- 
2.43.0


From 039eef46b0deb97eb316d6f24072ceb59c3e18df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:16 +0000
Subject: [PATCH 18/32] fix: hold the lock until shutdown is complete, and
 trust only the lock itself

---
 src/ferryd/lockfile.go | 58 ++++++++++++++++++++++++------------------
 src/ferryd/server.go   | 37 +++++++++++++++++++--------
 2 files changed, 59 insertions(+), 36 deletions(-)

diff --git a/src/ferryd/lockfile.go b/src/ferryd/lockfile.go
index ec7746a..fc70afd 100644
--- a/src/ferryd/lockfile.go
+++ b/src/ferryd/lockfile.go
@@ -93,32 +93,26 @@ func (l *LockFile) GetOwnerProcess() string {
 
 // Lock will attempt to lock the file, or return an error if this fails
 func (l *LockFile) Lock() error {
-	pid, err := l.readPID()
-
-	// Bail now.
-	if err != ErrDeadLockFile && err != ErrOwnedLockFile && err != nil {
-		return err
-	}
+	l.conlock.Lock()
 
-	// Not gonna test our *own* PID
-	if pid > 0 && pid != l.ourPID {
-		// Process is still active
-		// Unix this always works
-		p, _ := os.FindProcess(pid)
-		if err2 := p.Signal(syscall.Signal(0)); err2 == nil {
-			if p.Pid != l.ourPID {
-				l.owningPID = p.Pid
-				return ErrOwnedLockFile
-			}
+	// The PID in the file may be stale and reused by now, so only the lock counts
+	if err := syscall.Flock(int(l.fd.Fd()), syscall.LOCK_EX|syscall.LOCK_NB); err != nil {
+		l.conlock.Unlock()
+		if err != syscall.EWOULDBLOCK {
+			return err
+		}
+		if pid, err := l.readPID(); err == nil {
+			l.owningPID = pid
 		}
+		return ErrOwnedLockFile
 	}
 
-	l.conlock.Lock()
-
-	// Finally lock it.
-	if err := syscall.Flock(int(l.fd.Fd()), syscall.LOCK_EX|syscall.LOCK_NB); err != nil {
+	// If the last owner removed the file after we opened it, then what we have
+	// locked is not what anyone else will be locking
+	if !l.isCurrent() {
+		syscall.Flock(int(l.fd.Fd()), syscall.LOCK_UN)
 		l.conlock.Unlock()
-		return err
+		return ErrDeadLockFile
 	}
 
 	l.owner = true
@@ -145,6 +139,16 @@ func (l *LockFile) Unlock() error {
 	return nil
 }
 
+// isCurrent ensures that our open file is still the one at our path
+func (l *LockFile) isCurrent() bool {
+	ours, err := l.fd.Stat()
+	if err != nil {
+		return false
+	}
+	current, err := os.Stat(l.path)
+	return err == nil && os.SameFile(ours, current)
+}
+
 // readPID is a simple utility to extract the PID from a file
 func (l *LockFile) readPID() (int, error) {
 	l.conlock.RLock()
@@ -177,6 +181,10 @@ func (l *LockFile) writePID() error {
 	}
 	l.conlock.Lock()
 	defer l.conlock.Unlock()
+	// Don't leave parts of a longer stale PID behind
+	if err := l.fd.Truncate(0); err != nil {
+		return err
+	}
 	if _, err := fmt.Fprintf(l.fd, "%d", l.ourPID); err != nil {
 		return err
 	}
@@ -191,9 +199,9 @@ func (l *LockFile) Clean() error {
 		return nil
 	}
 
+	// Closing gives up the lock, so the path has to be gone before that
+	err := os.Remove(l.path)
 	l.fd.Close()
-	if l.owner {
-		return os.Remove(l.path)
-	}
-	return nil
+	l.owner = false
+	return err
 }
diff --git a/src/ferryd/server.go b/src/ferryd/server.go
index 1fecf22..21b7062 100644
--- a/src/ferryd/server.go
+++ b/src/ferryd/server.go
@@ -17,6 +17,7 @@
 package main
 
 import (
+	"context"
 	"errors"
 	"net"
 	"net/http"
@@ -37,13 +38,17 @@ import (
 	"github.com/getsolus/ferryd/src/ferryd/jobs"
 )
 
+// shutdownTimeout is how long pending requests may hold up the shutdown
+const shutdownTimeout = 5 * time.Second
+
 // Server sits on a unix socket accepting connections from authenticated
 // client, i.e. root or those in the "ferry" group
 type Server struct {
-	srv     *http.Server
-	running bool
-	router  *httprouter.Router
-	socket  net.Listener
+	srv      *http.Server
+	running  bool
+	closeMut sync.Mutex
+	router   *httprouter.Router
+	socket   net.Listener
 
 	// We store a global lock file ..
 	lockFile *LockFile
@@ -228,23 +233,33 @@ func (s *Server) Serve() error {
 
 // Close will shut down and cleanup the socket
 func (s *Server) Close() {
+	// Anyone else closing has to wait for us to finish
+	s.closeMut.Lock()
+	defer s.closeMut.Unlock()
+
 	if !s.running {
 		return
 	}
-	if s.lockFile != nil {
-		s.lockFile.Unlock()
-		s.lockFile.Clean()
-		s.lockFile = nil
-	}
 	s.StopWatching()
 	s.jproc.Close()
+	s.running = false
+
+	// Finish all requests before taking away what they need, within reason
+	timer := time.AfterFunc(shutdownTimeout, func() { s.srv.Close() })
+	s.srv.Shutdown(context.Background())
+	timer.Stop()
+
 	s.store.Close()
 	s.manager.Close()
-	s.running = false
-	s.srv.Shutdown(nil)
 
 	// We don't technically fully own it if systemd created it
 	if !systemdEnabled {
 		os.Remove(s.socketPath)
 	}
+
+	// Now that we're done here the next instance may start
+	if s.lockFile != nil {
+		s.lockFile.Clean()
+		s.lockFile = nil
+	}
 }
-- 
2.43.0


From 4346fd383c1a863d7b789eb281085ecad18dac1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:19 +0000
Subject: [PATCH 19/32] fix: remove the socket of a killed daemon when starting

---
 src/ferryd/server.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/ferryd/server.go b/src/ferryd/server.go
index 21b7062..8abbea0 100644
--- a/src/ferryd/server.go
+++ b/src/ferryd/server.go
@@ -137,6 +137,22 @@ func (s *Server) killHandler() {
 	}()
 }
 
+// removeStaleSocket gets rid of the socket of an instance that was killed
+func removeStaleSocket(path string) {
+	st, err := os.Lstat(path)
+	if err != nil || st.Mode()&os.ModeSocket == 0 {
+		return
+	}
+	conn, err := net.Dial("unix", path)
+	if err == nil {
+		conn.Close()
+		return
+	}
+	if errors.Is(err, syscall.ECONNREFUSED) {
+		os.Remove(path)
+	}
+}
+
 // Bind will attempt to set up the listener on the unix socket
 // prior to serving.
 func (s *Server) Bind() error {
@@ -164,6 +180,7 @@ func (s *Server) Bind() error {
 		}
 		systemdEnabled = true
 	} else {
+		removeStaleSocket(s.socketPath)
 		l, e := net.Listen("unix", s.socketPath)
 		if e != nil {
 			return e
-- 
2.43.0


From 071a0cd4ef91263a9c57206623ddbb1f204f8510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:22 +0000
Subject: [PATCH 20/32] fix: keep monitoring uploads after a watcher error

---
 src/ferryd/monitor.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ferryd/monitor.go b/src/ferryd/monitor.go
index 6e7870b..945bae2 100644
--- a/src/ferryd/monitor.go
+++ b/src/ferryd/monitor.go
@@ -61,6 +61,11 @@ func (s *Server) WatchIncoming() {
 						s.processTransitManifest(filepath.Base(event.Name))
 					}
 				}
+			case err := <-s.watcher.Errors:
+				// Must be read, otherwise the watcher is stuck
+				log.WithFields(log.Fields{
+					"error": err,
+				}).Error("Problem in monitoring uploads")
 			case <-s.watchChan:
 				return
 			}
-- 
2.43.0


From 0ef6e954109479a48e0d05373d7855f9af21528f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:05 +0000
Subject: [PATCH 21/32] fix: do not truncate a file that is copied onto itself

---
 src/ferryd/core/util.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ferryd/core/util.go b/src/ferryd/core/util.go
index 7b37146..a334ffd 100644
--- a/src/ferryd/core/util.go
+++ b/src/ferryd/core/util.go
@@ -46,6 +46,10 @@ func CopyFile(source, dest string) error {
 		return err
 	}
 	defer src.Close()
+	// Nothing to do when both are the same file, and truncating would lose it
+	if dstInfo, err := os.Stat(dest); err == nil && os.SameFile(st, dstInfo) {
+		return nil
+	}
 	if dst, err = os.OpenFile(dest, os.O_TRUNC|os.O_CREATE|os.O_WRONLY, st.Mode()); err != nil {
 		return err
 	}
-- 
2.43.0


From 02efda2354d851313cb3498fe3a900f720d2efa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:26 +0000
Subject: [PATCH 22/32] fix: publish the same version as the source in a full
 clone

---
 src/ferryd/core/repo.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/ferryd/core/repo.go b/src/ferryd/core/repo.go
index a2bea41..013beb9 100644
--- a/src/ferryd/core/repo.go
+++ b/src/ferryd/core/repo.go
@@ -1026,7 +1026,13 @@ func (r *Repository) CloneFrom(db libdb.Database, pool *Pool, sourceRepo *Reposi
 		}
 
 		if fullClone {
-			copyIDs = append(copyIDs, entry.Available...)
+			// First come, first published on duplicate releases
+			copyIDs = append(copyIDs, entry.Published)
+			for _, id := range entry.Available {
+				if id != entry.Published {
+					copyIDs = append(copyIDs, id)
+				}
+			}
 			deltaIDs = append(deltaIDs, entry.Deltas...)
 		} else {
 			copyIDs = append(copyIDs, entry.Published)
-- 
2.43.0


From 7ff5380e49648b68e646e63d6487745feeb62cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:02 +0000
Subject: [PATCH 23/32] fix: keep the deltas of a package when another version
 of it is added

---
 src/ferryd/core/repo.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ferryd/core/repo.go b/src/ferryd/core/repo.go
index 013beb9..ff16ac5 100644
--- a/src/ferryd/core/repo.go
+++ b/src/ferryd/core/repo.go
@@ -709,6 +709,7 @@ func (r *Repository) buildSaneEntry(db libdb.Database, pool *Pool, newPkg *libeo
 	if entry != nil {
 		repoEntry.Available = entry.Available
 		repoEntry.Published = entry.Published
+		repoEntry.Deltas = entry.Deltas
 
 		pkgAvail, err := pool.GetEntry(db, repoEntry.Published)
 		if err == nil {
-- 
2.43.0


From 813a080b3a8cb38c46a55ff4d7198750f288d347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:52 +0000
Subject: [PATCH 24/32] fix: never leave an incomplete file when copying is
 interrupted

---
 src/ferryd/core/util.go | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/ferryd/core/util.go b/src/ferryd/core/util.go
index a334ffd..cc180ae 100644
--- a/src/ferryd/core/util.go
+++ b/src/ferryd/core/util.go
@@ -50,19 +50,28 @@ func CopyFile(source, dest string) error {
 	if dstInfo, err := os.Stat(dest); err == nil && os.SameFile(st, dstInfo) {
 		return nil
 	}
-	if dst, err = os.OpenFile(dest, os.O_TRUNC|os.O_CREATE|os.O_WRONLY, st.Mode()); err != nil {
+	// An interrupted copy must not leave an incomplete file in its place
+	partial := dest + ".part"
+	if dst, err = os.OpenFile(partial, os.O_TRUNC|os.O_CREATE|os.O_WRONLY, st.Mode()); err != nil {
 		return err
 	}
 	// Copy the files
-	if _, err = io.Copy(dst, src); err != nil {
-		dst.Close()
+	_, err = io.Copy(dst, src)
+	if errClose := dst.Close(); err == nil {
+		err = errClose
+	}
+	if err != nil {
+		os.Remove(partial)
 		return err
 	}
-	dst.Close()
 	// If it fails, meh.
-	os.Chtimes(dest, st.ModTime(), st.ModTime())
-	os.Chown(dest, os.Getuid(), os.Getgid())
-	os.Chmod(dest, 00644)
+	os.Chtimes(partial, st.ModTime(), st.ModTime())
+	os.Chown(partial, os.Getuid(), os.Getgid())
+	os.Chmod(partial, 00644)
+	if err = os.Rename(partial, dest); err != nil {
+		os.Remove(partial)
+		return err
+	}
 	return nil
 }
 
-- 
2.43.0


From 6e5aecc1302d44f30164590a502ac35a51082c64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:01 +0000
Subject: [PATCH 25/32] fix: report the status as of one moment

---
 src/ferryd/handlers.go   | 20 +++----------------
 src/ferryd/jobs/store.go | 42 ++++++++++++++++++++++++++++++++--------
 2 files changed, 37 insertions(+), 25 deletions(-)

diff --git a/src/ferryd/handlers.go b/src/ferryd/handlers.go
index 09b19a8..9ac9063 100644
--- a/src/ferryd/handlers.go
+++ b/src/ferryd/handlers.go
@@ -69,27 +69,13 @@ func (s *Server) GetStatus(w http.ResponseWriter, r *http.Request, _ httprouter.
 		Version:     libferry.Version,
 	}
 
-	// Stuff the active jobs in
-	jo, err := s.store.ActiveJobs()
+	// Stuff all of the jobs in
+	jo, fj, cj, err := s.store.AllJobs()
 	if err != nil {
 		http.Error(w, err.Error(), http.StatusInternalServerError)
 		return
 	}
-	ret.CurrentJobs = jo
-
-	fj, err := s.store.FailedJobs()
-	if err != nil {
-		http.Error(w, err.Error(), http.StatusInternalServerError)
-		return
-	}
-	ret.FailedJobs = fj
-
-	cj, err := s.store.CompletedJobs()
-	if err != nil {
-		http.Error(w, err.Error(), http.StatusInternalServerError)
-		return
-	}
-	ret.CompletedJobs = cj
+	ret.CurrentJobs, ret.FailedJobs, ret.CompletedJobs = jo, fj, cj
 
 	buf := bytes.Buffer{}
 	if err := json.NewEncoder(&buf).Encode(&ret); err != nil {
diff --git a/src/ferryd/jobs/store.go b/src/ferryd/jobs/store.go
index 5af3128..a7b425d 100644
--- a/src/ferryd/jobs/store.go
+++ b/src/ferryd/jobs/store.go
@@ -325,6 +325,31 @@ func (s *JobStore) PushAsyncJob(j *JobEntry) error {
 // ActiveJobs will attempt to return a list of active jobs within
 // the scheduler suitable for consumption by the CLI client
 func (s *JobStore) ActiveJobs() ([]*libferry.Job, error) {
+	s.modMut.Lock()
+	defer s.modMut.Unlock()
+	return s.activeJobs()
+}
+
+// AllJobs returns the active, failed and completed jobs as of one moment, so
+// that a job retiring meanwhile is listed exactly once
+func (s *JobStore) AllJobs() (active, failed, completed []*libferry.Job, err error) {
+	s.modMut.Lock()
+	defer s.modMut.Unlock()
+
+	if active, err = s.activeJobs(); err != nil {
+		return nil, nil, nil, err
+	}
+	if err = s.clonePastJobs(&failed, BucketFailJobs); err != nil {
+		return nil, nil, nil, err
+	}
+	if err = s.clonePastJobs(&completed, BucketSuccessJobs); err != nil {
+		return nil, nil, nil, err
+	}
+	return active, failed, completed, nil
+}
+
+// activeJobs lists both queues. The store must be locked.
+func (s *JobStore) activeJobs() ([]*libferry.Job, error) {
 	var ret []*libferry.Job
 
 	if err := s.cloneCurrentJobs(&ret, []byte(BucketSequentialJobs)); err != nil {
@@ -338,11 +363,9 @@ func (s *JobStore) ActiveJobs() ([]*libferry.Job, error) {
 	return ret, nil
 }
 
-// cloneCurrentJobs will push clones of our jobs out to the libferry API
+// cloneCurrentJobs will push clones of our jobs out to the libferry API.
+// The store must be locked.
 func (s *JobStore) cloneCurrentJobs(ret *[]*libferry.Job, bucketID []byte) error {
-	s.modMut.Lock()
-	defer s.modMut.Unlock()
-
 	return s.db.Bucket(bucketID).View(func(db libdb.ReadOnlyView) error {
 		return db.ForEach(func(k, v []byte) error {
 			j := &JobEntry{}
@@ -368,6 +391,9 @@ func (s *JobStore) cloneCurrentJobs(ret *[]*libferry.Job, bucketID []byte) error
 
 // CompletedJobs will return all successfully completed jobs still stored
 func (s *JobStore) CompletedJobs() ([]*libferry.Job, error) {
+	s.modMut.Lock()
+	defer s.modMut.Unlock()
+
 	var ret []*libferry.Job
 	if err := s.clonePastJobs(&ret, BucketSuccessJobs); err != nil {
 		return nil, err
@@ -377,6 +403,9 @@ func (s *JobStore) CompletedJobs() ([]*libferry.Job, error) {
 
 // FailedJobs will return all failed jobs that are still stored
 func (s *JobStore) FailedJobs() ([]*libferry.Job, error) {
+	s.modMut.Lock()
+	defer s.modMut.Unlock()
+
 	var ret []*libferry.Job
 	if err := s.clonePastJobs(&ret, BucketFailJobs); err != nil {
 		return nil, err
@@ -385,11 +414,8 @@ func (s *JobStore) FailedJobs() ([]*libferry.Job, error) {
 }
 
 // clonePastJobs will pull the libferry.Job references from the DB and return
-// clones
+// clones. The store must be locked.
 func (s *JobStore) clonePastJobs(ret *[]*libferry.Job, bucketID []byte) error {
-	s.modMut.Lock()
-	defer s.modMut.Unlock()
-
 	return s.db.Bucket(bucketID).View(func(db libdb.ReadOnlyView) error {
 		return db.ForEach(func(k, v []byte) error {
 			j := &libferry.Job{}
-- 
2.43.0


From 520a2187cb75ada809d25513489e943ccccbaf27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:04 +0000
Subject: [PATCH 26/32] fix: reset a list of jobs in one update

---
 src/ferryd/jobs/store.go | 14 +++-----------
 1 file changed, 3 insertions(+), 11 deletions(-)

diff --git a/src/ferryd/jobs/store.go b/src/ferryd/jobs/store.go
index a7b425d..9dc9190 100644
--- a/src/ferryd/jobs/store.go
+++ b/src/ferryd/jobs/store.go
@@ -435,19 +435,11 @@ func (s *JobStore) resetInternal(bucketID []byte) error {
 	s.modMut.Lock()
 	defer s.modMut.Unlock()
 
-	bucket := s.db.Bucket(bucketID).Bucket(BucketRecord)
-	hasIndex, err := bucket.HasObject(IndexRecordKey)
-	if err != nil {
-		return err
-	}
-	if hasIndex {
-		if err := bucket.DeleteObject(IndexRecordKey); err != nil {
+	// batch delete the jobs, together with the pointer
+	return s.db.Bucket(bucketID).Update(func(db libdb.Database) error {
+		if err := db.Bucket(BucketRecord).DeleteObject(IndexRecordKey); err != nil {
 			return err
 		}
-	}
-
-	// batch delete the jobs
-	return s.db.Bucket(bucketID).Update(func(db libdb.Database) error {
 		return db.ForEach(func(k, v []byte) error {
 			return db.DeleteObject(k)
 		})
-- 
2.43.0


From 526f79e89a06f2573a41d0a7ac55c4f62f31d0b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:54 +0000
Subject: [PATCH 27/32] fix: do not publish delta entries from package metadata

The index would list deltas that nobody has made.
---
 src/ferryd/core/pool.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ferryd/core/pool.go b/src/ferryd/core/pool.go
index 818a013..e3766b2 100644
--- a/src/ferryd/core/pool.go
+++ b/src/ferryd/core/pool.go
@@ -215,6 +215,9 @@ func (p *Pool) addPackageInternal(db libdb.Database, pkg *libeopkg.Package, copy
 	pkg.Meta.Package.PackageSize = st.Size()
 	pkg.Meta.Package.PackageURI = fmt.Sprintf("%s/%s", pkg.Meta.Package.GetPathComponent(), pkg.ID)
 
+	// Only we decide which deltas exist
+	pkg.Meta.Package.DeltaPackages = nil
+
 	entry := &PoolEntry{
 		SchemaVersion: PoolSchemaVersion,
 		Name:          pkg.ID,
-- 
2.43.0


From b8015c4e95f8d1b21e9f3b80dc398c1894ab0077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:58 +0000
Subject: [PATCH 28/32] fix: keep package locations valid UTF-8 for any source
 name

The first byte of a longer character ended up in the index as U+FFFD.
---
 src/libeopkg/metadata.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/libeopkg/metadata.go b/src/libeopkg/metadata.go
index 1b83c4c..50f403f 100644
--- a/src/libeopkg/metadata.go
+++ b/src/libeopkg/metadata.go
@@ -206,10 +206,11 @@ type Metadata struct {
 //
 func (m *MetaPackage) GetPathComponent() string {
 	nom := strings.ToLower(m.Source.Name)
-	letter := nom[0:1]
+	runes := []rune(nom) // Never cut a character in half
+	letter := string(runes[0:1])
 	var path string
 	if strings.HasPrefix(nom, "lib") && len(nom) > 3 {
-		path = filepath.Join(nom[0:4], nom)
+		path = filepath.Join(string(runes[0:4]), nom)
 	} else {
 		path = filepath.Join(letter, nom)
 	}
-- 
2.43.0


From bdc71187c98a09041726ad974f5789471471da61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:36 +0000
Subject: [PATCH 29/32] fix: tell the client when its request could not be
 queued

---
 src/ferryd/handlers.go         | 29 ++++++++++++++++++-----------
 src/ferryd/jobs/delta_repo.go  |  4 +++-
 src/ferryd/jobs/processor.go   |  7 +++----
 src/ferryd/jobs/pull_repo.go   |  4 +++-
 src/ferryd/jobs/transit_job.go |  4 +++-
 src/ferryd/monitor.go          |  7 ++++++-
 6 files changed, 36 insertions(+), 19 deletions(-)

diff --git a/src/ferryd/handlers.go b/src/ferryd/handlers.go
index 9ac9063..81dc641 100644
--- a/src/ferryd/handlers.go
+++ b/src/ferryd/handlers.go
@@ -62,6 +62,13 @@ func (s *Server) sendStockError(err error, w http.ResponseWriter, r *http.Reques
 	w.Write(buf.Bytes())
 }
 
+// queueJob will push the job, and let the client know if that is not possible
+func (s *Server) queueJob(job *jobs.JobEntry, w http.ResponseWriter, r *http.Request) {
+	if err := s.jproc.PushJob(job); err != nil {
+		s.sendStockError(err, w, r)
+	}
+}
+
 // GetStatus will return the current status of the ferryd instance
 func (s *Server) GetStatus(w http.ResponseWriter, r *http.Request, _ httprouter.Params) {
 	ret := libferry.StatusRequest{
@@ -132,7 +139,7 @@ func (s *Server) CreateRepo(w http.ResponseWriter, r *http.Request, p httprouter
 	log.WithFields(log.Fields{
 		"id": id,
 	}).Info("Repository creation requested")
-	s.jproc.PushJob(jobs.NewCreateRepoJob(id))
+	s.queueJob(jobs.NewCreateRepoJob(id), w, r)
 }
 
 // DeleteRepo will handle remote requests for repository deletion
@@ -141,7 +148,7 @@ func (s *Server) DeleteRepo(w http.ResponseWriter, r *http.Request, p httprouter
 	log.WithFields(log.Fields{
 		"id": id,
 	}).Info("Repository deletion requested")
-	s.jproc.PushJob(jobs.NewDeleteRepoJob(id))
+	s.queueJob(jobs.NewDeleteRepoJob(id), w, r)
 }
 
 // DeltaRepo will handle remote requests for repository deltaing
@@ -150,7 +157,7 @@ func (s *Server) DeltaRepo(w http.ResponseWriter, r *http.Request, p httprouter.
 	log.WithFields(log.Fields{
 		"id": id,
 	}).Info("Repository delta requested")
-	s.jproc.PushJob(jobs.NewDeltaRepoJob(id))
+	s.queueJob(jobs.NewDeltaRepoJob(id), w, r)
 }
 
 // IndexRepo will handle remote requests for repository indexing
@@ -159,7 +166,7 @@ func (s *Server) IndexRepo(w http.ResponseWriter, r *http.Request, p httprouter.
 	log.WithFields(log.Fields{
 		"id": id,
 	}).Info("Repository indexing requested")
-	s.jproc.PushJob(jobs.NewIndexRepoJob(id))
+	s.queueJob(jobs.NewIndexRepoJob(id), w, r)
 }
 
 // ImportPackages will bulk-import the packages in the request
@@ -178,7 +185,7 @@ func (s *Server) ImportPackages(w http.ResponseWriter, r *http.Request, p httpro
 		"npackages": len(req.Path),
 	}).Info("Repository bulk import requested")
 
-	s.jproc.PushJob(jobs.NewBulkAddJob(id, req.Path))
+	s.queueJob(jobs.NewBulkAddJob(id, req.Path), w, r)
 }
 
 // CloneRepo will proxy a job to clone an existing repository
@@ -198,7 +205,7 @@ func (s *Server) CloneRepo(w http.ResponseWriter, r *http.Request, p httprouter.
 		"fullClone": req.CopyAll,
 	}).Info("Repository clone requested")
 
-	s.jproc.PushJob(jobs.NewCloneRepoJob(id, req.CloneName, req.CopyAll))
+	s.queueJob(jobs.NewCloneRepoJob(id, req.CloneName, req.CopyAll), w, r)
 }
 
 // PullRepo will proxy a job to pull an existing repository
@@ -217,7 +224,7 @@ func (s *Server) PullRepo(w http.ResponseWriter, r *http.Request, p httprouter.P
 		"target": target,
 	}).Info("Repository pull requested")
 
-	s.jproc.PushJob(jobs.NewPullRepoJob(req.Source, target))
+	s.queueJob(jobs.NewPullRepoJob(req.Source, target), w, r)
 }
 
 // RemoveSource will proxy a job to remove an existing set of packages by source name + relno
@@ -237,7 +244,7 @@ func (s *Server) RemoveSource(w http.ResponseWriter, r *http.Request, p httprout
 		"repo":    target,
 	}).Info("Source removal requested")
 
-	s.jproc.PushJob(jobs.NewRemoveSourceJob(target, req.Source, req.Release))
+	s.queueJob(jobs.NewRemoveSourceJob(target, req.Source, req.Release), w, r)
 }
 
 // CopySource will proxy a job to copy a package by source&relno into target
@@ -259,7 +266,7 @@ func (s *Server) CopySource(w http.ResponseWriter, r *http.Request, p httprouter
 		"skipIndex":  req.SkipIndex,
 	}).Info("Source copy requested")
 
-	s.jproc.PushJob(jobs.NewCopySourceJob(sourceRepo, req.Target, req.Source, req.Release, req.SkipIndex))
+	s.queueJob(jobs.NewCopySourceJob(sourceRepo, req.Target, req.Source, req.Release, req.SkipIndex), w, r)
 }
 
 // TrimPackages will proxy a job to remove excess fat from a repo
@@ -278,7 +285,7 @@ func (s *Server) TrimPackages(w http.ResponseWriter, r *http.Request, p httprout
 		"maxKeep": req.MaxKeep,
 	}).Info("Package trim requested")
 
-	s.jproc.PushJob(jobs.NewTrimPackagesJob(target, req.MaxKeep))
+	s.queueJob(jobs.NewTrimPackagesJob(target, req.MaxKeep), w, r)
 }
 
 // TrimObsolete will proxy a job to remove obsolete packages from a repo
@@ -287,7 +294,7 @@ func (s *Server) TrimObsolete(w http.ResponseWriter, r *http.Request, p httprout
 	log.WithFields(log.Fields{
 		"id": id,
 	}).Info("Obsoletes trim requested")
-	s.jproc.PushJob(jobs.NewTrimObsoleteJob(id))
+	s.queueJob(jobs.NewTrimObsoleteJob(id), w, r)
 }
 
 // ResetCompleted will ask the job store to remove completed jobs. This is blocking.
diff --git a/src/ferryd/jobs/delta_repo.go b/src/ferryd/jobs/delta_repo.go
index 60f70ba..44b12cf 100644
--- a/src/ferryd/jobs/delta_repo.go
+++ b/src/ferryd/jobs/delta_repo.go
@@ -72,7 +72,9 @@ func (j *DeltaRepoJobHandler) Execute(jproc *Processor, manager *core.Manager) e
 
 	// Fire off parallel delta jobs for every package in this repository
 	for _, name := range packageNames {
-		jproc.PushJob(NewDeltaJob(j.repoID, name))
+		if err := jproc.PushJob(NewDeltaJob(j.repoID, name)); err != nil {
+			return err
+		}
 	}
 
 	return nil
diff --git a/src/ferryd/jobs/processor.go b/src/ferryd/jobs/processor.go
index a62515e..54e03f0 100644
--- a/src/ferryd/jobs/processor.go
+++ b/src/ferryd/jobs/processor.go
@@ -107,10 +107,9 @@ func (j *Processor) Begin() {
 
 // PushJob will automatically determine which queue to push a job to and place
 // it there for immediate execution
-func (j *Processor) PushJob(job *JobEntry) {
+func (j *Processor) PushJob(job *JobEntry) error {
 	if job.sequential {
-		j.store.PushSequentialJob(job)
-	} else {
-		j.store.PushAsyncJob(job)
+		return j.store.PushSequentialJob(job)
 	}
+	return j.store.PushAsyncJob(job)
 }
diff --git a/src/ferryd/jobs/pull_repo.go b/src/ferryd/jobs/pull_repo.go
index 58eb3f6..bf91876 100644
--- a/src/ferryd/jobs/pull_repo.go
+++ b/src/ferryd/jobs/pull_repo.go
@@ -74,7 +74,9 @@ func (j *PullRepoJobHandler) Execute(jproc *Processor, manager *core.Manager) er
 	// Create delta job in this repository on the changed names
 	// Don't cause indexing because it causes noise
 	for _, pkg := range changedNames {
-		jproc.PushJob(NewDeltaIndexJob(j.targetID, pkg))
+		if err := jproc.PushJob(NewDeltaIndexJob(j.targetID, pkg)); err != nil {
+			return err
+		}
 	}
 
 	return nil
diff --git a/src/ferryd/jobs/transit_job.go b/src/ferryd/jobs/transit_job.go
index 5701274..07620fe 100644
--- a/src/ferryd/jobs/transit_job.go
+++ b/src/ferryd/jobs/transit_job.go
@@ -111,7 +111,9 @@ func (j *TransitJobHandler) Execute(jproc *Processor, manager *core.Manager) err
 		if ent != nil {
 			return err
 		}
-		jproc.PushJob(NewDeltaIndexJob(repo, p.Name))
+		if err := jproc.PushJob(NewDeltaIndexJob(repo, p.Name)); err != nil {
+			return err
+		}
 	}
 
 	return nil
diff --git a/src/ferryd/monitor.go b/src/ferryd/monitor.go
index 945bae2..6f0b004 100644
--- a/src/ferryd/monitor.go
+++ b/src/ferryd/monitor.go
@@ -96,5 +96,10 @@ func (s *Server) processTransitManifest(name string) {
 	log.WithFields(log.Fields{
 		"id": name,
 	}).Info("Received transit manifest upload")
-	s.jproc.PushJob(jobs.NewTransitJob(fullpath))
+	if err := s.jproc.PushJob(jobs.NewTransitJob(fullpath)); err != nil {
+		log.WithFields(log.Fields{
+			"id":    name,
+			"error": err,
+		}).Error("Failed to queue transit manifest upload")
+	}
 }
-- 
2.43.0


From c809429344d415b2444a8de0f1ed02d27d2247b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:38 +0000
Subject: [PATCH 30/32] fix: keep repository names apart from the rest of a
 request

---
 src/ferryd/server.go |  3 +++
 src/libferry/main.go | 27 ++++++++++++++-------------
 2 files changed, 17 insertions(+), 13 deletions(-)

diff --git a/src/ferryd/server.go b/src/ferryd/server.go
index 8abbea0..d1aeb3d 100644
--- a/src/ferryd/server.go
+++ b/src/ferryd/server.go
@@ -69,6 +69,9 @@ type Server struct {
 // NewServer will return a newly initialised Server which is currently unbound
 func NewServer() (*Server, error) {
 	router := httprouter.New()
+	// Never take a request for one on something else
+	router.RedirectTrailingSlash = false
+	router.RedirectFixedPath = false
 	s := &Server{
 		srv: &http.Server{
 			Handler: router,
diff --git a/src/libferry/main.go b/src/libferry/main.go
index b06a13d..75e6565 100644
--- a/src/libferry/main.go
+++ b/src/libferry/main.go
@@ -24,6 +24,7 @@ import (
 	"fmt"
 	"net"
 	"net/http"
+	"net/url"
 	"time"
 )
 
@@ -143,25 +144,25 @@ func (c *Client) postBasicResponse(url string, inT interface{}, outT interface{}
 
 // CreateRepo will attempt to create a repository in the daemon
 func (c *Client) CreateRepo(id string) error {
-	uri := c.formURI("/api/v1/create/repo/" + id)
+	uri := c.formURI("api/v1/create/repo/" + url.PathEscape(id))
 	return c.getBasicResponse(uri, &Response{})
 }
 
 // DeleteRepo will attempt to delete a remote repository
 func (c *Client) DeleteRepo(id string) error {
-	uri := c.formURI("/api/v1/remove/repo/" + id)
+	uri := c.formURI("api/v1/remove/repo/" + url.PathEscape(id))
 	return c.getBasicResponse(uri, &Response{})
 }
 
 // DeltaRepo will attempt to reproduce deltas in the given repo
 func (c *Client) DeltaRepo(id string) error {
-	uri := c.formURI("/api/v1/delta/repo/" + id)
+	uri := c.formURI("api/v1/delta/repo/" + url.PathEscape(id))
 	return c.getBasicResponse(uri, &Response{})
 }
 
 // IndexRepo will attempt to index a repository in the daemon
 func (c *Client) IndexRepo(id string) error {
-	uri := c.formURI("/api/v1/index/repo/" + id)
+	uri := c.formURI("api/v1/index/repo/" + url.PathEscape(id))
 	return c.getBasicResponse(uri, &Response{})
 }
 
@@ -171,7 +172,7 @@ func (c *Client) ImportPackages(repoID string, pkgs []string) error {
 	iq := ImportRequest{
 		Path: pkgs,
 	}
-	return c.postBasicResponse(c.formURI("api/v1/import/"+repoID), &iq, &Response{})
+	return c.postBasicResponse(c.formURI("api/v1/import/"+url.PathEscape(repoID)), &iq, &Response{})
 }
 
 // CloneRepo will ask the backend to clone an existing repository into a new repository
@@ -180,7 +181,7 @@ func (c *Client) CloneRepo(repoID, newClone string, copyAll bool) error {
 		CloneName: newClone,
 		CopyAll:   copyAll,
 	}
-	return c.postBasicResponse(c.formURI("api/v1/clone/"+repoID), &cq, &Response{})
+	return c.postBasicResponse(c.formURI("api/v1/clone/"+url.PathEscape(repoID)), &cq, &Response{})
 }
 
 // PullRepo will ask the backend to pull from target into repoID
@@ -188,7 +189,7 @@ func (c *Client) PullRepo(sourceID, targetID string) error {
 	pq := PullRepoRequest{
 		Source: sourceID,
 	}
-	return c.postBasicResponse(c.formURI("api/v1/pull/"+targetID), &pq, &Response{})
+	return c.postBasicResponse(c.formURI("api/v1/pull/"+url.PathEscape(targetID)), &pq, &Response{})
 }
 
 // RemoveSource will ask the backend to remove packages by source name
@@ -197,7 +198,7 @@ func (c *Client) RemoveSource(repoID, sourceID string, relno int) error {
 		Source:  sourceID,
 		Release: relno,
 	}
-	return c.postBasicResponse(c.formURI("api/v1/remove/source/"+repoID), &sq, &Response{})
+	return c.postBasicResponse(c.formURI("api/v1/remove/source/"+url.PathEscape(repoID)), &sq, &Response{})
 }
 
 // CopySource will ask the backend to copy packages by source name
@@ -208,7 +209,7 @@ func (c *Client) CopySource(fromID, targetID, sourceID string, relno int, skipIn
 		Release:   relno,
 		SkipIndex: skipIndex,
 	}
-	return c.postBasicResponse(c.formURI("api/v1/copy/source/"+fromID), &sq, &Response{})
+	return c.postBasicResponse(c.formURI("api/v1/copy/source/"+url.PathEscape(fromID)), &sq, &Response{})
 }
 
 // TrimPackages will request that packages in the repo are trimmed to maxKeep
@@ -216,12 +217,12 @@ func (c *Client) TrimPackages(repoID string, maxKeep int) error {
 	tq := TrimPackagesRequest{
 		MaxKeep: maxKeep,
 	}
-	return c.postBasicResponse(c.formURI("api/v1/trim/packages/"+repoID), &tq, &Response{})
+	return c.postBasicResponse(c.formURI("api/v1/trim/packages/"+url.PathEscape(repoID)), &tq, &Response{})
 }
 
 // TrimObsolete will request that all packages marked obsolete are removed
 func (c *Client) TrimObsolete(repoID string) error {
-	uri := c.formURI("/api/v1/trim/obsoletes/" + repoID)
+	uri := c.formURI("api/v1/trim/obsoletes/" + url.PathEscape(repoID))
 	return c.getBasicResponse(uri, &Response{})
 }
 
@@ -241,12 +242,12 @@ func (c *Client) GetStatus() (*StatusRequest, error) {
 
 // ResetFailed asks the daemon to reset failed jobs
 func (c *Client) ResetFailed() error {
-	uri := c.formURI("/api/v1/reset/failed")
+	uri := c.formURI("api/v1/reset/failed")
 	return c.getBasicResponse(uri, &Response{})
 }
 
 // ResetCompleted asks the daemon to reset completed jobs
 func (c *Client) ResetCompleted() error {
-	uri := c.formURI("/api/v1/reset/completed")
+	uri := c.formURI("api/v1/reset/completed")
 	return c.getBasicResponse(uri, &Response{})
 }
-- 
2.43.0


From fef489001ff11d6fc87acef17a150d99b071c940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:12 +0000
Subject: [PATCH 31/32] fix: refuse to include a delta whose ID the pool knows
 from other packages

---
 src/ferryd/core/repo.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ferryd/core/repo.go b/src/ferryd/core/repo.go
index ff16ac5..581ae81 100644
--- a/src/ferryd/core/repo.go
+++ b/src/ferryd/core/repo.go
@@ -471,6 +471,11 @@ func (r *Repository) addLocalDeltaInternal(db libdb.Database, pool *Pool, pkg *l
 		return fmt.Errorf("delta '%s' does not connect packages of '%s'", pkg.ID, r.ID)
 	}
 
+	// The pool might know this delta ID from other packages
+	if known, err := pool.GetEntry(db, pkg.ID); err == nil && (known.Delta == nil || !entry.connects(known.Delta)) {
+		return fmt.Errorf("delta '%s' does not connect packages of '%s'", pkg.ID, r.ID)
+	}
+
 	pkgDir := filepath.Join(r.path, pkg.Meta.Package.GetPathComponent())
 	pkgTarget := filepath.Join(pkgDir, pkg.ID)
 
-- 
2.43.0


From 3b25832c99ff5d58d9672d4a1abc7ac6279fc981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:02 +0000
Subject: [PATCH 32/32] fix: purge: survive a refusal without a reason

---
 src/ferryd/core/purge_cloudflare.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ferryd/core/purge_cloudflare.go b/src/ferryd/core/purge_cloudflare.go
index dc545bb..a7a625c 100644
--- a/src/ferryd/core/purge_cloudflare.go
+++ b/src/ferryd/core/purge_cloudflare.go
@@ -69,5 +69,9 @@ func purgeCloudflare(target string) error {
 	if result.Success {
 		return nil
 	}
+	// Not every refusal comes with a reason
+	if len(result.Errors) == 0 {
+		return errors.New("Cloudflare refused to purge the cache")
+	}
 	return errors.New("Cloudflare response " + result.Errors[0].Message)
 }
-- 
2.43.0

