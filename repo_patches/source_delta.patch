From 2c1718a1c592e9e7660a5809b69698944750de69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:36 +0000
Subject: [PATCH 01/43] fix: re-index the target after a copy unless asked to
 skip it

---
 src/ferryd/core/api.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ferryd/core/api.go b/src/ferryd/core/api.go
index 71e97de..f66d02d 100644
--- a/src/ferryd/core/api.go
+++ b/src/ferryd/core/api.go
@@ -123,10 +123,10 @@ func (m *Manager) CopySource(repoID, target, sourceID string, release int, skipI
 	}
 
 	if skipIndex {
-		return m.Index(target)
-	} else {
 		return nil
 	}
+
+	return m.Index(target)
 }
 
 // TrimObsolete will ask the repo to remove obsolete packages
-- 
2.43.0


From cc8e486fc51ea6d7487a3eb9e9a42764035441c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:03 +0000
Subject: [PATCH 02/43] fix: report a missing or unreadable source when copying
 a file

---
 src/ferryd/core/util.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ferryd/core/util.go b/src/ferryd/core/util.go
index b70fa06..19c5b1b 100644
--- a/src/ferryd/core/util.go
+++ b/src/ferryd/core/util.go
@@ -38,7 +38,7 @@ func CopyFile(source, dest string) error {
 	// Stat the source first
 	st, err = os.Stat(source)
 	if err != nil {
-		return nil
+		return err
 	}
 	if src, err = os.Open(source); err != nil {
 		return err
-- 
2.43.0


From 98be745147edb8d60fa16af600b1fb7454e426b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:06 +0000
Subject: [PATCH 03/43] fix: do not truncate a file when copying it onto itself

---
 src/ferryd/core/util.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ferryd/core/util.go b/src/ferryd/core/util.go
index 19c5b1b..29ae6ce 100644
--- a/src/ferryd/core/util.go
+++ b/src/ferryd/core/util.go
@@ -40,6 +40,10 @@ func CopyFile(source, dest string) error {
 	if err != nil {
 		return err
 	}
+	// Already the very same file, truncating it would destroy the content
+	if dstSt, err := os.Stat(dest); err == nil && os.SameFile(st, dstSt) {
+		return nil
+	}
 	if src, err = os.Open(source); err != nil {
 		return err
 	}
-- 
2.43.0


From 017686b872c899967a6ea175a3604629b6a0ffae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:09 +0000
Subject: [PATCH 04/43] fix: report a failed close of a copied file

---
 src/ferryd/core/util.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ferryd/core/util.go b/src/ferryd/core/util.go
index 29ae6ce..56f0814 100644
--- a/src/ferryd/core/util.go
+++ b/src/ferryd/core/util.go
@@ -56,7 +56,9 @@ func CopyFile(source, dest string) error {
 		dst.Close()
 		return err
 	}
-	dst.Close()
+	if err = dst.Close(); err != nil {
+		return err
+	}
 	// If it fails, meh.
 	os.Chtimes(dest, st.ModTime(), st.ModTime())
 	os.Chown(dest, os.Getuid(), os.Getgid())
-- 
2.43.0


From 2d9871ec8dd30097a2f7cecc590f2f85670dc7da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:12 +0000
Subject: [PATCH 05/43] fix: trim every build of every obsolete package

---
 src/ferryd/core/repo.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/ferryd/core/repo.go b/src/ferryd/core/repo.go
index c0344f5..1d52795 100644
--- a/src/ferryd/core/repo.go
+++ b/src/ferryd/core/repo.go
@@ -1186,9 +1186,8 @@ func (r *Repository) TrimObsolete(db libdb.Database, pool *Pool) error {
 						"repo": r.ID,
 						"name": poolEntry.Meta.Name,
 					}).Error("Abandoned obsolete package. Removing!")
-					removalIDs = append(removalIDs, id)
 				}
-				return nil
+				removalIDs = append(removalIDs, id)
 			}
 		}
 
-- 
2.43.0


From a2bb2870796da13fd62d7a91b13c7acfe3d32aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:15 +0000
Subject: [PATCH 06/43] fix: keep the known deltas of a package when adding a
 build to it

---
 src/ferryd/core/repo.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ferryd/core/repo.go b/src/ferryd/core/repo.go
index 1d52795..a81cb57 100644
--- a/src/ferryd/core/repo.go
+++ b/src/ferryd/core/repo.go
@@ -632,6 +632,7 @@ func (r *Repository) buildSaneEntry(db libdb.Database, pool *Pool, newPkg *libeo
 	if entry != nil {
 		repoEntry.Available = entry.Available
 		repoEntry.Published = entry.Published
+		repoEntry.Deltas = entry.Deltas
 
 		pkgAvail, err := pool.GetEntry(db, repoEntry.Published)
 		if err == nil {
-- 
2.43.0


From b0b08114627493cec28da9122a072fdf58a8f661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:18 +0000
Subject: [PATCH 07/43] fix: always publish a remaining build after a removal

---
 src/ferryd/core/repo.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ferryd/core/repo.go b/src/ferryd/core/repo.go
index a81cb57..884920e 100644
--- a/src/ferryd/core/repo.go
+++ b/src/ferryd/core/repo.go
@@ -553,7 +553,7 @@ func (r *Repository) UnrefPackage(db libdb.Database, pool *Pool, pkgID string) e
 		}
 		// Learn highest relno here, it's going to be the published ID
 		curRel := availEntry.Meta.GetRelease()
-		if curRel > newHighest {
+		if newHighestID == "" || curRel > newHighest {
 			newHighest = curRel
 			newHighestID = id
 		}
-- 
2.43.0


From 1f98c1ef2d357f8bbee175ce5cf28635ccad065c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:37 +0000
Subject: [PATCH 08/43] fix: stop listing a package before removing its files
 and references

---
 src/ferryd/core/repo.go | 32 ++++++++++++++++++++------------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/src/ferryd/core/repo.go b/src/ferryd/core/repo.go
index 884920e..863dcc9 100644
--- a/src/ferryd/core/repo.go
+++ b/src/ferryd/core/repo.go
@@ -512,13 +512,9 @@ func (r *Repository) UnrefPackage(db libdb.Database, pool *Pool, pkgID string) e
 		return err
 	}
 
-	// Try to remove it from disk first
-	if err := r.removePackageInternal(db, pool, pkgID); err != nil {
-		return err
-	}
-
-	// Deltas remaining after removals
+	// Deltas remaining after removals, and those which must go
 	var remainDeltas []string
+	var staleDeltas []string
 
 	// Check out all the deltas
 	for _, deltaID := range entry.Deltas {
@@ -529,9 +525,7 @@ func (r *Repository) UnrefPackage(db libdb.Database, pool *Pool, pkgID string) e
 
 		// We found a delta that is referencing us, we must garbage collect it now
 		if pkgDelta.Delta.FromID == pkgID || pkgDelta.Delta.ToID == pkgID {
-			if err := r.removeDeltaInternal(db, pool, pkgDelta.Name); err != nil {
-				return err
-			}
+			staleDeltas = append(staleDeltas, pkgDelta.Name)
 		} else {
 			remainDeltas = append(remainDeltas, pkgDelta.Name)
 		}
@@ -569,11 +563,25 @@ func (r *Repository) UnrefPackage(db libdb.Database, pool *Pool, pkgID string) e
 
 	// Is this package set now "empty"? Then remove it from our indexes
 	if len(entry.Available) < 1 {
-		return rootBucket.DeleteObject([]byte(entry.Name))
+		err = rootBucket.DeleteObject([]byte(entry.Name))
+	} else {
+		// Stuff it back into the DB with the modified bits in place.
+		err = r.putEntry(db, entry)
+	}
+	if err != nil {
+		return err
 	}
 
-	// Stuff it back into the DB with the modified bits in place.
-	return r.putEntry(db, entry)
+	// Nothing lists them anymore, so now they can go from disk and pool
+	if err := r.removePackageInternal(db, pool, pkgID); err != nil {
+		return err
+	}
+	for _, deltaID := range staleDeltas {
+		if err := r.removeDeltaInternal(db, pool, deltaID); err != nil {
+			return err
+		}
+	}
+	return nil
 }
 
 // RefPackage will dupe a package from the pool into our own storage
-- 
2.43.0


From 2a6614e7a881d6b45d055049ba900a0359d1f273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:40 +0000
Subject: [PATCH 09/43] fix: delete the record of a pooled package before its
 file

---
 src/ferryd/core/pool.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/ferryd/core/pool.go b/src/ferryd/core/pool.go
index d0204ae..65ad674 100644
--- a/src/ferryd/core/pool.go
+++ b/src/ferryd/core/pool.go
@@ -266,7 +266,13 @@ func (p *Pool) UnrefEntry(db libdb.Database, id string) error {
 		return p.putEntry(db, entry)
 	}
 
-	// RefCount is 0 so we now need to delete this entry
+	// RefCount is 0 so we now need to delete this entry from the DB
+	b := db.Bucket([]byte(DatabaseBucketPool))
+	if err := b.DeleteObject([]byte(id)); err != nil {
+		return err
+	}
+
+	// And then from disk
 	pkgPath := filepath.Join(p.poolDir, entry.Meta.GetPathComponent(), id)
 	if err := os.Remove(pkgPath); err != nil {
 		log.WithFields(log.Fields{
@@ -282,10 +288,7 @@ func (p *Pool) UnrefEntry(db libdb.Database, id string) error {
 			"error": err,
 		}).Warning("Failed to remove package parents")
 	}
-
-	// Now remove from DB
-	b := db.Bucket([]byte(DatabaseBucketPool))
-	return b.DeleteObject([]byte(id))
+	return nil
 }
 
 // MarkDeltaFailed will insert a record indicating that it is not possible
-- 
2.43.0


From 386c80bed17bac23c8cfd6efad0f6173f5df13c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:43 +0000
Subject: [PATCH 10/43] fix: hold the insert lock while removing a package from
 its record

---
 src/ferryd/core/repo.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/ferryd/core/repo.go b/src/ferryd/core/repo.go
index 863dcc9..451a292 100644
--- a/src/ferryd/core/repo.go
+++ b/src/ferryd/core/repo.go
@@ -247,6 +247,9 @@ func (r *RepositoryManager) DeleteRepo(db libdb.Database, pool *Pool, id string)
 
 	delete(r.repos, id)
 
+	repo.insertMut.Lock()
+	defer repo.insertMut.Unlock()
+
 	// Let's iterate over every one of our packages here and start up an unref
 	// cycle
 	err = db.Update(func(db libdb.Database) error {
@@ -450,11 +453,8 @@ func (r *Repository) AddLocalDelta(db libdb.Database, pool *Pool, pkg *libeopkg.
 	return r.putEntry(db, entry)
 }
 
-// Internal helper to remove packages
+// Internal helper to remove packages, insertMut must be held
 func (r *Repository) removePackageInternal(db libdb.Database, pool *Pool, id string) error {
-	r.insertMut.Lock()
-	defer r.insertMut.Unlock()
-
 	poolEntry, err := pool.GetEntry(db, id)
 	if err != nil {
 		return nil
@@ -497,6 +497,9 @@ func (r *Repository) removeDeltaInternal(db libdb.Database, pool *Pool, id strin
 // Additionally, we'll locate stray deltas which lead either TO or FROM the given
 // package as they'll now be useless to anyone.
 func (r *Repository) UnrefPackage(db libdb.Database, pool *Pool, pkgID string) error {
+	r.insertMut.Lock()
+	defer r.insertMut.Unlock()
+
 	newHighest := 0
 	var newHighestID string
 
-- 
2.43.0


From 3033d4b1b19ae5b529a1741ff1be984e763f9659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:08 +0000
Subject: [PATCH 11/43] fix: keep a repository loaded when its deletion fails

---
 src/ferryd/core/repo.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ferryd/core/repo.go b/src/ferryd/core/repo.go
index 451a292..41b73e5 100644
--- a/src/ferryd/core/repo.go
+++ b/src/ferryd/core/repo.go
@@ -245,8 +245,6 @@ func (r *RepositoryManager) DeleteRepo(db libdb.Database, pool *Pool, id string)
 		return fmt.Errorf("The specified repository '%s' does not exist", id)
 	}
 
-	delete(r.repos, id)
-
 	repo.insertMut.Lock()
 	defer repo.insertMut.Unlock()
 
@@ -292,6 +290,8 @@ func (r *RepositoryManager) DeleteRepo(db libdb.Database, pool *Pool, id string)
 		return err
 	}
 
+	delete(r.repos, id)
+
 	deletionPaths := []string{
 		repo.path,
 		repo.assetPath,
-- 
2.43.0


From c2713de158b819d690f77af8c8fed52b0d5035c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:11 +0000
Subject: [PATCH 12/43] fix: remove the files of a deleted repository only
 after its records are gone

---
 src/ferryd/core/pool.go | 26 ++++++++++++++++++++------
 src/ferryd/core/repo.go | 29 ++++++++++++++++++-----------
 2 files changed, 38 insertions(+), 17 deletions(-)

diff --git a/src/ferryd/core/pool.go b/src/ferryd/core/pool.go
index 65ad674..ed79448 100644
--- a/src/ferryd/core/pool.go
+++ b/src/ferryd/core/pool.go
@@ -257,23 +257,38 @@ func (p *Pool) RefEntry(db libdb.Database, id string) error {
 // Should the refcount hit 0, the package will then be removed from the pool
 // storage.
 func (p *Pool) UnrefEntry(db libdb.Database, id string) error {
-	entry, err := p.GetEntry(db, id)
+	pkgPath, err := p.unrefRecord(db, id)
 	if err != nil {
 		return err
 	}
+	if pkgPath != "" {
+		p.removeFile(pkgPath)
+	}
+	return nil
+}
+
+// unrefRecord will drop a reference in the DB only. If it was the last one, the
+// path of the now unused pool file is returned.
+func (p *Pool) unrefRecord(db libdb.Database, id string) (string, error) {
+	entry, err := p.GetEntry(db, id)
+	if err != nil {
+		return "", err
+	}
 	entry.RefCount--
 	if entry.RefCount > 0 {
-		return p.putEntry(db, entry)
+		return "", p.putEntry(db, entry)
 	}
 
 	// RefCount is 0 so we now need to delete this entry from the DB
 	b := db.Bucket([]byte(DatabaseBucketPool))
 	if err := b.DeleteObject([]byte(id)); err != nil {
-		return err
+		return "", err
 	}
+	return filepath.Join(p.poolDir, entry.Meta.GetPathComponent(), id), nil
+}
 
-	// And then from disk
-	pkgPath := filepath.Join(p.poolDir, entry.Meta.GetPathComponent(), id)
+// removeFile will remove an unused file from the pool storage
+func (p *Pool) removeFile(pkgPath string) {
 	if err := os.Remove(pkgPath); err != nil {
 		log.WithFields(log.Fields{
 			"path":  pkgPath,
@@ -288,7 +303,6 @@ func (p *Pool) UnrefEntry(db libdb.Database, id string) error {
 			"error": err,
 		}).Warning("Failed to remove package parents")
 	}
-	return nil
 }
 
 // MarkDeltaFailed will insert a record indicating that it is not possible
diff --git a/src/ferryd/core/repo.go b/src/ferryd/core/repo.go
index 41b73e5..5b3d88f 100644
--- a/src/ferryd/core/repo.go
+++ b/src/ferryd/core/repo.go
@@ -248,6 +248,9 @@ func (r *RepositoryManager) DeleteRepo(db libdb.Database, pool *Pool, id string)
 	repo.insertMut.Lock()
 	defer repo.insertMut.Unlock()
 
+	// Pool files which lost their last reference
+	var unusedPaths []string
+
 	// Let's iterate over every one of our packages here and start up an unref
 	// cycle
 	err = db.Update(func(db libdb.Database) error {
@@ -261,17 +264,16 @@ func (r *RepositoryManager) DeleteRepo(db libdb.Database, pool *Pool, id string)
 				return err
 			}
 
-			// First up, find all the packages to unref
-			for _, id := range entry.Available {
-				if err := repo.removePackageInternal(db, pool, id); err != nil {
-					return err
-				}
-			}
-
-			// Next up, find all the deltas to unref
-			for _, id := range entry.Deltas {
-				if err := repo.removeDeltaInternal(db, pool, id); err != nil {
-					return err
+			// Unref all of the packages and deltas
+			for _, ids := range [][]string{entry.Available, entry.Deltas} {
+				for _, id := range ids {
+					path, err := pool.unrefRecord(db, id)
+					if err != nil {
+						return err
+					}
+					if path != "" {
+						unusedPaths = append(unusedPaths, path)
+					}
 				}
 			}
 
@@ -292,6 +294,11 @@ func (r *RepositoryManager) DeleteRepo(db libdb.Database, pool *Pool, id string)
 
 	delete(r.repos, id)
 
+	// Now that the DB no longer knows about them, the unused pool files can go
+	for _, p := range unusedPaths {
+		pool.removeFile(p)
+	}
+
 	deletionPaths := []string{
 		repo.path,
 		repo.assetPath,
-- 
2.43.0


From 8d8131b17bc1936562f414f43d4ea278ec540286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:53 +0000
Subject: [PATCH 13/43] fix: do not mistake a failed database read for a
 missing record

---
 src/ferryd/core/pool.go | 21 +++++++++++++---
 src/ferryd/core/repo.go | 55 ++++++++++++++++++++++++++++++-----------
 2 files changed, 58 insertions(+), 18 deletions(-)

diff --git a/src/ferryd/core/pool.go b/src/ferryd/core/pool.go
index ed79448..1cc08cf 100644
--- a/src/ferryd/core/pool.go
+++ b/src/ferryd/core/pool.go
@@ -118,6 +118,15 @@ func (p *Pool) GetEntry(db libdb.Database, id string) (*PoolEntry, error) {
 	return entry, nil
 }
 
+// findEntry is like GetEntry, but returns nil without an error if there is no
+// such entry, so that it isn't mistaken for a failure to read it
+func (p *Pool) findEntry(db libdb.Database, id string) (*PoolEntry, error) {
+	if ok, err := db.Bucket([]byte(DatabaseBucketPool)).HasObject([]byte(id)); err != nil || !ok {
+		return nil, err
+	}
+	return p.GetEntry(db, id)
+}
+
 // Private method to re-put the entry into the DB
 func (p *Pool) putEntry(db libdb.Database, entry *PoolEntry) error {
 	return db.Bucket([]byte(DatabaseBucketPool)).PutObject([]byte(entry.Name), entry)
@@ -160,7 +169,9 @@ func (p *Pool) GetPackagePoolPath(pkg *libeopkg.Package) string {
 // right, its just installed and handled differently (lacking files, etc.)
 func (p *Pool) AddDelta(db libdb.Database, pkg *libeopkg.Package, mapping *DeltaInformation, copyDisk bool) (*PoolEntry, error) {
 	// Check if this is just a simple case of bumping the refcount
-	if entry, err := p.GetEntry(db, pkg.ID); err == nil {
+	if entry, err := p.findEntry(db, pkg.ID); err != nil {
+		return nil, err
+	} else if entry != nil {
 		entry.RefCount++
 		return entry, p.putEntry(db, entry)
 	}
@@ -186,7 +197,9 @@ func (p *Pool) AddDelta(db libdb.Database, pkg *libeopkg.Package, mapping *Delta
 // the work
 func (p *Pool) addPackageInternal(db libdb.Database, pkg *libeopkg.Package, copyDisk bool, delta *DeltaInformation) (*PoolEntry, error) {
 	// Check if this is just a simple case of bumping the refcount
-	if entry, err := p.GetEntry(db, pkg.ID); err == nil {
+	if entry, err := p.findEntry(db, pkg.ID); err != nil {
+		return nil, err
+	} else if entry != nil {
 		entry.RefCount++
 		return entry, p.putEntry(db, entry)
 	}
@@ -270,8 +283,8 @@ func (p *Pool) UnrefEntry(db libdb.Database, id string) error {
 // unrefRecord will drop a reference in the DB only. If it was the last one, the
 // path of the now unused pool file is returned.
 func (p *Pool) unrefRecord(db libdb.Database, id string) (string, error) {
-	entry, err := p.GetEntry(db, id)
-	if err != nil {
+	entry, err := p.findEntry(db, id)
+	if err != nil || entry == nil {
 		return "", err
 	}
 	entry.RefCount--
diff --git a/src/ferryd/core/repo.go b/src/ferryd/core/repo.go
index 5b3d88f..347f74e 100644
--- a/src/ferryd/core/repo.go
+++ b/src/ferryd/core/repo.go
@@ -334,6 +334,16 @@ func (r *Repository) GetEntry(db libdb.Database, id string) (*RepoEntry, error)
 	return entry, nil
 }
 
+// findEntry is like GetEntry, but returns nil without an error if there is no
+// such entry, so that it isn't mistaken for a failure to read it
+func (r *Repository) findEntry(db libdb.Database, id string) (*RepoEntry, error) {
+	rootBucket := db.Bucket([]byte(DatabaseBucketRepo)).Bucket([]byte(r.ID)).Bucket([]byte(DatabaseBucketPackage))
+	if ok, err := rootBucket.HasObject([]byte(id)); err != nil || !ok {
+		return nil, err
+	}
+	return r.GetEntry(db, id)
+}
+
 // Private method to re-put the entry into the DB
 func (r *Repository) putEntry(db libdb.Database, entry *RepoEntry) error {
 	rootBucket := db.Bucket([]byte(DatabaseBucketRepo)).Bucket([]byte(r.ID)).Bucket([]byte(DatabaseBucketPackage))
@@ -462,9 +472,9 @@ func (r *Repository) AddLocalDelta(db libdb.Database, pool *Pool, pkg *libeopkg.
 
 // Internal helper to remove packages, insertMut must be held
 func (r *Repository) removePackageInternal(db libdb.Database, pool *Pool, id string) error {
-	poolEntry, err := pool.GetEntry(db, id)
-	if err != nil {
-		return nil
+	poolEntry, err := pool.findEntry(db, id)
+	if err != nil || poolEntry == nil {
+		return err
 	}
 
 	pkgDir := filepath.Join(r.path, poolEntry.Meta.GetPathComponent())
@@ -609,7 +619,10 @@ func (r *Repository) RefPackage(db libdb.Database, pool *Pool, pkgID string) err
 	targetDir := filepath.Join(r.path, poolEntry.Meta.GetPathComponent())
 	targetPath := filepath.Join(targetDir, pkgID)
 
-	repoEntry := r.buildSaneEntry(db, pool, poolEntry.Meta, pkgID)
+	repoEntry, err := r.buildSaneEntry(db, pool, poolEntry.Meta, pkgID)
+	if err != nil {
+		return err
+	}
 	// Already included
 	if repoEntry == nil {
 		return nil
@@ -635,7 +648,7 @@ func (r *Repository) RefPackage(db libdb.Database, pool *Pool, pkgID string) err
 
 // buildSaneEntry will either return a plain entry if none exists already, otherwise it will
 // take an existing entry and correctly set up the available/published fields
-func (r *Repository) buildSaneEntry(db libdb.Database, pool *Pool, newPkg *libeopkg.MetaPackage, newID string) *RepoEntry {
+func (r *Repository) buildSaneEntry(db libdb.Database, pool *Pool, newPkg *libeopkg.MetaPackage, newID string) (*RepoEntry, error) {
 	// Fallback in case one actually doesn't exist yet
 	repoEntry := &RepoEntry{
 		SchemaVersion: RepoSchemaVersion,
@@ -643,8 +656,10 @@ func (r *Repository) buildSaneEntry(db libdb.Database, pool *Pool, newPkg *libeo
 		Published:     newID,
 	}
 
-	// Not so worried about the error, just having the entry
-	entry, _ := r.GetEntry(db, newPkg.Name)
+	entry, err := r.findEntry(db, newPkg.Name)
+	if err != nil {
+		return nil, err
+	}
 
 	// Clone across the relevant field now
 	if entry != nil {
@@ -652,8 +667,11 @@ func (r *Repository) buildSaneEntry(db libdb.Database, pool *Pool, newPkg *libeo
 		repoEntry.Published = entry.Published
 		repoEntry.Deltas = entry.Deltas
 
-		pkgAvail, err := pool.GetEntry(db, repoEntry.Published)
-		if err == nil {
+		pkgAvail, err := pool.findEntry(db, repoEntry.Published)
+		if err != nil {
+			return nil, err
+		}
+		if pkgAvail != nil {
 			if newPkg.GetRelease() > pkgAvail.Meta.GetRelease() {
 				repoEntry.Published = newID
 			} else if newPkg.GetRelease() == pkgAvail.Meta.GetRelease() && pkgAvail.Name != newID {
@@ -675,7 +693,7 @@ func (r *Repository) buildSaneEntry(db libdb.Database, pool *Pool, newPkg *libeo
 				"id":   id,
 				"repo": r.ID,
 			}).Info("Skipping already included package")
-			return nil
+			return nil, nil
 		}
 	}
 
@@ -683,7 +701,7 @@ func (r *Repository) buildSaneEntry(db libdb.Database, pool *Pool, newPkg *libeo
 	repoEntry.Available = append(repoEntry.Available, newID)
 	sort.Strings(repoEntry.Available)
 
-	return repoEntry
+	return repoEntry, nil
 }
 
 // AddLocalPackage will do the real work of adding an open & loaded eopkg to the repository
@@ -695,7 +713,10 @@ func (r *Repository) AddLocalPackage(db libdb.Database, pool *Pool, pkg *libeopk
 	pkgTarget := filepath.Join(pkgDir, pkg.ID)
 
 	// Already have a package, so let's copy the existing bits over
-	repoEntry := r.buildSaneEntry(db, pool, &pkg.Meta.Package, pkg.ID)
+	repoEntry, err := r.buildSaneEntry(db, pool, &pkg.Meta.Package, pkg.ID)
+	if err != nil {
+		return err
+	}
 
 	// nil == already included
 	if repoEntry == nil {
@@ -740,8 +761,11 @@ func (r *Repository) AddPackage(db libdb.Database, pool *Pool, filename string,
 	}
 
 	// Do we have this?
-	localPkg, err := r.GetEntry(db, pkg.Meta.Package.Name)
+	localPkg, err := r.findEntry(db, pkg.Meta.Package.Name)
 	if err != nil {
+		return err
+	}
+	if localPkg == nil {
 		return r.AddLocalPackage(db, pool, pkg)
 	}
 
@@ -986,7 +1010,10 @@ func (r *Repository) PullFrom(db libdb.Database, pool *Pool, sourceRepo *Reposit
 			return err
 		}
 
-		localEntry, _ := r.GetEntry(db, entry.Name)
+		localEntry, err := r.findEntry(db, entry.Name)
+		if err != nil {
+			return err
+		}
 
 		// We haven't got this, copy the published version
 		if localEntry == nil {
-- 
2.43.0


From 54be2229c541218ffac02f770050b420e401849e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:55 +0000
Subject: [PATCH 14/43] fix: never lose a pool reference to concurrent changes

---
 src/ferryd/core/pool.go | 21 ++++++++++++++++++---
 src/ferryd/core/repo.go |  3 +++
 2 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/src/ferryd/core/pool.go b/src/ferryd/core/pool.go
index 1cc08cf..3428597 100644
--- a/src/ferryd/core/pool.go
+++ b/src/ferryd/core/pool.go
@@ -20,6 +20,7 @@ import (
 	"fmt"
 	"os"
 	"path/filepath"
+	"sync"
 
 	log "github.com/sirupsen/logrus"
 
@@ -76,7 +77,8 @@ type PoolEntry struct {
 // A Pool is used to manage and deduplicate resources between multiple resources,
 // and represents the real backing store for referenced eopkg files.
 type Pool struct {
-	poolDir string // Storage area
+	poolDir string     // Storage area
+	refMut  sync.Mutex // Prevent parallel changes of reference counts
 }
 
 // Init will create our initial working paths and DB bucket
@@ -168,6 +170,9 @@ func (p *Pool) GetPackagePoolPath(pkg *libeopkg.Package) string {
 // information too. Note that a delta package is still a package in its own
 // right, its just installed and handled differently (lacking files, etc.)
 func (p *Pool) AddDelta(db libdb.Database, pkg *libeopkg.Package, mapping *DeltaInformation, copyDisk bool) (*PoolEntry, error) {
+	p.refMut.Lock()
+	defer p.refMut.Unlock()
+
 	// Check if this is just a simple case of bumping the refcount
 	if entry, err := p.findEntry(db, pkg.ID); err != nil {
 		return nil, err
@@ -194,7 +199,7 @@ func (p *Pool) AddDelta(db libdb.Database, pkg *libeopkg.Package, mapping *Delta
 }
 
 // addPackageInternal used by both AddDelta and AddPackage for the main bulk of
-// the work
+// the work, refMut must be held
 func (p *Pool) addPackageInternal(db libdb.Database, pkg *libeopkg.Package, copyDisk bool, delta *DeltaInformation) (*PoolEntry, error) {
 	// Check if this is just a simple case of bumping the refcount
 	if entry, err := p.findEntry(db, pkg.ID); err != nil {
@@ -252,12 +257,18 @@ func (p *Pool) addPackageInternal(db libdb.Database, pkg *libeopkg.Package, copy
 // to actually push it on disk, or simply bump the ref count. Any file
 // passed to us is believed to be under our ownership now.
 func (p *Pool) AddPackage(db libdb.Database, pkg *libeopkg.Package, copy bool) (*PoolEntry, error) {
+	p.refMut.Lock()
+	defer p.refMut.Unlock()
+
 	return p.addPackageInternal(db, pkg, copy, nil)
 }
 
 // RefEntry will include the given eopkg if it doesn't yet exist, otherwise
 // it will simply increase the ref count by 1.
 func (p *Pool) RefEntry(db libdb.Database, id string) error {
+	p.refMut.Lock()
+	defer p.refMut.Unlock()
+
 	entry, err := p.GetEntry(db, id)
 	if err != nil {
 		return err
@@ -270,6 +281,9 @@ func (p *Pool) RefEntry(db libdb.Database, id string) error {
 // Should the refcount hit 0, the package will then be removed from the pool
 // storage.
 func (p *Pool) UnrefEntry(db libdb.Database, id string) error {
+	p.refMut.Lock()
+	defer p.refMut.Unlock()
+
 	pkgPath, err := p.unrefRecord(db, id)
 	if err != nil {
 		return err
@@ -281,7 +295,8 @@ func (p *Pool) UnrefEntry(db libdb.Database, id string) error {
 }
 
 // unrefRecord will drop a reference in the DB only. If it was the last one, the
-// path of the now unused pool file is returned.
+// path of the now unused pool file is returned. refMut must be held until that
+// has been removed.
 func (p *Pool) unrefRecord(db libdb.Database, id string) (string, error) {
 	entry, err := p.findEntry(db, id)
 	if err != nil || entry == nil {
diff --git a/src/ferryd/core/repo.go b/src/ferryd/core/repo.go
index 347f74e..0155ffe 100644
--- a/src/ferryd/core/repo.go
+++ b/src/ferryd/core/repo.go
@@ -248,6 +248,9 @@ func (r *RepositoryManager) DeleteRepo(db libdb.Database, pool *Pool, id string)
 	repo.insertMut.Lock()
 	defer repo.insertMut.Unlock()
 
+	pool.refMut.Lock()
+	defer pool.refMut.Unlock()
+
 	// Pool files which lost their last reference
 	var unusedPaths []string
 
-- 
2.43.0


From eba4f7f8474ec187e0768a5581c1774377adf82f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:57 +0000
Subject: [PATCH 15/43] fix: only use the table of loaded repositories under
 its lock

---
 src/ferryd/core/repo.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/ferryd/core/repo.go b/src/ferryd/core/repo.go
index 0155ffe..757412c 100644
--- a/src/ferryd/core/repo.go
+++ b/src/ferryd/core/repo.go
@@ -175,6 +175,14 @@ func (r *RepositoryManager) GetRepos(db libdb.Database) ([]*Repository, error) {
 // GetRepo will attempt to get the named repo if it exists, otherwise
 // return an error. This is a transactional helper to make the API simpler
 func (r *RepositoryManager) GetRepo(db libdb.Database, id string) (*Repository, error) {
+	r.repoLock.Lock()
+	defer r.repoLock.Unlock()
+
+	return r.getRepoLocked(db, id)
+}
+
+// getRepoLocked is GetRepo for those who already hold the repoLock
+func (r *RepositoryManager) getRepoLocked(db libdb.Database, id string) (*Repository, error) {
 	// Cache each repository.
 	if repo, ok := r.repos[id]; ok {
 		return repo, nil
@@ -203,7 +211,7 @@ func (r *RepositoryManager) CreateRepo(db libdb.Database, id string) (*Repositor
 	r.repoLock.Lock()
 	defer r.repoLock.Unlock()
 
-	if _, err := r.GetRepo(db, id); err == nil {
+	if _, err := r.getRepoLocked(db, id); err == nil {
 		return nil, fmt.Errorf("The specified repository '%s' already exists", id)
 	}
 
@@ -240,7 +248,7 @@ func (r *RepositoryManager) DeleteRepo(db libdb.Database, pool *Pool, id string)
 	r.repoLock.Lock()
 	defer r.repoLock.Unlock()
 
-	repo, err := r.GetRepo(db, id)
+	repo, err := r.getRepoLocked(db, id)
 	if err != nil {
 		return fmt.Errorf("The specified repository '%s' does not exist", id)
 	}
-- 
2.43.0


From 211f93c6e23384a4653962cd86fce11234c487d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:25 +0000
Subject: [PATCH 16/43] fix: keep buckets apart whose names start with the same
 characters

---
 src/libdb/leveldb.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/libdb/leveldb.go b/src/libdb/leveldb.go
index 4dee577..de19788 100644
--- a/src/libdb/leveldb.go
+++ b/src/libdb/leveldb.go
@@ -56,7 +56,7 @@ func newLevelDBHandle(storagePath string) (*levelDb, error) {
 	handle.db = ldb
 	handle.prefix = []byte("|rootBucket|")
 	handle.keyPrefix = []byte("|rootBucket|-")
-	handle.prefixBytes = util.BytesPrefix(handle.prefix)
+	handle.prefixBytes = util.BytesPrefix(handle.keyPrefix)
 	handle.seqLock = &sync.Mutex{}
 	handle.initClosable()
 	return handle, nil
@@ -153,11 +153,12 @@ func (l *levelDbHandle) Bucket(id []byte) Database {
 	} else {
 		newID = []byte(fmt.Sprintf("%s-%s", string(bucketPrefix), id))
 	}
+	keyPrefix := []byte(fmt.Sprintf("%s-", string(newID)))
 	ret := &levelDbHandle{
 		db:          l.db,
 		prefix:      newID,
-		keyPrefix:   []byte(fmt.Sprintf("%s-", string(newID))),
-		prefixBytes: util.BytesPrefix(newID),
+		keyPrefix:   keyPrefix,
+		prefixBytes: util.BytesPrefix(keyPrefix),
 		batch:       l.batch,
 		seqLock:     l.seqLock,
 	}
-- 
2.43.0


From 4e6d3ea97bfe959604fdf7252c45cb37bdf2c676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:27 +0000
Subject: [PATCH 17/43] fix: execute queued delta jobs

---
 src/ferryd/jobs/main.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ferryd/jobs/main.go b/src/ferryd/jobs/main.go
index 6f36580..b74a466 100644
--- a/src/ferryd/jobs/main.go
+++ b/src/ferryd/jobs/main.go
@@ -146,6 +146,10 @@ func NewJobHandler(j *JobEntry) (JobHandler, error) {
 		return NewCreateRepoJobHandler(j)
 	case DeleteRepo:
 		return NewDeleteRepoJobHandler(j)
+	case Delta:
+		return NewDeltaJobHandler(j, false)
+	case DeltaIndex:
+		return NewDeltaJobHandler(j, true)
 	case DeltaRepo:
 		return NewDeltaRepoJobHandler(j)
 	case IndexRepo:
-- 
2.43.0


From 941fe863461be7d89cd98ecda21ba40e063378c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:30 +0000
Subject: [PATCH 18/43] fix: report a missing base directory when opening the
 job store

---
 src/ferryd/jobs/store.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ferryd/jobs/store.go b/src/ferryd/jobs/store.go
index 292070b..0ed90f8 100644
--- a/src/ferryd/jobs/store.go
+++ b/src/ferryd/jobs/store.go
@@ -72,6 +72,9 @@ type IndexRecord struct {
 // NewStore creates a fully initialized JobStore and sets up Bolt Buckets as needed
 func NewStore(path string) (*JobStore, error) {
 	ctx, err := core.NewContext(path)
+	if err != nil {
+		return nil, err
+	}
 
 	// Open the database if we can
 	db, err := libdb.Open(ctx.JobDbPath)
-- 
2.43.0


From a73bc0d2d7105496579aa57fe15057773d2d84f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:32 +0000
Subject: [PATCH 19/43] fix: report jobs that could not be queued

---
 src/ferryd/handlers.go         | 29 ++++++++++++++++++-----------
 src/ferryd/jobs/delta_repo.go  |  4 +++-
 src/ferryd/jobs/processor.go   |  7 +++----
 src/ferryd/jobs/transit_job.go |  4 +++-
 src/ferryd/monitor.go          |  7 ++++++-
 5 files changed, 33 insertions(+), 18 deletions(-)

diff --git a/src/ferryd/handlers.go b/src/ferryd/handlers.go
index 09b19a8..edb331d 100644
--- a/src/ferryd/handlers.go
+++ b/src/ferryd/handlers.go
@@ -140,13 +140,20 @@ func (s *Server) GetPoolItems(w http.ResponseWriter, r *http.Request, _ httprout
 	w.Write(buf.Bytes())
 }
 
+// pushJob will queue the job, or let the client know that we couldn't
+func (s *Server) pushJob(w http.ResponseWriter, job *jobs.JobEntry) {
+	if err := s.jproc.PushJob(job); err != nil {
+		http.Error(w, err.Error(), http.StatusInternalServerError)
+	}
+}
+
 // CreateRepo will handle remote requests for repository creation
 func (s *Server) CreateRepo(w http.ResponseWriter, r *http.Request, p httprouter.Params) {
 	id := p.ByName("id")
 	log.WithFields(log.Fields{
 		"id": id,
 	}).Info("Repository creation requested")
-	s.jproc.PushJob(jobs.NewCreateRepoJob(id))
+	s.pushJob(w, jobs.NewCreateRepoJob(id))
 }
 
 // DeleteRepo will handle remote requests for repository deletion
@@ -155,7 +162,7 @@ func (s *Server) DeleteRepo(w http.ResponseWriter, r *http.Request, p httprouter
 	log.WithFields(log.Fields{
 		"id": id,
 	}).Info("Repository deletion requested")
-	s.jproc.PushJob(jobs.NewDeleteRepoJob(id))
+	s.pushJob(w, jobs.NewDeleteRepoJob(id))
 }
 
 // DeltaRepo will handle remote requests for repository deltaing
@@ -164,7 +171,7 @@ func (s *Server) DeltaRepo(w http.ResponseWriter, r *http.Request, p httprouter.
 	log.WithFields(log.Fields{
 		"id": id,
 	}).Info("Repository delta requested")
-	s.jproc.PushJob(jobs.NewDeltaRepoJob(id))
+	s.pushJob(w, jobs.NewDeltaRepoJob(id))
 }
 
 // IndexRepo will handle remote requests for repository indexing
@@ -173,7 +180,7 @@ func (s *Server) IndexRepo(w http.ResponseWriter, r *http.Request, p httprouter.
 	log.WithFields(log.Fields{
 		"id": id,
 	}).Info("Repository indexing requested")
-	s.jproc.PushJob(jobs.NewIndexRepoJob(id))
+	s.pushJob(w, jobs.NewIndexRepoJob(id))
 }
 
 // ImportPackages will bulk-import the packages in the request
@@ -192,7 +199,7 @@ func (s *Server) ImportPackages(w http.ResponseWriter, r *http.Request, p httpro
 		"npackages": len(req.Path),
 	}).Info("Repository bulk import requested")
 
-	s.jproc.PushJob(jobs.NewBulkAddJob(id, req.Path))
+	s.pushJob(w, jobs.NewBulkAddJob(id, req.Path))
 }
 
 // CloneRepo will proxy a job to clone an existing repository
@@ -212,7 +219,7 @@ func (s *Server) CloneRepo(w http.ResponseWriter, r *http.Request, p httprouter.
 		"fullClone": req.CopyAll,
 	}).Info("Repository clone requested")
 
-	s.jproc.PushJob(jobs.NewCloneRepoJob(id, req.CloneName, req.CopyAll))
+	s.pushJob(w, jobs.NewCloneRepoJob(id, req.CloneName, req.CopyAll))
 }
 
 // PullRepo will proxy a job to pull an existing repository
@@ -231,7 +238,7 @@ func (s *Server) PullRepo(w http.ResponseWriter, r *http.Request, p httprouter.P
 		"target": target,
 	}).Info("Repository pull requested")
 
-	s.jproc.PushJob(jobs.NewPullRepoJob(req.Source, target))
+	s.pushJob(w, jobs.NewPullRepoJob(req.Source, target))
 }
 
 // RemoveSource will proxy a job to remove an existing set of packages by source name + relno
@@ -251,7 +258,7 @@ func (s *Server) RemoveSource(w http.ResponseWriter, r *http.Request, p httprout
 		"repo":    target,
 	}).Info("Source removal requested")
 
-	s.jproc.PushJob(jobs.NewRemoveSourceJob(target, req.Source, req.Release))
+	s.pushJob(w, jobs.NewRemoveSourceJob(target, req.Source, req.Release))
 }
 
 // CopySource will proxy a job to copy a package by source&relno into target
@@ -273,7 +280,7 @@ func (s *Server) CopySource(w http.ResponseWriter, r *http.Request, p httprouter
 		"skipIndex":  req.SkipIndex,
 	}).Info("Source copy requested")
 
-	s.jproc.PushJob(jobs.NewCopySourceJob(sourceRepo, req.Target, req.Source, req.Release, req.SkipIndex))
+	s.pushJob(w, jobs.NewCopySourceJob(sourceRepo, req.Target, req.Source, req.Release, req.SkipIndex))
 }
 
 // TrimPackages will proxy a job to remove excess fat from a repo
@@ -292,7 +299,7 @@ func (s *Server) TrimPackages(w http.ResponseWriter, r *http.Request, p httprout
 		"maxKeep": req.MaxKeep,
 	}).Info("Package trim requested")
 
-	s.jproc.PushJob(jobs.NewTrimPackagesJob(target, req.MaxKeep))
+	s.pushJob(w, jobs.NewTrimPackagesJob(target, req.MaxKeep))
 }
 
 // TrimObsolete will proxy a job to remove obsolete packages from a repo
@@ -301,7 +308,7 @@ func (s *Server) TrimObsolete(w http.ResponseWriter, r *http.Request, p httprout
 	log.WithFields(log.Fields{
 		"id": id,
 	}).Info("Obsoletes trim requested")
-	s.jproc.PushJob(jobs.NewTrimObsoleteJob(id))
+	s.pushJob(w, jobs.NewTrimObsoleteJob(id))
 }
 
 // ResetCompleted will ask the job store to remove completed jobs. This is blocking.
diff --git a/src/ferryd/jobs/delta_repo.go b/src/ferryd/jobs/delta_repo.go
index 60f70ba..44b12cf 100644
--- a/src/ferryd/jobs/delta_repo.go
+++ b/src/ferryd/jobs/delta_repo.go
@@ -72,7 +72,9 @@ func (j *DeltaRepoJobHandler) Execute(jproc *Processor, manager *core.Manager) e
 
 	// Fire off parallel delta jobs for every package in this repository
 	for _, name := range packageNames {
-		jproc.PushJob(NewDeltaJob(j.repoID, name))
+		if err := jproc.PushJob(NewDeltaJob(j.repoID, name)); err != nil {
+			return err
+		}
 	}
 
 	return nil
diff --git a/src/ferryd/jobs/processor.go b/src/ferryd/jobs/processor.go
index a62515e..54e03f0 100644
--- a/src/ferryd/jobs/processor.go
+++ b/src/ferryd/jobs/processor.go
@@ -107,10 +107,9 @@ func (j *Processor) Begin() {
 
 // PushJob will automatically determine which queue to push a job to and place
 // it there for immediate execution
-func (j *Processor) PushJob(job *JobEntry) {
+func (j *Processor) PushJob(job *JobEntry) error {
 	if job.sequential {
-		j.store.PushSequentialJob(job)
-	} else {
-		j.store.PushAsyncJob(job)
+		return j.store.PushSequentialJob(job)
 	}
+	return j.store.PushAsyncJob(job)
 }
diff --git a/src/ferryd/jobs/transit_job.go b/src/ferryd/jobs/transit_job.go
index 5701274..07620fe 100644
--- a/src/ferryd/jobs/transit_job.go
+++ b/src/ferryd/jobs/transit_job.go
@@ -111,7 +111,9 @@ func (j *TransitJobHandler) Execute(jproc *Processor, manager *core.Manager) err
 		if ent != nil {
 			return err
 		}
-		jproc.PushJob(NewDeltaIndexJob(repo, p.Name))
+		if err := jproc.PushJob(NewDeltaIndexJob(repo, p.Name)); err != nil {
+			return err
+		}
 	}
 
 	return nil
diff --git a/src/ferryd/monitor.go b/src/ferryd/monitor.go
index 6e7870b..fb14db1 100644
--- a/src/ferryd/monitor.go
+++ b/src/ferryd/monitor.go
@@ -91,5 +91,10 @@ func (s *Server) processTransitManifest(name string) {
 	log.WithFields(log.Fields{
 		"id": name,
 	}).Info("Received transit manifest upload")
-	s.jproc.PushJob(jobs.NewTransitJob(fullpath))
+	if err := s.jproc.PushJob(jobs.NewTransitJob(fullpath)); err != nil {
+		log.WithFields(log.Fields{
+			"id":    name,
+			"error": err,
+		}).Error("Failed to queue transit manifest upload")
+	}
 }
-- 
2.43.0


From 80785be448d91d674d5c48c9b2395656ab7a93b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:35 +0000
Subject: [PATCH 20/43] fix: escape characters split across writes correctly

---
 src/ferryd/core/escape.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/ferryd/core/escape.go b/src/ferryd/core/escape.go
index c16991f..b2adc42 100644
--- a/src/ferryd/core/escape.go
+++ b/src/ferryd/core/escape.go
@@ -9,7 +9,8 @@ import (
 
 // EscapedWriter is a writer that escapes non-ASCII sequences written to it using HTML encoding.
 type EscapedWriter struct {
-	w io.Writer
+	w       io.Writer
+	pending []byte // Start of a character whose rest is yet to be written
 }
 
 // NewEscapedWriter returns an initialised EscapedWriter.
@@ -20,13 +21,15 @@ func NewEscapedWriter(w io.Writer) *EscapedWriter {
 // Write implements [io.Writer].
 func (e *EscapedWriter) Write(b []byte) (n int, err error) {
 	n = len(b)
+	b = append(e.pending, b...)
 	escaped := make([]byte, 0, len(b))
 
-	for len(b) > 0 {
+	for utf8.FullRune(b) {
 		r, size := utf8.DecodeRune(b)
 		escaped = e.appendRune(escaped, r)
 		b = b[size:]
 	}
+	e.pending = append([]byte(nil), b...)
 
 	if _, err = e.w.Write(escaped); err != nil {
 		return 0, fmt.Errorf("failed to write escaped bytes: %w", err)
-- 
2.43.0


From be73135520839b5ec57a1496b155c35d7aea07e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:38 +0000
Subject: [PATCH 21/43] fix: do not crash on a Cloudflare failure without a
 reason

---
 src/ferryd/core/purge_cloudflare.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ferryd/core/purge_cloudflare.go b/src/ferryd/core/purge_cloudflare.go
index dc545bb..6e555fa 100644
--- a/src/ferryd/core/purge_cloudflare.go
+++ b/src/ferryd/core/purge_cloudflare.go
@@ -69,5 +69,8 @@ func purgeCloudflare(target string) error {
 	if result.Success {
 		return nil
 	}
+	if len(result.Errors) == 0 {
+		return errors.New("Cloudflare reported failure without a reason")
+	}
 	return errors.New("Cloudflare response " + result.Errors[0].Message)
 }
-- 
2.43.0


From f38ddaafb1120015db20d0a9ba44408e2f6197c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:41 +0000
Subject: [PATCH 22/43] fix: do not crash on packages without a summary or
 description

---
 src/libeopkg/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libeopkg/main.go b/src/libeopkg/main.go
index 4cf8ee0..27ce317 100644
--- a/src/libeopkg/main.go
+++ b/src/libeopkg/main.go
@@ -47,7 +47,7 @@ type LocalisedField struct {
 // FixMissingLocalLanguage should be used on a set of LocalisedField to restore
 // the missing "en" that is required in the very first field set.
 func FixMissingLocalLanguage(fields *[]LocalisedField) {
-	if fields == nil {
+	if fields == nil || len(*fields) == 0 {
 		return
 	}
 	field := &(*fields)[0]
-- 
2.43.0


From 3ea6f6281a6caa4449c2fa26b7836b60508b1897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:15 +0000
Subject: [PATCH 23/43] fix: refuse packages without a history or with names
 that are unsafe in paths

---
 src/libeopkg/metadata.go | 19 +++++++++++++++++++
 src/libeopkg/package.go  |  3 +++
 2 files changed, 22 insertions(+)

diff --git a/src/libeopkg/metadata.go b/src/libeopkg/metadata.go
index 0ee0ef4..f2b743a 100644
--- a/src/libeopkg/metadata.go
+++ b/src/libeopkg/metadata.go
@@ -149,6 +149,25 @@ type MetaPackage struct {
 	Source Source // Duplicate source to satisfy indexing
 }
 
+// isSane makes sure that the package has the history and names we rely upon, and
+// that those can be used as file names
+func (m *MetaPackage) isSane() bool {
+	if len(m.History) == 0 {
+		return false
+	}
+	for _, name := range []string{m.Name, m.Source.Name} {
+		if name == "" || name == "." || name == ".." {
+			return false
+		}
+	}
+	for _, name := range []string{m.Name, m.Source.Name, m.GetVersion(), m.DistributionRelease, m.Architecture} {
+		if strings.ContainsRune(name, filepath.Separator) {
+			return false
+		}
+	}
+	return true
+}
+
 // GetID will return the package ID for ferryd
 func (m *MetaPackage) GetID() string {
 	return filepath.Base(m.PackageURI)
diff --git a/src/libeopkg/package.go b/src/libeopkg/package.go
index e6aa1ab..6385b89 100644
--- a/src/libeopkg/package.go
+++ b/src/libeopkg/package.go
@@ -110,6 +110,9 @@ func (p *Package) ReadMetadata() error {
 	if err = dec.Decode(metadata); err != nil {
 		return err
 	}
+	if !metadata.Package.isSane() {
+		return ErrEopkgCorrupted
+	}
 	p.Meta = metadata
 	// Clean up extra junk
 	for i := range p.Meta.Package.Summary {
-- 
2.43.0


From ec4db33dae78e98e56f8b7d1e1b5835c8f1112a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:17 +0000
Subject: [PATCH 24/43] fix: close the packages of an impossible delta

---
 src/libeopkg/delta.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/libeopkg/delta.go b/src/libeopkg/delta.go
index 3f0c75f..5b90cce 100644
--- a/src/libeopkg/delta.go
+++ b/src/libeopkg/delta.go
@@ -77,7 +77,8 @@ func NewDeltaProducer(baseDir string, pkgOld string, pkgNew string) (*DeltaProdu
 	}
 
 	if !IsDeltaPossible(&ret.old.Meta.Package, &ret.new.Meta.Package) {
-		return nil, ErrMismatchedDelta
+		err = ErrMismatchedDelta
+		return nil, err
 	}
 
 	// Form a unique directory entry
-- 
2.43.0


From 8abee103debb4a21bb8b809bef232b1206482a7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:20 +0000
Subject: [PATCH 25/43] fix: close and check the files written for a delta

---
 src/libeopkg/delta.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/libeopkg/delta.go b/src/libeopkg/delta.go
index 5b90cce..7cd571a 100644
--- a/src/libeopkg/delta.go
+++ b/src/libeopkg/delta.go
@@ -179,14 +179,16 @@ func (d *DeltaProducer) produceInstallBall() (string, error) {
 	if err != nil {
 		return "", err
 	}
+	defer outF.Close()
 	tw = tar.NewWriter(outF)
 
 	if err = d.copyInstallPartial(tw); err != nil {
 		return filename, err
 	}
 
-	tw.Flush()
-	tw.Close()
+	if err = tw.Close(); err != nil {
+		return "", err
+	}
 
 	if err = XzFile(installTar, false); err != nil {
 		return "", err
@@ -282,12 +284,12 @@ func (d *DeltaProducer) pushInstallBall(zipFile *zip.Writer, xzFileName string)
 	if err != nil {
 		return err
 	}
+	defer f.Close()
 	// Stat for header
 	fst, err := f.Stat()
 	if err != nil {
 		return err
 	}
-	defer f.Close()
 
 	fh, err := zip.FileInfoHeader(fst)
 	if err != nil {
@@ -332,6 +334,7 @@ func (d *DeltaProducer) Commit() (string, error) {
 	if err != nil {
 		return "", err
 	}
+	defer out.Close()
 	zipFileName = out.Name()
 	zip := zip.NewWriter(out)
 	if err = d.copyZipPartial(zip); err != nil {
-- 
2.43.0


From 4ccc2bd37d2c31583dcd6c176318451309832922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:23 +0000
Subject: [PATCH 26/43] fix: close the database if the incoming directory can't
 be created

---
 src/ferryd/core/manager.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ferryd/core/manager.go b/src/ferryd/core/manager.go
index f7ef8e3..d9268c8 100644
--- a/src/ferryd/core/manager.go
+++ b/src/ferryd/core/manager.go
@@ -50,6 +50,7 @@ func NewManager(path string) (*Manager, error) {
 	// Need incoming to monitor uploads
 	incomingPath := filepath.Join(ctx.BaseDir, IncomingPathComponent)
 	if err := os.MkdirAll(incomingPath, 00755); err != nil {
+		db.Close()
 		return nil, err
 	}
 
-- 
2.43.0


From 5c9cdfda70217d8da8c2ff5d2a2ebc7aa594bb2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:26 +0000
Subject: [PATCH 27/43] fix: refuse repository names that are unsafe in paths

---
 src/ferryd/core/repo.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ferryd/core/repo.go b/src/ferryd/core/repo.go
index 757412c..7d560f4 100644
--- a/src/ferryd/core/repo.go
+++ b/src/ferryd/core/repo.go
@@ -211,6 +211,11 @@ func (r *RepositoryManager) CreateRepo(db libdb.Database, id string) (*Repositor
 	r.repoLock.Lock()
 	defer r.repoLock.Unlock()
 
+	// It's going to be the name of a directory
+	if id == "" || id == "." || id == ".." || strings.ContainsRune(id, filepath.Separator) {
+		return nil, fmt.Errorf("The specified repository name '%s' is invalid", id)
+	}
+
 	if _, err := r.getRepoLocked(db, id); err == nil {
 		return nil, fmt.Errorf("The specified repository '%s' already exists", id)
 	}
-- 
2.43.0


From 6403d9abd0594ffd67bc298cf9916911f040208d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:29 +0000
Subject: [PATCH 28/43] fix: refuse uploads that list files outside of the
 incoming directory

---
 src/ferryd/core/transit_manifest.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ferryd/core/transit_manifest.go b/src/ferryd/core/transit_manifest.go
index 3088258..39e7d05 100644
--- a/src/ferryd/core/transit_manifest.go
+++ b/src/ferryd/core/transit_manifest.go
@@ -149,6 +149,11 @@ func NewTransitManifest(path string) (*TransitManifest, error) {
 			return nil, ErrInvalidPayload
 		}
 
+		// Must be right beside the manifest
+		if f.Path != filepath.Base(f.Path) {
+			return nil, ErrInvalidPayload
+		}
+
 		if !strings.HasSuffix(f.Path, ".eopkg") {
 			return nil, ErrIllegalUpload
 		}
-- 
2.43.0


From 1665ee4c79c96c1f04ff421a8605c317a5f0f549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:31 +0000
Subject: [PATCH 29/43] fix: close the upload watcher

---
 src/ferryd/monitor.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ferryd/monitor.go b/src/ferryd/monitor.go
index fb14db1..aadc23e 100644
--- a/src/ferryd/monitor.go
+++ b/src/ferryd/monitor.go
@@ -36,6 +36,7 @@ func (s *Server) InitWatcher() error {
 	}
 	// Monitor the incoming dir
 	if err = watcher.Add(s.manager.IncomingPath); err != nil {
+		watcher.Close()
 		return err
 	}
 	s.watchChan = make(chan bool)
@@ -72,6 +73,7 @@ func (s *Server) WatchIncoming() {
 func (s *Server) StopWatching() {
 	s.watchChan <- true
 	s.watchGroup.Wait()
+	s.watcher.Close()
 }
 
 // processTransitManifest is invoked when a .tram file is closed in our incoming
-- 
2.43.0


From a551efbd000bd83606b175569b1b38e8a3887ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:33 +0000
Subject: [PATCH 30/43] fix: keep watching uploads after a watch error

---
 src/ferryd/monitor.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ferryd/monitor.go b/src/ferryd/monitor.go
index aadc23e..3fd1c8a 100644
--- a/src/ferryd/monitor.go
+++ b/src/ferryd/monitor.go
@@ -62,6 +62,10 @@ func (s *Server) WatchIncoming() {
 						s.processTransitManifest(filepath.Base(event.Name))
 					}
 				}
+			case err := <-s.watcher.Errors:
+				log.WithFields(log.Fields{
+					"error": err,
+				}).Error("Failed to watch incoming directory")
 			case <-s.watchChan:
 				return
 			}
-- 
2.43.0


From d73e04c553526a111b2e7b8111ff6310a63cf262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:36 +0000
Subject: [PATCH 31/43] fix: do not leave digits of the previous process ID in
 the lock file

---
 src/ferryd/lockfile.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ferryd/lockfile.go b/src/ferryd/lockfile.go
index ec7746a..bf2d4fc 100644
--- a/src/ferryd/lockfile.go
+++ b/src/ferryd/lockfile.go
@@ -177,6 +177,10 @@ func (l *LockFile) writePID() error {
 	}
 	l.conlock.Lock()
 	defer l.conlock.Unlock()
+	// Forget the previous owner
+	if err := l.fd.Truncate(0); err != nil {
+		return err
+	}
 	if _, err := fmt.Fprintf(l.fd, "%d", l.ourPID); err != nil {
 		return err
 	}
-- 
2.43.0


From 69c72550c8d8a2fdb1fa710364434afc13186b0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:38 +0000
Subject: [PATCH 32/43] fix: never let two daemons lock the same directory

---
 src/ferryd/lockfile.go | 23 +++++++++++++++++++----
 src/ferryd/server.go   |  1 -
 2 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/ferryd/lockfile.go b/src/ferryd/lockfile.go
index bf2d4fc..bea156d 100644
--- a/src/ferryd/lockfile.go
+++ b/src/ferryd/lockfile.go
@@ -121,6 +121,12 @@ func (l *LockFile) Lock() error {
 		return err
 	}
 
+	// The previous owner may just have removed it
+	if !l.isCurrent() {
+		l.conlock.Unlock()
+		return ErrDeadLockFile
+	}
+
 	l.owner = true
 
 	l.conlock.Unlock()
@@ -133,6 +139,16 @@ func (l *LockFile) Lock() error {
 	return nil
 }
 
+// isCurrent determines whether the file we have open is still the one at our path
+func (l *LockFile) isCurrent() bool {
+	ours, err := l.fd.Stat()
+	if err != nil {
+		return false
+	}
+	current, err := os.Stat(l.path)
+	return err == nil && os.SameFile(ours, current)
+}
+
 // Unlock will attempt to unlock the file, or return an error if this fails
 func (l *LockFile) Unlock() error {
 	if l.fd == nil || !l.owner {
@@ -195,9 +211,8 @@ func (l *LockFile) Clean() error {
 		return nil
 	}
 
+	// Closing it gives up the lock, so it has to be gone by then
+	err := os.Remove(l.path)
 	l.fd.Close()
-	if l.owner {
-		return os.Remove(l.path)
-	}
-	return nil
+	return err
 }
diff --git a/src/ferryd/server.go b/src/ferryd/server.go
index 1fecf22..059b00d 100644
--- a/src/ferryd/server.go
+++ b/src/ferryd/server.go
@@ -232,7 +232,6 @@ func (s *Server) Close() {
 		return
 	}
 	if s.lockFile != nil {
-		s.lockFile.Unlock()
 		s.lockFile.Clean()
 		s.lockFile = nil
 	}
-- 
2.43.0


From 0b067c68b03fd471f59bea50256288b323427980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:40 +0000
Subject: [PATCH 33/43] fix: hold the lock file until the daemon is done with
 its directory

---
 src/ferryd/server.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/ferryd/server.go b/src/ferryd/server.go
index 059b00d..f05868c 100644
--- a/src/ferryd/server.go
+++ b/src/ferryd/server.go
@@ -231,10 +231,6 @@ func (s *Server) Close() {
 	if !s.running {
 		return
 	}
-	if s.lockFile != nil {
-		s.lockFile.Clean()
-		s.lockFile = nil
-	}
 	s.StopWatching()
 	s.jproc.Close()
 	s.store.Close()
@@ -246,4 +242,10 @@ func (s *Server) Close() {
 	if !systemdEnabled {
 		os.Remove(s.socketPath)
 	}
+
+	// Now someone else may take over
+	if s.lockFile != nil {
+		s.lockFile.Clean()
+		s.lockFile = nil
+	}
 }
-- 
2.43.0


From 7212e3ca91b9894609549784e3c3beee2a2cf72b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:42 +0000
Subject: [PATCH 34/43] fix: do not crash on shutdown while a request is active

---
 src/ferryd/server.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ferryd/server.go b/src/ferryd/server.go
index f05868c..63ce6fd 100644
--- a/src/ferryd/server.go
+++ b/src/ferryd/server.go
@@ -17,6 +17,7 @@
 package main
 
 import (
+	"context"
 	"errors"
 	"net"
 	"net/http"
@@ -236,7 +237,7 @@ func (s *Server) Close() {
 	s.store.Close()
 	s.manager.Close()
 	s.running = false
-	s.srv.Shutdown(nil)
+	s.srv.Shutdown(context.Background())
 
 	// We don't technically fully own it if systemd created it
 	if !systemdEnabled {
-- 
2.43.0


From 6d46760f2b7ee4810e0b7e759d21b05cedfa874d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:05 +0000
Subject: [PATCH 35/43] fix: send repository names with special characters
 intact

---
 src/libferry/main.go | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/src/libferry/main.go b/src/libferry/main.go
index b06a13d..bb199b0 100644
--- a/src/libferry/main.go
+++ b/src/libferry/main.go
@@ -24,6 +24,7 @@ import (
 	"fmt"
 	"net"
 	"net/http"
+	"net/url"
 	"time"
 )
 
@@ -143,25 +144,25 @@ func (c *Client) postBasicResponse(url string, inT interface{}, outT interface{}
 
 // CreateRepo will attempt to create a repository in the daemon
 func (c *Client) CreateRepo(id string) error {
-	uri := c.formURI("/api/v1/create/repo/" + id)
+	uri := c.formURI("/api/v1/create/repo/" + url.PathEscape(id))
 	return c.getBasicResponse(uri, &Response{})
 }
 
 // DeleteRepo will attempt to delete a remote repository
 func (c *Client) DeleteRepo(id string) error {
-	uri := c.formURI("/api/v1/remove/repo/" + id)
+	uri := c.formURI("/api/v1/remove/repo/" + url.PathEscape(id))
 	return c.getBasicResponse(uri, &Response{})
 }
 
 // DeltaRepo will attempt to reproduce deltas in the given repo
 func (c *Client) DeltaRepo(id string) error {
-	uri := c.formURI("/api/v1/delta/repo/" + id)
+	uri := c.formURI("/api/v1/delta/repo/" + url.PathEscape(id))
 	return c.getBasicResponse(uri, &Response{})
 }
 
 // IndexRepo will attempt to index a repository in the daemon
 func (c *Client) IndexRepo(id string) error {
-	uri := c.formURI("/api/v1/index/repo/" + id)
+	uri := c.formURI("/api/v1/index/repo/" + url.PathEscape(id))
 	return c.getBasicResponse(uri, &Response{})
 }
 
@@ -171,7 +172,7 @@ func (c *Client) ImportPackages(repoID string, pkgs []string) error {
 	iq := ImportRequest{
 		Path: pkgs,
 	}
-	return c.postBasicResponse(c.formURI("api/v1/import/"+repoID), &iq, &Response{})
+	return c.postBasicResponse(c.formURI("api/v1/import/"+url.PathEscape(repoID)), &iq, &Response{})
 }
 
 // CloneRepo will ask the backend to clone an existing repository into a new repository
@@ -180,7 +181,7 @@ func (c *Client) CloneRepo(repoID, newClone string, copyAll bool) error {
 		CloneName: newClone,
 		CopyAll:   copyAll,
 	}
-	return c.postBasicResponse(c.formURI("api/v1/clone/"+repoID), &cq, &Response{})
+	return c.postBasicResponse(c.formURI("api/v1/clone/"+url.PathEscape(repoID)), &cq, &Response{})
 }
 
 // PullRepo will ask the backend to pull from target into repoID
@@ -188,7 +189,7 @@ func (c *Client) PullRepo(sourceID, targetID string) error {
 	pq := PullRepoRequest{
 		Source: sourceID,
 	}
-	return c.postBasicResponse(c.formURI("api/v1/pull/"+targetID), &pq, &Response{})
+	return c.postBasicResponse(c.formURI("api/v1/pull/"+url.PathEscape(targetID)), &pq, &Response{})
 }
 
 // RemoveSource will ask the backend to remove packages by source name
@@ -197,7 +198,7 @@ func (c *Client) RemoveSource(repoID, sourceID string, relno int) error {
 		Source:  sourceID,
 		Release: relno,
 	}
-	return c.postBasicResponse(c.formURI("api/v1/remove/source/"+repoID), &sq, &Response{})
+	return c.postBasicResponse(c.formURI("api/v1/remove/source/"+url.PathEscape(repoID)), &sq, &Response{})
 }
 
 // CopySource will ask the backend to copy packages by source name
@@ -208,7 +209,7 @@ func (c *Client) CopySource(fromID, targetID, sourceID string, relno int, skipIn
 		Release:   relno,
 		SkipIndex: skipIndex,
 	}
-	return c.postBasicResponse(c.formURI("api/v1/copy/source/"+fromID), &sq, &Response{})
+	return c.postBasicResponse(c.formURI("api/v1/copy/source/"+url.PathEscape(fromID)), &sq, &Response{})
 }
 
 // TrimPackages will request that packages in the repo are trimmed to maxKeep
@@ -216,12 +217,12 @@ func (c *Client) TrimPackages(repoID string, maxKeep int) error {
 	tq := TrimPackagesRequest{
 		MaxKeep: maxKeep,
 	}
-	return c.postBasicResponse(c.formURI("api/v1/trim/packages/"+repoID), &tq, &Response{})
+	return c.postBasicResponse(c.formURI("api/v1/trim/packages/"+url.PathEscape(repoID)), &tq, &Response{})
 }
 
 // TrimObsolete will request that all packages marked obsolete are removed
 func (c *Client) TrimObsolete(repoID string) error {
-	uri := c.formURI("/api/v1/trim/obsoletes/" + repoID)
+	uri := c.formURI("/api/v1/trim/obsoletes/" + url.PathEscape(repoID))
 	return c.getBasicResponse(uri, &Response{})
 }
 
-- 
2.43.0


From 727c1adc414b67f241ef99b299b7a739fef79139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:02 +0000
Subject: [PATCH 36/43] fix: Release every delta that goes with the last build
 of a package

---
 src/ferryd/core/repo.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ferryd/core/repo.go b/src/ferryd/core/repo.go
index 7d560f4..8277e62 100644
--- a/src/ferryd/core/repo.go
+++ b/src/ferryd/core/repo.go
@@ -599,6 +599,8 @@ func (r *Repository) UnrefPackage(db libdb.Database, pool *Pool, pkgID string) e
 
 	// Is this package set now "empty"? Then remove it from our indexes
 	if len(entry.Available) < 1 {
+		// Deltas added after their own builds were removed go with the entry
+		staleDeltas = append(staleDeltas, remainDeltas...)
 		err = rootBucket.DeleteObject([]byte(entry.Name))
 	} else {
 		// Stuff it back into the DB with the modified bits in place.
-- 
2.43.0


From c2612408c0e3e0ae5b37162a4db95647eb9e81c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:51 +0000
Subject: [PATCH 37/43] fix: do not create a repository whose record could not
 be read or set up

---
 src/ferryd/core/repo.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/ferryd/core/repo.go b/src/ferryd/core/repo.go
index 8277e62..b5fea45 100644
--- a/src/ferryd/core/repo.go
+++ b/src/ferryd/core/repo.go
@@ -216,7 +216,12 @@ func (r *RepositoryManager) CreateRepo(db libdb.Database, id string) (*Repositor
 		return nil, fmt.Errorf("The specified repository name '%s' is invalid", id)
 	}
 
-	if _, err := r.getRepoLocked(db, id); err == nil {
+	rootBucket := db.Bucket([]byte(DatabaseBucketRepo))
+	exists, err := rootBucket.HasObject([]byte(id))
+	if err != nil {
+		return nil, err
+	}
+	if exists {
 		return nil, fmt.Errorf("The specified repository '%s' already exists", id)
 	}
 
@@ -227,7 +232,6 @@ func (r *RepositoryManager) CreateRepo(db libdb.Database, id string) (*Repositor
 	}
 
 	// Create the main sub-bucket for this repo
-	rootBucket := db.Bucket([]byte(DatabaseBucketRepo))
 	repo := Repository{
 		ID: id,
 	}
-- 
2.43.0


From 2f28c19504d7dc6571c52385a2db0bc237e1abda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:29 +0000
Subject: [PATCH 38/43] fix: trim -dbginfo packages that are listed as obsolete
 by their own name

---
 src/ferryd/core/repo.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ferryd/core/repo.go b/src/ferryd/core/repo.go
index b5fea45..8ee9c24 100644
--- a/src/ferryd/core/repo.go
+++ b/src/ferryd/core/repo.go
@@ -1247,7 +1247,7 @@ func (r *Repository) TrimObsolete(db libdb.Database, pool *Pool) error {
 
 			// Check if its obsolete, if its automatically obsolete through our
 			// dbginfo trick, warn in the console
-			if r.dist != nil && r.dist.IsObsolete(nom) {
+			if r.dist != nil && (r.dist.IsObsolete(nom) || r.dist.IsObsolete(poolEntry.Meta.Name)) {
 				if nom != entry.Name {
 					// Scream really loudly, but remove it because its "just" dbginfo.
 					log.WithFields(log.Fields{
-- 
2.43.0


From 5bfe996506a5cef4cb2d2ade03c03ceca21c8b08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:42 +0000
Subject: [PATCH 39/43] fix: remove a partially copied delta from the staging
 area

---
 src/ferryd/core/util.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/ferryd/core/util.go b/src/ferryd/core/util.go
index 56f0814..672cbeb 100644
--- a/src/ferryd/core/util.go
+++ b/src/ferryd/core/util.go
@@ -176,5 +176,9 @@ func ProduceDelta(tmpDir, oldPackage, newPackage, targetPath string) error {
 	// Always nuke the tmpfile
 	defer os.Remove(path)
 
-	return LinkOrCopyFile(path, targetPath, false)
+	if err = LinkOrCopyFile(path, targetPath, false); err != nil {
+		// Don't leave a partial copy to be mistaken for a finished delta
+		os.Remove(targetPath)
+	}
+	return err
 }
-- 
2.43.0


From ab1c67dd647ba3db68b53b89e29f860002903aee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:40 +0000
Subject: [PATCH 40/43] fix: don't take a long error reply for success in the
 client

---
 src/libferry/main.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/libferry/main.go b/src/libferry/main.go
index bb199b0..0f45830 100644
--- a/src/libferry/main.go
+++ b/src/libferry/main.go
@@ -109,11 +109,20 @@ func (c *Client) getBasicResponse(url string, outT interface{}) error {
 	}
 	fc := outT.(*Response)
 	if !fc.Error {
-		return nil
+		return checkStatus(resp)
 	}
 	return errors.New(fc.ErrorString)
 }
 
+// checkStatus will turn the status of an unsuccessful response into an error,
+// for responses whose body doesn't tell
+func checkStatus(resp *http.Response) error {
+	if resp.StatusCode < http.StatusBadRequest {
+		return nil
+	}
+	return errors.New(resp.Status)
+}
+
 // A helper to wrap the trivial functionality, chaining off
 // the appropriate errors, etc.
 func (c *Client) postBasicResponse(url string, inT interface{}, outT interface{}) error {
@@ -137,7 +146,7 @@ func (c *Client) postBasicResponse(url string, inT interface{}, outT interface{}
 
 	fc := outT.(*Response)
 	if !fc.Error {
-		return nil
+		return checkStatus(resp)
 	}
 	return errors.New(fc.ErrorString)
 }
-- 
2.43.0


From c92e6a0ab4662ffc90d698eb95ebe24a7ca04f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:48:51 +0000
Subject: [PATCH 41/43] fix: give every delta producer a work directory of its
 own

---
 src/libeopkg/delta.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/libeopkg/delta.go b/src/libeopkg/delta.go
index 7cd571a..03053a2 100644
--- a/src/libeopkg/delta.go
+++ b/src/libeopkg/delta.go
@@ -22,6 +22,7 @@ import (
 	"errors"
 	"fmt"
 	"io"
+	"io/ioutil"
 	"os"
 	"path/filepath"
 	"strings"
@@ -89,10 +90,13 @@ func NewDeltaProducer(baseDir string, pkgOld string, pkgNew string) (*DeltaProdu
 		ret.old.Meta.Package.GetRelease(),
 		ret.new.Meta.Package.GetRelease())
 
-	ret.baseDir = filepath.Join(baseDir, dirName)
-
 	// Make sure base directory actually exists
-	if err = os.MkdirAll(ret.baseDir, 00755); err != nil {
+	if err = os.MkdirAll(baseDir, 00755); err != nil {
+		return nil, err
+	}
+
+	// Never share it, another job may be producing the very same delta
+	if ret.baseDir, err = ioutil.TempDir(baseDir, dirName); err != nil {
 		return nil, err
 	}
 
-- 
2.43.0


From 822ce9098df6ce39e3081d385be6f90ae4c95926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:46:32 +0000
Subject: [PATCH 42/43] fix: close the listener when the server cannot be set
 up

---
 src/ferryd/server.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/ferryd/server.go b/src/ferryd/server.go
index 63ce6fd..73a4cb4 100644
--- a/src/ferryd/server.go
+++ b/src/ferryd/server.go
@@ -166,6 +166,13 @@ func (s *Server) Bind() error {
 		}
 		listener = l
 	}
+	bound := false
+	defer func() {
+		// Failed to set up, nobody will ever serve on this
+		if !bound {
+			listener.Close()
+		}
+	}()
 
 	m, e := core.NewManager(baseDir)
 	if e != nil {
@@ -199,6 +206,7 @@ func (s *Server) Bind() error {
 		}
 	}
 	s.socket = listener
+	bound = true
 	return nil
 }
 
-- 
2.43.0


From bbc708aa7d12d330a8092cf609b4692e3c2be213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:46:34 +0000
Subject: [PATCH 43/43] fix: close the lock file when it cannot be locked

---
 src/ferryd/server.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ferryd/server.go b/src/ferryd/server.go
index 73a4cb4..73d4996 100644
--- a/src/ferryd/server.go
+++ b/src/ferryd/server.go
@@ -86,6 +86,7 @@ func NewServer() (*Server, error) {
 
 	// Try to lock our lockfile now
 	if err := s.lockFile.Lock(); err != nil {
+		lfile.fd.Close()
 		return nil, err
 	}
 
-- 
2.43.0

