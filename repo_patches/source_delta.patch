From bdb9fe82ce5f0e2ceef6b4434e2494bdcb94400d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:17 +0000
Subject: [PATCH 01/32] fix: do not report an empty line after a file's final
 newline

Patterns that match the empty string (^$, \z, x*) reported a match on a
line that does not exist, one past the last line of the file.
---
 index/grep.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/index/grep.go b/index/grep.go
index d8af164..d185429 100644
--- a/index/grep.go
+++ b/index/grep.go
@@ -155,6 +155,10 @@ func (g *grepper) grep2(
 
 		// start of matched line.
 		str := bytes.LastIndex(buf[:m], nl) + 1
+		if str == len(buf) {
+			// the match is after the final newline, there is no such line.
+			return nil
+		}
 
 		//end of previous line
 		endl := str - 1
-- 
2.43.0


From 8a324a0bbd115edecd7693c19c8770cf16aaeb49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:17 +0000
Subject: [PATCH 02/32] fix: keep an empty first line in the context before a
 match

If the line right after the previous match (or the file's first line) was
empty it was dropped from the preceding context.
---
 index/grep.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/index/grep.go b/index/grep.go
index d185429..3bbae94 100644
--- a/index/grep.go
+++ b/index/grep.go
@@ -174,10 +174,16 @@ func (g *grepper) grep2(
 
 		lineno += countLines(buf[:str])
 
+		before := lastNLines(buf[:endl], nctx)
+		if len(before) < nctx && str > 0 && buf[0] == '\n' {
+			// lastNLines does not report a leading empty line.
+			before = append([][]byte{buf[:0]}, before...)
+		}
+
 		more, err := fn(
 			bytes.TrimRight(buf[str:end], "\n"),
 			lineno+1,
-			lastNLines(buf[:endl], nctx),
+			before,
 			firstNLines(buf[end:], nctx))
 		if err != nil {
 			return err
-- 
2.43.0


From 522b248fb36c1aab4e6c2c0d6e27313a91fee4d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:17 +0000
Subject: [PATCH 03/32] fix: exclude a file whose path matches at offset zero

MatchString returns a negative value for no match, so zero is a match.
---
 index/index.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/index/index.go b/index/index.go
index f84d933..531f86d 100644
--- a/index/index.go
+++ b/index/index.go
@@ -196,7 +196,7 @@ func (n *Index) Search(pat string, opt *SearchOptions) (*SearchResponse, error)
 		}
 
 		// reject files that match the exclude file pattern
-		if excludeFre != nil && excludeFre.MatchString(name, true, true) > 0 {
+		if excludeFre != nil && excludeFre.MatchString(name, true, true) >= 0 {
 			continue
 		}
 
-- 
2.43.0


From ed8b643ddad5d3d5556cf63cd26d3119deef7021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:04 +0000
Subject: [PATCH 04/32] fix: do not overwrite the exact set while computing an
 alternation's prefixes

---
 codesearch/index/regexp.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/codesearch/index/regexp.go b/codesearch/index/regexp.go
index a5686af..8802d7a 100644
--- a/codesearch/index/regexp.go
+++ b/codesearch/index/regexp.go
@@ -604,8 +604,9 @@ func alternate(x, y regexpInfo) (out regexpInfo) {
 	if x.exact.have() && y.exact.have() {
 		xy.exact = x.exact.union(y.exact, false)
 	} else if x.exact.have() {
-		xy.prefix = x.exact.union(y.prefix, false)
-		xy.suffix = x.exact.union(y.suffix, true)
+		// union reuses storage, and x.exact is still needed.
+		xy.prefix = x.exact.copy().union(y.prefix, false)
+		xy.suffix = x.exact.copy().union(y.suffix, true)
 		x.addExact()
 	} else if y.exact.have() {
 		xy.prefix = x.prefix.union(y.exact, false)
-- 
2.43.0


From 0e0552189113b9a7ed7b0c20eff881a87c4e0626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:04 +0000
Subject: [PATCH 05/32] fix: match a pair of non-ASCII case variants as UTF-8,
 not as a single byte

---
 codesearch/regexp/utf.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/codesearch/regexp/utf.go b/codesearch/regexp/utf.go
index 858c83c..fd7aa97 100644
--- a/codesearch/regexp/utf.go
+++ b/codesearch/regexp/utf.go
@@ -100,7 +100,7 @@ func oneByteRange(i *syntax.Inst) (lo, hi byte, fold, ok bool) {
 		}
 		return byte(i.Rune[0]), byte(i.Rune[1]), fold, true
 	}
-	if len(i.Rune) == 4 && i.Rune[0] == i.Rune[1] && i.Rune[2] == i.Rune[3] && unicode.SimpleFold(i.Rune[0]) == i.Rune[2] && unicode.SimpleFold(i.Rune[2]) == i.Rune[0] {
+	if len(i.Rune) == 4 && i.Rune[3] < utf8.RuneSelf && i.Rune[0] == i.Rune[1] && i.Rune[2] == i.Rune[3] && unicode.SimpleFold(i.Rune[0]) == i.Rune[2] && unicode.SimpleFold(i.Rune[2]) == i.Rune[0] {
 		return byte(i.Rune[0]), byte(i.Rune[0]), true, true
 	}
 
-- 
2.43.0


From 8f1e92373249198d907c403b4a7a15115d059b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:12 +0000
Subject: [PATCH 06/32] fix: fail the build when the tree cannot be walked
 instead of crashing or skipping

---
 index/index.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/index/index.go b/index/index.go
index 531f86d..477f6af 100644
--- a/index/index.go
+++ b/index/index.go
@@ -387,6 +387,10 @@ func indexAllFiles(opt *IndexOptions, dst, src string) error {
 	}
 
 	if err := filepath.Walk(src, func(path string, info os.FileInfo, err error) error { //nolint
+		if err != nil {
+			return err
+		}
+
 		name := info.Name()
 		rel, err := filepath.Rel(src, path) //nolint
 		if err != nil {
-- 
2.43.0


From 7f415921b6aa3de09f5341bdb601497251966b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:12 +0000
Subject: [PATCH 07/32] fix: do not skip the whole repository when its root
 directory has a dot name

---
 index/index.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/index/index.go b/index/index.go
index 477f6af..b112789 100644
--- a/index/index.go
+++ b/index/index.go
@@ -397,6 +397,12 @@ func indexAllFiles(opt *IndexOptions, dst, src string) error {
 			return err
 		}
 
+		// The name of the root is not part of the repository, so no name
+		// based exclusion applies to it.
+		if rel == "." && info.IsDir() {
+			return nil
+		}
+
 		// Is this file considered "special", this means it's not even a part
 		// of the source repository (like .git or .svn).
 		if containsString(opt.SpecialFiles, name) {
-- 
2.43.0


From 85199718c1c71c4babc66f602993e508cc795593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:00 +0000
Subject: [PATCH 08/32] fix: merging must not drop files beside a claimed path
 that ends in a non-ASCII character

---
 codesearch/index/merge.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/codesearch/index/merge.go b/codesearch/index/merge.go
index 5aa1ecc..5907cba 100644
--- a/codesearch/index/merge.go
+++ b/codesearch/index/merge.go
@@ -66,8 +66,7 @@ func Merge(dst, src1, src2 string) {
 			i1++
 		}
 		lo := i1
-		limit := path[:len(path)-1] + string(path[len(path)-1]+1)
-		for i1 < uint32(ix1.numName) && ix1.Name(i1) < limit {
+		for i1 < uint32(ix1.numName) && strings.HasPrefix(ix1.Name(i1), path) {
 			i1++
 		}
 		hi := i1 //nolint
@@ -85,7 +84,7 @@ func Merge(dst, src1, src2 string) {
 			panic("merge: inconsistent index")
 		}
 		lo = i2
-		for i2 < uint32(ix2.numName) && ix2.Name(i2) < limit {
+		for i2 < uint32(ix2.numName) && strings.HasPrefix(ix2.Name(i2), path) {
 			i2++
 		}
 		hi = i2
-- 
2.43.0


From 66cf515cd70db3d8a432f5499a5c9a1bc049b91d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:37 +0000
Subject: [PATCH 09/32] fix: a stop request must not be lost or overtaken by an
 update

Stop announced the shutdown on the channel before it set the flag the
searcher looks at, so that the searcher could take the announcement, see
the flag unset and go on forever: waiting for it never returned.
---
 searcher/searcher.go | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/searcher/searcher.go b/searcher/searcher.go
index 791ce81..ea0ecf3 100644
--- a/searcher/searcher.go
+++ b/searcher/searcher.go
@@ -29,9 +29,8 @@ type Searcher struct {
 	// update at a time.
 	updateCh chan time.Time
 
-	shutdownRequested bool
-	shutdownCh        chan empty
-	doneCh            chan empty
+	shutdownCh chan empty
+	doneCh     chan empty
 }
 
 // Struct used to send the results from newSearcherConcurrent function.
@@ -165,7 +164,6 @@ func (s *Searcher) Update() bool {
 func (s *Searcher) Stop() {
 	select {
 	case s.shutdownCh <- empty{}:
-		s.shutdownRequested = true
 	default:
 	}
 }
@@ -181,7 +179,8 @@ func (s *Searcher) completeShutdown() {
 
 // Wait for either the delay period to expire or an update request to
 // arrive. Note that an empty delay will result in an infinite timeout.
-func (s *Searcher) waitForUpdate(delay time.Duration) {
+// Returns false if the searcher has to shut down instead of updating.
+func (s *Searcher) waitForUpdate(delay time.Duration) bool {
 	var tch <-chan time.Time
 	if delay.Nanoseconds() > 0 {
 		tch = time.After(delay)
@@ -192,6 +191,15 @@ func (s *Searcher) waitForUpdate(delay time.Duration) {
 	case <-s.updateCh:
 	case <-tch:
 	case <-s.shutdownCh:
+		return false
+	}
+
+	// a shutdown request takes precedence over everything else
+	select {
+	case <-s.shutdownCh:
+		return false
+	default:
+		return true
 	}
 }
 
@@ -472,9 +480,7 @@ func newSearcher(
 
 		for {
 			// Wait for a signal to proceed
-			s.waitForUpdate(delay)
-
-			if s.shutdownRequested {
+			if !s.waitForUpdate(delay) {
 				s.completeShutdown()
 				return
 			}
-- 
2.43.0


From dc69b3fb8ea942b445c438ca2855832a4f0097d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:38 +0000
Subject: [PATCH 10/32] fix: an update accepted before polling begins must not
 be lost

The signal to begin shared the channel of the update requests. While it
was still in there, an update request found the channel full and was
dropped, although it was reported as accepted.
---
 searcher/searcher.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/searcher/searcher.go b/searcher/searcher.go
index ea0ecf3..b873062 100644
--- a/searcher/searcher.go
+++ b/searcher/searcher.go
@@ -23,12 +23,14 @@ type Searcher struct {
 	lck  sync.RWMutex
 	Repo *config.Repo
 
-	// The channel is used to request updates from the API and
-	// to signal that it is ok for searchers to begin polling.
-	// It has a buffer size of 1 to allow at most one pending
-	// update at a time.
+	// The channel is used to request updates from the API. It has
+	// a buffer size of 1 to allow at most one pending update at a
+	// time.
 	updateCh chan time.Time
 
+	// Closed to signal that it is ok to begin polling.
+	beginCh chan empty
+
 	shutdownCh chan empty
 	doneCh     chan empty
 }
@@ -205,7 +207,7 @@ func (s *Searcher) waitForUpdate(delay time.Duration) bool {
 
 // Signal the searcher that it is ok to begin polling the repository.
 func (s *Searcher) begin() {
-	s.updateCh <- time.Now()
+	close(s.beginCh)
 }
 
 // Generate a new index directory in the dbpath. The names are based
@@ -457,6 +459,7 @@ func newSearcher(
 	s := &Searcher{
 		idx:        idx,
 		updateCh:   make(chan time.Time, 1),
+		beginCh:    make(chan empty),
 		Repo:       repo,
 		doneCh:     make(chan empty),
 		shutdownCh: make(chan empty, 1),
@@ -465,7 +468,7 @@ func newSearcher(
 	go func() {
 
 		// each searcher's poller is held until begin is called.
-		<-s.updateCh
+		<-s.beginCh
 
 		// if all forms of updating are turned off, we're done here.
 		if !repo.PollUpdatesEnabled() && !repo.PushUpdatesEnabled() {
-- 
2.43.0


From 0d4753cfc81350553e14b1b05d4d861162b909f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:39 +0000
Subject: [PATCH 11/32] fix: keep the new index when the old one cannot be
 deleted

swapIndexes makes the new index live before it destroys the old one. When
that failed, the index that was live by then was destroyed too: searches
accessed unmapped memory.
---
 searcher/searcher.go | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/searcher/searcher.go b/searcher/searcher.go
index b873062..e9ed84a 100644
--- a/searcher/searcher.go
+++ b/searcher/searcher.go
@@ -114,7 +114,8 @@ func (r *foundRefs) removeUnclaimed() error {
 }
 
 // Perform atomic swap of index in the searcher so that the new
-// index is made "live".
+// index is made "live". This happens even if an error is returned,
+// which is about the removal of the old index.
 func (s *Searcher) swapIndexes(idx *index.Index) error {
 	s.lck.Lock()
 	defer s.lck.Unlock()
@@ -390,11 +391,7 @@ func updateAndReindex(
 	}
 
 	if err := s.swapIndexes(idx); err != nil {
-		log.Printf("failed index swap (%s): %s", name, err)
-		if err := idx.Destroy(); err != nil {
-			log.Printf("failed to destroy index (%s): %s\n", name, err)
-		}
-		return rev, false
+		log.Printf("failed to destroy old index (%s): %s", name, err)
 	}
 
 	return newRev, true
-- 
2.43.0


From ca9529ba044c74751b32ddb45f4a6273bbb63dee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:40 +0000
Subject: [PATCH 12/32] fix: read the excluded files of the index that is live

---
 searcher/searcher.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/searcher/searcher.go b/searcher/searcher.go
index e9ed84a..4e8e400 100644
--- a/searcher/searcher.go
+++ b/searcher/searcher.go
@@ -139,6 +139,10 @@ func (s *Searcher) Search(pat string, opt *index.SearchOptions) (*index.SearchRe
 // Get the excluded files as a JSON string. This is only used for returning
 // the data directly to clients (thus JSON).
 func (s *Searcher) GetExcludedFiles() string {
+	// do not let the index be swapped and deleted meanwhile
+	s.lck.RLock()
+	defer s.lck.RUnlock()
+
 	path := filepath.Join(s.idx.GetDir(), "excluded_files.json")
 	dat, err := ioutil.ReadFile(path)
 	if err != nil {
-- 
2.43.0


From 36634abd4e6b5babf80a9fbc4988b93a3c2ff356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:41 +0000
Subject: [PATCH 13/32] fix: remove the index directory of a failed build

---
 searcher/searcher.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/searcher/searcher.go b/searcher/searcher.go
index 4e8e400..f0ceb3b 100644
--- a/searcher/searcher.go
+++ b/searcher/searcher.go
@@ -255,6 +255,9 @@ func buildAndOpenIndex(
 	if _, err := os.Stat(idxDir); err != nil {
 		r, err := index.Build(opt, idxDir, vcsDir, url, rev)
 		if err != nil {
+			if err := os.RemoveAll(idxDir); err != nil {
+				log.Printf("failed to remove %s: %s", idxDir, err)
+			}
 			return nil, err
 		}
 
-- 
2.43.0


From eb3fb5150743beedeec53cb8c00c1dea48da272a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:42 +0000
Subject: [PATCH 14/32] fix: never reuse one index directory for two
 repositories

Two repositories with the same url shared the index directory they found
at startup. The first one to be updated deleted it while the other one
was searching it.
---
 searcher/searcher.go | 27 ++++++++++-----------------
 1 file changed, 10 insertions(+), 17 deletions(-)

diff --git a/searcher/searcher.go b/searcher/searcher.go
index f0ceb3b..334d4b3 100644
--- a/searcher/searcher.go
+++ b/searcher/searcher.go
@@ -70,29 +70,23 @@ func (l limiter) Release() {
 }
 
 /**
- * Find an Index ref for the repo url and rev, returns nil if no such
- * ref exists.
+ * Claim an Index ref for the repo url and rev for reuse, returns nil
+ * if no such ref exists that isn't in use already. This ensures the
+ * ref will not be garbage collected at the end of startup.
  */
-func (r *foundRefs) find(url, rev string) *index.IndexRef {
+func (r *foundRefs) claim(url, rev string) *index.IndexRef {
+	r.lock.Lock()
+	defer r.lock.Unlock()
+
 	for _, ref := range r.refs {
-		if ref.Url == url && ref.Rev == rev {
+		if ref.Url == url && ref.Rev == rev && !r.claimed[ref] {
+			r.claimed[ref] = true
 			return ref
 		}
 	}
 	return nil
 }
 
-/**
- * Claim a ref for reuse. This ensures they ref will not be garbage
- * collected at the end of startup.
- */
-func (r *foundRefs) claim(ref *index.IndexRef) {
-	r.lock.Lock()
-	defer r.lock.Unlock()
-
-	r.claimed[ref] = true
-}
-
 /**
  * Delete the directorires associated with all IndexRefs that were
  * found in the dbpath but were not claimed during startup.
@@ -441,12 +435,11 @@ func newSearcher(
 	}
 
 	var idxDir string
-	ref := refs.find(repo.Url, rev)
+	ref := refs.claim(repo.Url, rev)
 	if ref == nil {
 		idxDir = nextIndexDir(dbpath)
 	} else {
 		idxDir = ref.Dir()
-		refs.claim(ref)
 	}
 
 	idx, err := buildAndOpenIndex(
-- 
2.43.0


From a67bef75563196a4ec738b47e29866e884e1e76d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:08 +0000
Subject: [PATCH 15/32] fix: remove the manifest of an index before anything
 else of it

---
 index/index.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/index/index.go b/index/index.go
index b112789..86025ea 100644
--- a/index/index.go
+++ b/index/index.go
@@ -105,7 +105,12 @@ func (r *IndexRef) Open() (*Index, error) {
 	}, nil
 }
 
+// Remove deletes the index. The manifest goes first, so that what is left
+// if this is interrupted is not mistaken for a complete index.
 func (r *IndexRef) Remove() error {
+	if err := os.Remove(filepath.Join(r.dir, manifestFilename)); err != nil && !os.IsNotExist(err) {
+		return err
+	}
 	return os.RemoveAll(r.dir)
 }
 
-- 
2.43.0


From 8328d79d4e8a8088ebe00d1cabc57b9395716c56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:09 +0000
Subject: [PATCH 16/32] fix: two repositories with one url must not use the
 working directory at once

---
 searcher/searcher.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/searcher/searcher.go b/searcher/searcher.go
index 334d4b3..69c9090 100644
--- a/searcher/searcher.go
+++ b/searcher/searcher.go
@@ -47,6 +47,18 @@ type searcherResult struct {
 type empty struct{}
 type limiter chan bool
 
+// The locks for the vcs directories, by path. Repositories with the same
+// url share a directory, but must not update it while another one is
+// indexing it.
+var vcsDirLocks sync.Map
+
+func lockVcsDir(dir string) *sync.Mutex {
+	l, _ := vcsDirLocks.LoadOrStore(dir, &sync.Mutex{})
+	lck := l.(*sync.Mutex)
+	lck.Lock()
+	return lck
+}
+
 /**
  * Holds a set of IndexRefs that were found in the dbpath at startup,
  * these indexes can be 'claimed' and re-used by newly created searchers.
@@ -366,6 +378,8 @@ func updateAndReindex(
 	lim.Acquire()
 	defer lim.Release()
 
+	defer lockVcsDir(vcsDir).Unlock()
+
 	repo := s.Repo
 	newRev, err := wd.PullOrClone(vcsDir, repo.Url)
 
@@ -415,6 +429,7 @@ func newSearcher(
 		return nil, err
 	}
 
+	defer lockVcsDir(vcsDir).Unlock()
 
 	rev, err := wd.PullOrClone(vcsDir, repo.Url)
 	if err != nil {
-- 
2.43.0


From 504842ca731ccd236334083c06fff838f3fcfa27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:11 +0000
Subject: [PATCH 17/32] fix: determine the auto-generated files of every
 revision

They were determined once at startup, so that after an update files were
marked according to the attributes of an old revision.
---
 searcher/searcher.go | 34 +++++++++++++++++-----------------
 1 file changed, 17 insertions(+), 17 deletions(-)

diff --git a/searcher/searcher.go b/searcher/searcher.go
index 69c9090..57c0a2e 100644
--- a/searcher/searcher.go
+++ b/searcher/searcher.go
@@ -363,6 +363,20 @@ func New(dbpath, name string, repo *config.Repo) (*Searcher, error) {
 	return s, nil
 }
 
+// The options for indexing what is in the vcs directory now.
+func indexOptionsFor(repo *config.Repo, wd *vcs.WorkDir, vcsDir string) *index.IndexOptions {
+	autoFiles := repo.AutoGeneratedFiles
+	if len(autoFiles) == 0 {
+		autoFiles = wd.AutoGeneratedFiles(vcsDir)
+	}
+
+	return &index.IndexOptions{
+		ExcludeDotFiles:    repo.ExcludeDotFiles,
+		SpecialFiles:       wd.SpecialFiles(),
+		AutoGeneratedFiles: autoFiles,
+	}
+}
+
 // Update the vcs and reindex the given repo.
 func updateAndReindex(
 	s *Searcher,
@@ -371,7 +385,6 @@ func updateAndReindex(
 	name,
 	rev string,
 	wd *vcs.WorkDir,
-	opt *index.IndexOptions,
 	lim limiter) (string, bool) {
 
 	// acquire a token from the rate limiter
@@ -394,7 +407,7 @@ func updateAndReindex(
 
 	log.Printf("Rebuilding %s for %s", name, newRev)
 	idx, err := buildAndOpenIndex(
-		opt,
+		indexOptionsFor(repo, wd, vcsDir),
 		dbpath,
 		vcsDir,
 		nextIndexDir(dbpath),
@@ -436,19 +449,6 @@ func newSearcher(
 		return nil, err
 	}
 
-	var autoFiles []string
-	if len(repo.AutoGeneratedFiles) > 0 {
-		autoFiles = repo.AutoGeneratedFiles
-	} else {
-		autoFiles = wd.AutoGeneratedFiles(vcsDir)
-	}
-
-	opt := &index.IndexOptions{
-		ExcludeDotFiles:    repo.ExcludeDotFiles,
-		SpecialFiles:       wd.SpecialFiles(),
-		AutoGeneratedFiles: autoFiles,
-	}
-
 	var idxDir string
 	ref := refs.claim(repo.Url, rev)
 	if ref == nil {
@@ -458,7 +458,7 @@ func newSearcher(
 	}
 
 	idx, err := buildAndOpenIndex(
-		opt,
+		indexOptionsFor(repo, wd, vcsDir),
 		dbpath,
 		vcsDir,
 		idxDir,
@@ -501,7 +501,7 @@ func newSearcher(
 			}
 
 			// attempt to update and reindex this searcher
-			newRev, ok := updateAndReindex(s, dbpath, vcsDir, name, rev, wd, opt, lim)
+			newRev, ok := updateAndReindex(s, dbpath, vcsDir, name, rev, wd, lim)
 			if !ok {
 				continue
 			}
-- 
2.43.0


From b70009973b1d9fd2191d20284d7887b2420abcd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:04 +0000
Subject: [PATCH 18/32] fix: do not crash on a repository url like /name

The client looked for a slash before the first character.
---
 client/client.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/client/client.go b/client/client.go
index ef37bd3..5beda88 100644
--- a/client/client.go
+++ b/client/client.go
@@ -45,6 +45,10 @@ func repoNameFromUrl(uri string) string {
 		name = name[:len(name)-4]
 	}
 
+	if ax == 0 {
+		return name
+	}
+
 	bx := strings.LastIndex(uri[:ax-1], "/")
 	if bx < 0 {
 		return name
-- 
2.43.0


From 308faed03648221b1c98b43509aa8e7a18419759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:05 +0000
Subject: [PATCH 19/32] fix: the client must report an error the server reports

The server answers a failing search with status 200 and an error, which
the client took for an empty result.
---
 client/client.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/client/client.go b/client/client.go
index 5beda88..6ee2d60 100644
--- a/client/client.go
+++ b/client/client.go
@@ -2,6 +2,7 @@ package client
 
 import (
 	"encoding/json"
+	"errors"
 	"fmt"
 	"net/http"
 	"net/url"
@@ -18,6 +19,9 @@ type Response struct {
 		FilesOpened int
 		Duration    int
 	} `json:",omitempty"`
+
+	// Set, instead of the above, if the search failed.
+	Error string `json:",omitempty"`
 }
 
 type Presenter interface {
@@ -118,7 +122,15 @@ func Search(r *Response, cfg *Config, pattern, repos, files string, context int,
 		return fmt.Errorf("Status %d", res.StatusCode)
 	}
 
-	return json.NewDecoder(res.Body).Decode(r)
+	if err := json.NewDecoder(res.Body).Decode(r); err != nil {
+		return err
+	}
+
+	if r.Error != "" {
+		return errors.New(r.Error)
+	}
+
+	return nil
 }
 
 // Load the list of repositories from the API running on host.
-- 
2.43.0


From 77e3d5b89d4dd6a640e0146d3115c1e8e37f77b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:01 +0000
Subject: [PATCH 20/32] fix: answer 404 for the excluded files of an unknown
 repository

The handler panicked and the connection was closed without an answer.
---
 api/api.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/api/api.go b/api/api.go
index b7aef0e..755d8ad 100644
--- a/api/api.go
+++ b/api/api.go
@@ -234,7 +234,17 @@ func Setup(m *http.ServeMux, idx map[string]*searcher.Searcher, defaultMaxResult
 
 	m.HandleFunc("/api/v1/excludes", func(w http.ResponseWriter, r *http.Request) {
 		repo := r.FormValue("repo")
-		res := idx[repo].GetExcludedFiles()
+
+		searcher := idx[repo]
+
+		if searcher == nil {
+			writeError(w,
+				fmt.Errorf("No such repository: %s", repo),
+				http.StatusNotFound)
+			return
+		}
+
+		res := searcher.GetExcludedFiles()
 		w.Header().Set("Content-Type", "application/json;charset=utf-8")
 		w.Header().Set("Access-Control-Allow", "*")
 		fmt.Fprint(w, res)
-- 
2.43.0


From bcedc42e8ca1e12ac4812887710f046da80d378f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:38 +0000
Subject: [PATCH 21/32] fix: do not crash on null entries in the configuration

---
 config/config.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/config/config.go b/config/config.go
index c978c00..2a86b32 100644
--- a/config/config.go
+++ b/config/config.go
@@ -3,6 +3,7 @@ package config
 import (
 	"encoding/json"
 	"errors"
+	"fmt"
 	"os"
 	"path/filepath"
 )
@@ -147,6 +148,10 @@ func mergeVCSConfigs(cfg *Config) error {
 
 	globalConfigVals := make(map[string]map[string]interface{}, globalConfigLen)
 	for vcs, configBytes := range cfg.VCSConfigMessages {
+		if configBytes == nil {
+			continue
+		}
+
 		var configVals map[string]interface{}
 		if err := json.Unmarshal(*configBytes, &configVals); err != nil {
 			return err
@@ -212,7 +217,11 @@ func (c *Config) LoadFromFile(filename string) error {
 		c.DbPath = path
 	}
 
-	for _, repo := range c.Repos {
+	for name, repo := range c.Repos {
+		if repo == nil {
+			return fmt.Errorf("no configuration for repository %s", name)
+		}
+
 		initRepo(repo)
 	}
 
-- 
2.43.0


From 2671af55252cf98a21b36aab4c95fbb558b3111a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:39 +0000
Subject: [PATCH 22/32] fix: report a configuration file with something after
 the configuration

Only the first JSON value was read, so that what follows an extra closing
brace was silently ignored.
---
 config/config.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/config/config.go b/config/config.go
index 2a86b32..0fad2e1 100644
--- a/config/config.go
+++ b/config/config.go
@@ -4,6 +4,7 @@ import (
 	"encoding/json"
 	"errors"
 	"fmt"
+	"io"
 	"os"
 	"path/filepath"
 )
@@ -200,10 +201,16 @@ func (c *Config) LoadFromFile(filename string) error {
 	}
 	defer r.Close()
 
-	if err := json.NewDecoder(r).Decode(c); err != nil {
+	d := json.NewDecoder(r)
+	if err := d.Decode(c); err != nil {
 		return err
 	}
 
+	// there must be nothing else in the file
+	if _, err := d.Token(); err != io.EOF {
+		return errors.New("invalid data after the configuration")
+	}
+
 	if c.Title == "" {
 		c.Title = defaultTitle
 	}
-- 
2.43.0


From 36f77124bebe488f9d072ec3b97b6eff78d7cee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:56 +0000
Subject: [PATCH 23/32] fix: follow the branch even if a tag or an older branch
 is in the way of its name

A tag with the name of the branch was fetched in its place, a tag named
origin/<branch> hid what had been fetched, and a default branch a/b could never
be fetched once a had been. The working directory was stuck at an old revision,
without an error.
---
 vcs/git.go | 35 ++++++++++++++++++++++++-----------
 1 file changed, 24 insertions(+), 11 deletions(-)

diff --git a/vcs/git.go b/vcs/git.go
index 54f1dfc..f352a63 100644
--- a/vcs/git.go
+++ b/vcs/git.go
@@ -3,7 +3,6 @@ package vcs
 import (
 	"bytes"
 	"encoding/json"
-	"fmt"
 	"io"
 	"log"
 	"os/exec"
@@ -13,6 +12,11 @@ import (
 )
 
 const defaultRef = "master"
+
+// What was fetched last is kept under a name of its own: that of a branch can be
+// ambiguous, or in conflict with the name of a branch that was fetched before.
+const tipRef = "refs/hound/tip"
+
 const autoGeneratedAttribute = "linguist-generated"
 
 var headBranchRegexp = regexp.MustCompile(`HEAD branch: (?P<branch>.+)`)
@@ -91,28 +95,37 @@ func run(desc, dir, cmd string, args ...string) (string, error) {
 func (g *GitDriver) Pull(dir string) (string, error) {
 	targetRef := g.targetRef(dir)
 
-	if _, err := run("git fetch", dir,
-		"git",
-		"fetch",
-		"--prune",
-		"--no-tags",
-		"--depth", "1",
-		"origin",
-		fmt.Sprintf("+%s:remotes/origin/%s", targetRef, targetRef)); err != nil {
-		return "", err
+	// A tag of the same name must not hide a branch, but the target may be
+	// something other than a branch.
+	if !g.fetch(dir, "refs/heads/"+targetRef) {
+		g.fetch(dir, targetRef)
 	}
 
 	if _, err := run("git reset", dir,
 		"git",
 		"reset",
 		"--hard",
-		fmt.Sprintf("origin/%s", targetRef)); err != nil {
+		tipRef); err != nil {
 		return "", err
 	}
 
 	return g.HeadRev(dir)
 }
 
+func (g *GitDriver) fetch(dir, ref string) bool {
+	c := exec.Command("git", "fetch", "--no-tags", "--depth", "1", "origin",
+		"+"+ref+":"+tipRef)
+	c.Dir = dir
+	out, err := c.CombinedOutput()
+	if err != nil {
+		log.Printf(
+			"Failed to git fetch %v at %q, see output below\n%s: %+v\nContinuing...",
+			c.Args, c.Dir,
+			out, err)
+	}
+	return err == nil
+}
+
 func (g *GitDriver) targetRef(dir string) string {
 	var targetRef string
 	if g.Ref != "" {
-- 
2.43.0


From f590056366eb4ff7c04df550293afab6ea12b9d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:56 +0000
Subject: [PATCH 24/32] fix: fall back to master when the remote has no default
 branch

git then shows "HEAD branch: (unknown)", which was taken for a branch's name.
---
 vcs/git.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vcs/git.go b/vcs/git.go
index f352a63..b668009 100644
--- a/vcs/git.go
+++ b/vcs/git.go
@@ -229,7 +229,7 @@ func (d *headBranchDetector) detectRef(dir string) string {
 	}
 
 	matches := headBranchRegexp.FindStringSubmatch(output)
-	if len(matches) != 2 {
+	if len(matches) != 2 || matches[1] == "(unknown)" {
 		log.Printf(
 			"could not determine target ref in %s. Will fall back to default ref %s",
 			dir,
-- 
2.43.0


From 466463a48619d56ea842e2526b73323b0097b5f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:05 +0000
Subject: [PATCH 25/32] fix: a set linguist-generated attribute marks a file as
 generated

As in "*.pb.go linguist-generated"; only linguist-generated=true did.
---
 vcs/git.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vcs/git.go b/vcs/git.go
index b668009..99dccf2 100644
--- a/vcs/git.go
+++ b/vcs/git.go
@@ -197,7 +197,7 @@ func (g *GitDriver) AutoGeneratedFiles(dir string) []string {
 	tokens := bytes.Split(out, []byte{0})
 
 	for i := 2; i < len(tokens); i+=3 {
-		if string(tokens[i]) == "true" && string(tokens[i-1]) == autoGeneratedAttribute {
+		if v := string(tokens[i]); (v == "set" || v == "true") && string(tokens[i-1]) == autoGeneratedAttribute {
 			files = append(files, string(tokens[i-2]))
 		}
 	}
-- 
2.43.0


From 203dc67d3ec91d9963e3f568d9cb111bc9533617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:06 +0000
Subject: [PATCH 26/32] fix: the configured auto-generated files apply to a
 reused index, too

---
 searcher/searcher.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/searcher/searcher.go b/searcher/searcher.go
index 57c0a2e..c8740a6 100644
--- a/searcher/searcher.go
+++ b/searcher/searcher.go
@@ -270,7 +270,15 @@ func buildAndOpenIndex(
 		return r.Open()
 	}
 
-	return index.Open(idxDir)
+	idx, err := index.Open(idxDir)
+	if err != nil {
+		return nil, err
+	}
+
+	// The files are those of the revision, but which of them are configured to
+	// be auto-generated can have changed.
+	idx.Ref.AutoGeneratedFiles = opt.AutoGeneratedFiles
+	return idx, nil
 }
 
 // Simply prints out statistics about the heap. When hound rebuilds a new
-- 
2.43.0


From 5947c654b8d824bcd6e0c487ab817b196c220578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:53 +0000
Subject: [PATCH 27/32] fix: link relative local directories by their absolute
 path

The url was taken relative to the current directory when indexing, but relative
to the link when it was looked for, so that the next start failed to link the
directory, for it had been linked already.
---
 vcs/local.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/vcs/local.go b/vcs/local.go
index 129edde..8315faf 100644
--- a/vcs/local.go
+++ b/vcs/local.go
@@ -8,6 +8,7 @@ import (
 	"fmt"
 	"io"
 	"os"
+	"path/filepath"
 	"sort"
 	"strings"
 
@@ -92,6 +93,12 @@ func (g *LocalDriver) Clone(dir, url string) (string, error) {
 	if !strings.HasPrefix(url, "file://") {
 		return "", fmt.Errorf("expected 'file://' prefix in url: %s", url)
 	}
+
+	// Relative to the current directory, not to the one the link will be in
+	src, err := filepath.Abs(src)
+	if err != nil {
+		return "", err
+	}
 	if err := os.Symlink(src, dir); err != nil {
 		return "", err
 	}
-- 
2.43.0


From 467bff5aefb5b3861b405049f0171de9c9e36d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:54 +0000
Subject: [PATCH 28/32] fix: follow a local directory through more than one
 symbolic link

A link to a link to the directory was not a directory for change watching, and
an empty one for indexing.
---
 index/index.go |  8 +++-----
 vcs/local.go   | 12 +++++-------
 2 files changed, 8 insertions(+), 12 deletions(-)

diff --git a/index/index.go b/index/index.go
index 86025ea..82c3ca6 100644
--- a/index/index.go
+++ b/index/index.go
@@ -384,11 +384,9 @@ func indexAllFiles(opt *IndexOptions, dst, src string) error {
 	}
 	defer fileHandle.Close()
 
-	// Resolve the symbolic link
-	if fi, err := os.Stat(src); err == nil && fi.Mode()|os.ModeSymlink != 0 {
-		if s, err := os.Readlink(src); err == nil {
-			src = s
-		}
+	// Resolve the symbolic link, which may lead to another one
+	if src, err = filepath.EvalSymlinks(src); err != nil {
+		return err
 	}
 
 	if err := filepath.Walk(src, func(path string, info os.FileInfo, err error) error { //nolint
diff --git a/vcs/local.go b/vcs/local.go
index 8315faf..e213ae0 100644
--- a/vcs/local.go
+++ b/vcs/local.go
@@ -71,17 +71,15 @@ func (g *LocalDriver) HeadRev(dir string) (string, error) {
 		return dir[idx+4:], nil
 	}
 
-	// Resolve the symbolic link
-	if fi, err := os.Stat(dir); err == nil && fi.Mode()|os.ModeSymlink != 0 {
-		if s, err := os.Readlink(dir); err == nil {
-			dir = s
-		}
+	// Resolve the symbolic link, which may lead to another one
+	dir, err := filepath.EvalSymlinks(dir)
+	if err != nil {
+		return "", err
 	}
 
 	// Hash all files in the directory
 	// TODO: implement logic from indexAllFiles to skip ignored files?
-	hash, err := dirhash.HashDir(dir, "", myHash)
-	return hash, err
+	return dirhash.HashDir(dir, "", myHash)
 }
 
 func (g *LocalDriver) Pull(dir string) (string, error) {
-- 
2.43.0


From b1c62716a40d52ec8262981678608ad9d02967ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:54 +0000
Subject: [PATCH 29/32] fix: watch local directories with files other than
 regular ones

A symbolic link to a directory or to nowhere made change watching fail, and a
named pipe made it wait forever.
---
 vcs/local.go | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/vcs/local.go b/vcs/local.go
index e213ae0..a0d880f 100644
--- a/vcs/local.go
+++ b/vcs/local.go
@@ -39,7 +39,9 @@ func newLocal(b []byte) (Driver, error) {
 // Adapted from: https://github.com/golang/mod/blob/ad6fd61f94f8fdf6926f5dee6e45bdd13add2f9f/sumdb/dirhash/hash.go#L44
 // The original function returns a base64 encoded string and uses the (slower) SHA256 algorithm. For our purposes
 // SHA1 is good enough, since all we really need is a checksum to signal something changed
-func myHash(files []string, open func(string) (io.ReadCloser, error)) (string, error) {
+// Files that are not regular ones have no content that is indexed (and may be impossible to open), so for those
+// only what kind of file they are counts.
+func myHash(dir string, files []string) (string, error) {
 	h := sha1.New()
 	files = append([]string(nil), files...)
 	sort.Strings(files)
@@ -47,7 +49,16 @@ func myHash(files []string, open func(string) (io.ReadCloser, error)) (string, e
 		if strings.Contains(file, "\n") {
 			return "", errors.New("dirhash: filenames with newlines are not supported")
 		}
-		r, err := open(file)
+		path := filepath.Join(dir, file)
+		fi, err := os.Lstat(path)
+		if err != nil {
+			return "", err
+		}
+		if !fi.Mode().IsRegular() {
+			fmt.Fprintf(h, "%s  %s\n", fi.Mode().Type(), file)
+			continue
+		}
+		r, err := os.Open(path)
 		if err != nil {
 			return "", err
 		}
@@ -79,7 +90,11 @@ func (g *LocalDriver) HeadRev(dir string) (string, error) {
 
 	// Hash all files in the directory
 	// TODO: implement logic from indexAllFiles to skip ignored files?
-	return dirhash.HashDir(dir, "", myHash)
+	files, err := dirhash.DirFiles(dir, "")
+	if err != nil {
+		return "", err
+	}
+	return myHash(dir, files)
 }
 
 func (g *LocalDriver) Pull(dir string) (string, error) {
-- 
2.43.0


From b06a99f066a322b86511e86eb81984e736680441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:02 +0000
Subject: [PATCH 30/32] fix: an index build that cannot read or write a file
 fails, instead of ending the process or being incomplete

---
 codesearch/index/merge.go |   7 ++
 codesearch/index/write.go | 162 +++++++++++++++++++++++++-------------
 index/index.go            |  16 ++--
 3 files changed, 126 insertions(+), 59 deletions(-)

diff --git a/codesearch/index/merge.go b/codesearch/index/merge.go
index 5907cba..cedf642 100644
--- a/codesearch/index/merge.go
+++ b/codesearch/index/merge.go
@@ -32,6 +32,7 @@ package index
 
 import (
 	"encoding/binary"
+	"log"
 	"os"
 	"strings"
 )
@@ -226,6 +227,12 @@ func Merge(dst, src1, src2 string) {
 	ix3.writeString(trailerMagic)
 	ix3.flush()
 
+	for _, b := range []*bufWriter{nameIndexFile, w.postIndexFile, ix3} {
+		if b.err != nil {
+			log.Fatalf("writing %s: %v", b.name, b.err)
+		}
+	}
+
 	os.Remove(nameIndexFile.name)
 	os.Remove(w.postIndexFile.name)
 }
diff --git a/codesearch/index/write.go b/codesearch/index/write.go
index f056e35..8cd01d0 100644
--- a/codesearch/index/write.go
+++ b/codesearch/index/write.go
@@ -5,6 +5,7 @@
 package index
 
 import (
+	"errors"
 	"fmt"
 	"io"
 	"io/ioutil"
@@ -55,6 +56,8 @@ type IndexWriter struct {
 
 	inbuf []byte     // input buffer
 	main  *bufWriter // main index file
+
+	err error // first failure to flush the post entries
 }
 
 const npost = 64 << 20 / 8 // 64 MB worth of post entries
@@ -115,12 +118,15 @@ func (ix *IndexWriter) AddFile(name string) {
 		return
 	}
 	defer f.Close()
-	ix.Add(name, f)
+	if _, err := ix.Add(name, f); err != nil {
+		log.Print(err)
+	}
 }
 
-// Add adds the file f to the index under the given name.
-// It logs errors using package log.
-func (ix *IndexWriter) Add(name string, f io.Reader) string {
+// Add adds the file f to the index under the given name. If the file is
+// skipped it returns the reason. An error means that the file could not be
+// read or that the index could not be written.
+func (ix *IndexWriter) Add(name string, f io.Reader) (string, error) {
 	ix.trigram.Reset()
 	var (
 		c          = byte(0)  //nolint
@@ -139,15 +145,13 @@ func (ix *IndexWriter) Add(name string, f io.Reader) string {
 		if i >= len(buf) {
 			n, err := f.Read(buf[:cap(buf)])
 			if n == 0 {
-				if err != nil {
-					if err == io.EOF {
-						break
-					}
-					log.Printf("%s: %v\n", name, err)
-					return ""
+				if err == io.EOF {
+					break
 				}
-				log.Printf("%s: 0-length read\n", name)
-				return ""
+				if err == nil {
+					err = io.ErrNoProgress
+				}
+				return "", fmt.Errorf("%s: %v", name, err)
 			}
 			buf = buf[:n]
 			i = 0
@@ -163,14 +167,14 @@ func (ix *IndexWriter) Add(name string, f io.Reader) string {
 			if ix.LogSkip {
 				log.Printf("%s: %s\n", name, skipReason)
 			}
-			return skipReason
+			return skipReason, nil
 		}
 		if n > maxFileLen {
 			skipReason = "Too long"
 			if ix.LogSkip {
 				log.Printf("%s: %s\n", name, skipReason)
 			}
-			return skipReason
+			return skipReason, nil
 		}
 		linelen++
 		if c == '\n' {
@@ -189,7 +193,7 @@ func (ix *IndexWriter) Add(name string, f io.Reader) string {
 			if ix.LogSkip {
 				log.Printf("%s: %s\n", name, skipReason)
 			}
-			return skipReason
+			return skipReason, nil
 		}
 
 		longLineRatio := float32(longLines) / float32(numLines)
@@ -198,7 +202,7 @@ func (ix *IndexWriter) Add(name string, f io.Reader) string {
 			if ix.LogSkip {
 				log.Printf("%s: %s\n", name, skipReason)
 			}
-			return skipReason
+			return skipReason, nil
 		}
 	}
 
@@ -216,11 +220,29 @@ func (ix *IndexWriter) Add(name string, f io.Reader) string {
 		ix.post = append(ix.post, makePostEntry(trigram, fileid))
 	}
 
-	return ""
+	return "", ix.failure()
+}
+
+// failure returns the first error met in writing the index.
+func (ix *IndexWriter) failure() error {
+	if ix.err != nil {
+		return ix.err
+	}
+	for _, b := range []*bufWriter{ix.nameData, ix.nameIndex, ix.postIndex, ix.main} {
+		if b.err != nil {
+			return fmt.Errorf("writing %s: %v", b.name, b.err)
+		}
+	}
+	return nil
 }
 
 // Flush flushes the index entry to the target file.
-func (ix *IndexWriter) Flush() {
+func (ix *IndexWriter) Flush() error {
+	defer ix.removeTemps()
+	if err := ix.failure(); err != nil {
+		return err
+	}
+
 	ix.addName("")
 
 	var off [5]uint32
@@ -244,31 +266,42 @@ func (ix *IndexWriter) Flush() {
 	}
 	ix.main.writeString(trailerMagic)
 
-	os.Remove(ix.nameData.name)
+	log.Printf("%d data bytes, %d index bytes", ix.totalBytes, ix.main.offset())
+
+	ix.main.flush()
+	return ix.failure()
+}
+
+// removeTemps removes the temporary files, which takes effect once.
+func (ix *IndexWriter) removeTemps() {
 	for _, d := range ix.postData {
-		unmmap(d)  //nolint
+		unmmap(d) //nolint
 	}
+	ix.postData = nil
 	for _, f := range ix.postFile {
 		f.Close()
 		os.Remove(f.Name())
 	}
-	os.Remove(ix.nameIndex.name)
-	os.Remove(ix.postIndex.name)
-
-	log.Printf("%d data bytes, %d index bytes", ix.totalBytes, ix.main.offset())
-
-	ix.main.flush()
+	ix.postFile = nil
+	for _, b := range []*bufWriter{ix.nameData, ix.nameIndex, ix.postIndex} {
+		b.remove()
+	}
 }
 
+// Close closes the index file. If the index has not been flushed, it is
+// abandoned.
 func (ix *IndexWriter) Close() {
-	ix.main.file.Close()
+	ix.removeTemps()
+	if ix.main.file != nil {
+		ix.main.file.Close()
+	}
 }
 
 func copyFile(dst, src *bufWriter) {
 	dst.flush()
-	_, err := io.Copy(dst.file, src.finish())
-	if err != nil {
-		log.Fatalf("copying %s to %s: %v", src.name, dst.name, err)
+	f := src.finish()
+	if dst.err == nil && src.err == nil {
+		_, dst.err = io.Copy(dst.file, f)
 	}
 }
 
@@ -292,8 +325,11 @@ func (ix *IndexWriter) addName(name string) uint32 {
 func (ix *IndexWriter) flushPost() {
 	w, err := ioutil.TempFile("", "csearch-index")
 	if err != nil {
-		log.Fatal(err)
+		ix.post = ix.post[:0]
+		ix.fail(err)
+		return
 	}
+	ix.postFile = append(ix.postFile, w)
 	if ix.Verbose {
 		log.Printf("flush %d entries to %s", len(ix.post), w.Name())
 	}
@@ -302,16 +338,19 @@ func (ix *IndexWriter) flushPost() {
 	// Write the raw ix.post array to disk as is.
 	// This process is the one reading it back in, so byte order is not a concern.
 	data := (*[npost * 8]byte)(unsafe.Pointer(&ix.post[0]))[:len(ix.post)*8]
-	if n, err := w.Write(data); err != nil || n < len(data) {
-		if err != nil {
-			log.Fatal(err)
-		}
-		log.Fatalf("short write writing %s", w.Name())
+	if _, err := w.Write(data); err != nil {
+		ix.fail(err)
 	}
 
 	ix.post = ix.post[:0]
 	w.Seek(0, 0)  //nolint
-	ix.postFile = append(ix.postFile, w)
+}
+
+// fail records the first failure to flush the post entries.
+func (ix *IndexWriter) fail(err error) {
+	if ix.err == nil {
+		ix.err = err
+	}
 }
 
 // mergePost reads the flushed index entries and merges them
@@ -488,11 +527,13 @@ func (h *postHeap) siftUp(j int) {
 }
 
 // A bufWriter is a convenience wrapper: a closeable bufio.Writer.
+// After the first error nothing more is written.
 type bufWriter struct {
 	name string
 	file *os.File
 	buf  []byte
 	tmp  [8]byte  //nolint
+	err  error
 }
 
 // bufCreate creates a new file with the given name and returns a
@@ -508,13 +549,23 @@ func bufCreate(name string) *bufWriter {
 	} else {
 		f, err = ioutil.TempFile("", "csearch")
 	}
-	if err != nil {
-		log.Fatal(err)
-	}
-	return &bufWriter{
-		name: f.Name(),
+	b := &bufWriter{
+		name: name,
 		buf:  make([]byte, 0, 256<<10),
-		file: f,
+		err:  err,
+	}
+	if err == nil {
+		b.name, b.file = f.Name(), f
+	}
+	return b
+}
+
+// remove closes and removes the file, which takes effect once.
+func (b *bufWriter) remove() {
+	if b.file != nil {
+		b.file.Close()
+		os.Remove(b.name)
+		b.file = nil
 	}
 }
 
@@ -523,8 +574,8 @@ func (b *bufWriter) write(x []byte) {
 	if len(x) > n {
 		b.flush()
 		if len(x) >= cap(b.buf) {
-			if _, err := b.file.Write(x); err != nil {
-				log.Fatalf("writing %s: %v", b.name, err)
+			if b.err == nil {
+				_, b.err = b.file.Write(x)
 			}
 			return
 		}
@@ -544,8 +595,8 @@ func (b *bufWriter) writeString(s string) {
 	if len(s) > n {
 		b.flush()
 		if len(s) >= cap(b.buf) {
-			if _, err := b.file.WriteString(s); err != nil {
-				log.Fatalf("writing %s: %v", b.name, err)
+			if b.err == nil {
+				_, b.err = b.file.WriteString(s)
 			}
 			return
 		}
@@ -555,10 +606,13 @@ func (b *bufWriter) writeString(s string) {
 
 // offset returns the current write offset.
 func (b *bufWriter) offset() uint32 {
+	if b.err != nil {
+		return 0
+	}
 	off, _ := b.file.Seek(0, 1)
 	off += int64(len(b.buf))
 	if int64(uint32(off)) != off {
-		log.Fatalf("index is larger than 4GB")
+		b.err = errors.New("index is larger than 4GB")
 	}
 	return uint32(off)
 }
@@ -567,9 +621,8 @@ func (b *bufWriter) flush() {
 	if len(b.buf) == 0 {
 		return
 	}
-	_, err := b.file.Write(b.buf)
-	if err != nil {
-		log.Fatalf("writing %s: %v", b.name, err)
+	if b.err == nil {
+		_, b.err = b.file.Write(b.buf)
 	}
 	b.buf = b.buf[:0]
 }
@@ -577,9 +630,10 @@ func (b *bufWriter) flush() {
 // finish flushes the file to disk and returns an open file ready for reading.
 func (b *bufWriter) finish() *os.File {
 	b.flush()
-	f := b.file
-	f.Seek(0, 0)  //nolint
-	return f
+	if b.err == nil {
+		_, b.err = b.file.Seek(0, 0)
+	}
+	return b.file
 }
 
 func (b *bufWriter) writeTrigram(t uint32) {
diff --git a/index/index.go b/index/index.go
index 82c3ca6..2739ffc 100644
--- a/index/index.go
+++ b/index/index.go
@@ -332,9 +332,17 @@ func addFileToIndex(ix *index.IndexWriter, dst, src, path string) (string, error
 	defer w.Close()
 
 	g := gzip.NewWriter(w)
-	defer g.Close()
 
-	return ix.Add(rel, io.TeeReader(r, g)), nil
+	reason, err := ix.Add(rel, io.TeeReader(r, g))
+	if err != nil {
+		return "", err
+	}
+
+	// The copy is only complete once everything has been written.
+	if err := g.Close(); err != nil {
+		return "", err
+	}
+	return reason, w.Close()
 }
 
 func addDirToIndex(dst, src, path string) error {
@@ -471,9 +479,7 @@ func indexAllFiles(opt *IndexOptions, dst, src string) error {
 		return err
 	}
 
-	ix.Flush()
-
-	return nil
+	return ix.Flush()
 }
 
 // Read the metadata for the index directory. Note that even if this
-- 
2.43.0


From 5e67ee02f82aa8de56452e1b96b4ca70d72dd55e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:51 +0000
Subject: [PATCH 31/32] fix: an index that cannot be opened is rebuilt or fails
 its repository, instead of ending the process

---
 codesearch/index/mmap_bsd.go     | 14 +++++------
 codesearch/index/mmap_linux.go   | 14 +++++------
 codesearch/index/mmap_windows.go | 16 ++++++-------
 codesearch/index/read.go         | 37 ++++++++++++++++++++++------
 codesearch/index/write.go        | 19 ++++++++++-----
 index/index.go                   |  7 +++++-
 searcher/searcher.go             | 41 ++++++++++++++++++++++----------
 7 files changed, 100 insertions(+), 48 deletions(-)

diff --git a/codesearch/index/mmap_bsd.go b/codesearch/index/mmap_bsd.go
index 9442ab5..aa011bd 100644
--- a/codesearch/index/mmap_bsd.go
+++ b/codesearch/index/mmap_bsd.go
@@ -7,29 +7,29 @@
 package index
 
 import (
-  "log"
+  "fmt"
   "os"
   "syscall"
 )
 
-func mmapFile(f *os.File) mmapData {
+func mmapFile(f *os.File) (mmapData, error) {
   st, err := f.Stat()
   if err != nil {
-    log.Fatal(err)
+    return mmapData{}, err
   }
   size := st.Size()
   if int64(int(size+4095)) != size+4095 {
-    log.Fatalf("%s: too large for mmap", f.Name())
+    return mmapData{}, fmt.Errorf("%s: too large for mmap", f.Name())
   }
   n := int(size)
   if n == 0 {
-    return mmapData{f, nil, nil}
+    return mmapData{f, nil, nil}, nil
   }
   data, err := syscall.Mmap(int(f.Fd()), 0, (n+4095)&^4095, syscall.PROT_READ, syscall.MAP_PRIVATE)
   if err != nil {
-    log.Fatalf("mmap %s: %v", f.Name(), err)
+    return mmapData{}, fmt.Errorf("mmap %s: %v", f.Name(), err)
   }
-  return mmapData{f, data[:n], data}
+  return mmapData{f, data[:n], data}, nil
 }
 
 func unmmapFile(m *mmapData) error {
diff --git a/codesearch/index/mmap_linux.go b/codesearch/index/mmap_linux.go
index 8ea561a..233fe7f 100644
--- a/codesearch/index/mmap_linux.go
+++ b/codesearch/index/mmap_linux.go
@@ -5,29 +5,29 @@
 package index
 
 import (
-  "log"
+  "fmt"
   "os"
   "syscall"
 )
 
-func mmapFile(f *os.File) mmapData {
+func mmapFile(f *os.File) (mmapData, error) {
   st, err := f.Stat()
   if err != nil {
-    log.Fatal(err)
+    return mmapData{}, err
   }
   size := st.Size()
   if int64(int(size+4095)) != size+4095 {
-    log.Fatalf("%s: too large for mmap", f.Name())
+    return mmapData{}, fmt.Errorf("%s: too large for mmap", f.Name())
   }
   n := int(size)
   if n == 0 {
-    return mmapData{f, nil, nil}
+    return mmapData{f, nil, nil}, nil
   }
   data, err := syscall.Mmap(int(f.Fd()), 0, (n+4095)&^4095, syscall.PROT_READ, syscall.MAP_SHARED)
   if err != nil {
-    log.Fatalf("mmap %s: %v", f.Name(), err)
+    return mmapData{}, fmt.Errorf("mmap %s: %v", f.Name(), err)
   }
-  return mmapData{f, data[:n], data}
+  return mmapData{f, data[:n], data}, nil
 }
 
 func unmmapFile(m *mmapData) error {
diff --git a/codesearch/index/mmap_windows.go b/codesearch/index/mmap_windows.go
index 8f09156..2154600 100644
--- a/codesearch/index/mmap_windows.go
+++ b/codesearch/index/mmap_windows.go
@@ -5,37 +5,37 @@
 package index
 
 import (
-	"log"
+	"fmt"
 	"os"
 	"syscall"
 	"unsafe"
 )
 
-func mmapFile(f *os.File) mmapData {
+func mmapFile(f *os.File) (mmapData, error) {
 	st, err := f.Stat()
 	if err != nil {
-		log.Fatal(err)
+		return mmapData{}, err
 	}
 	size := st.Size()
 	if int64(int(size+4095)) != size+4095 {
-		log.Fatalf("%s: too large for mmap", f.Name())
+		return mmapData{}, fmt.Errorf("%s: too large for mmap", f.Name())
 	}
 	if size == 0 {
-		return mmapData{f, nil, nil}
+		return mmapData{f, nil, nil}, nil
 	}
 	h, err := syscall.CreateFileMapping(syscall.Handle(f.Fd()), nil, syscall.PAGE_READONLY, uint32(size>>32), uint32(size), nil)
 	if err != nil {
-		log.Fatalf("CreateFileMapping %s: %v", f.Name(), err)
+		return mmapData{}, fmt.Errorf("CreateFileMapping %s: %v", f.Name(), err)
 	}
 	defer syscall.CloseHandle(syscall.Handle(h))
 
 	addr, err := syscall.MapViewOfFile(h, syscall.FILE_MAP_READ, 0, 0, 0)
 	if err != nil {
-		log.Fatalf("MapViewOfFile %s: %v", f.Name(), err)
+		return mmapData{}, fmt.Errorf("MapViewOfFile %s: %v", f.Name(), err)
 	}
 
 	data := (*[1 << 30]byte)(unsafe.Pointer(addr))
-	return mmapData{f, data[:size], data[:]}
+	return mmapData{f, data[:size], data[:]}, nil
 }
 
 func unmmapFile(m *mmapData) error {
diff --git a/codesearch/index/read.go b/codesearch/index/read.go
index 5234266..a19e4d2 100644
--- a/codesearch/index/read.go
+++ b/codesearch/index/read.go
@@ -67,6 +67,7 @@ package index
 import (
   "bytes"
   "encoding/binary"
+  "fmt"
   "log"
   "os"
   "runtime"
@@ -93,10 +94,28 @@ type Index struct {
 
 const postEntrySize = 3 + 4 + 4
 
+// Open opens the index in the given file, and ends the process if it cannot.
 func Open(file string) *Index {
-  mm := mmap(file)
-  if len(mm.d) < 4*4+len(trailerMagic) || string(mm.d[len(mm.d)-len(trailerMagic):]) != trailerMagic {
-    corrupt(mm.f)
+  ix, err := TryOpen(file)
+  if err != nil {
+    log.Fatal(err)
+  }
+  return ix
+}
+
+// TryOpen opens the index in the given file.
+func TryOpen(file string) (*Index, error) {
+  mm, err := mmap(file)
+  if err != nil {
+    return nil, err
+  }
+  if len(mm.d) < 5*4+len(trailerMagic) || string(mm.d[len(mm.d)-len(trailerMagic):]) != trailerMagic {
+    if len(mm.d) == 0 {
+      mm.f.Close()
+    } else {
+      mm.close()
+    }
+    return nil, fmt.Errorf("corrupt index: %s", file)
   }
   n := uint32(len(mm.d) - len(trailerMagic) - 5*4)
   ix := &Index{data: mm}
@@ -107,7 +126,7 @@ func Open(file string) *Index {
   ix.postIndex = ix.uint32(n + 16)
   ix.numName = int((ix.postIndex-ix.nameIndex)/4) - 1
   ix.numPost = int((n - ix.postIndex) / postEntrySize)
-  return ix
+  return ix, nil
 }
 
 // slice returns the slice of index data starting at the given byte offset.
@@ -426,12 +445,16 @@ func (m *mmapData) close() error {
 }
 
 // mmap maps the given file into memory.
-func mmap(file string) mmapData {
+func mmap(file string) (mmapData, error) {
   f, err := os.Open(file)
   if err != nil {
-    log.Fatal(err)
+    return mmapData{}, err
+  }
+  m, err := mmapFile(f)
+  if err != nil {
+    f.Close()
   }
-  return mmapFile(f)
+  return m, err
 }
 
 // File returns the name of the index file to use.
diff --git a/codesearch/index/write.go b/codesearch/index/write.go
index 8cd01d0..2a193f3 100644
--- a/codesearch/index/write.go
+++ b/codesearch/index/write.go
@@ -360,9 +360,12 @@ func (ix *IndexWriter) mergePost(out *bufWriter) {
 
 	log.Printf("merge %d files + mem", len(ix.postFile))
 	for _, f := range ix.postFile {
-		ix.postData = append(
-			ix.postData,
-			h.addFile(f))
+		d, err := h.addFile(f)
+		if err != nil {
+			ix.fail(err)
+			return
+		}
+		ix.postData = append(ix.postData, d)
 	}
 	sortPost(ix.post)
 	h.addMem(ix.post)
@@ -414,11 +417,15 @@ type postHeap struct {
 	ch []*postChunk
 }
 
-func (h *postHeap) addFile(f *os.File) []byte {
-	data := mmapFile(f).d
+func (h *postHeap) addFile(f *os.File) ([]byte, error) {
+	mm, err := mmapFile(f)
+	if err != nil {
+		return nil, err
+	}
+	data := mm.d
 	m := (*[npost]postEntry)(unsafe.Pointer(&data[0]))[:len(data)/8]
 	h.addMem(m)
-	return data
+	return data, nil
 }
 
 func (h *postHeap) addMem(x []postEntry) {
diff --git a/index/index.go b/index/index.go
index 2739ffc..52dbc5a 100644
--- a/index/index.go
+++ b/index/index.go
@@ -99,9 +99,14 @@ func (r *IndexRef) writeManifest() error {
 }
 
 func (r *IndexRef) Open() (*Index, error) {
+	idx, err := index.TryOpen(filepath.Join(r.dir, "tri"))
+	if err != nil {
+		return nil, err
+	}
+
 	return &Index{
 		Ref: r,
-		idx: index.Open(filepath.Join(r.dir, "tri")),
+		idx: idx,
 	}, nil
 }
 
diff --git a/searcher/searcher.go b/searcher/searcher.go
index c8740a6..f4c7bca 100644
--- a/searcher/searcher.go
+++ b/searcher/searcher.go
@@ -258,27 +258,44 @@ func buildAndOpenIndex(
 	idxDir,
 	url,
 	rev string) (*index.Index, error) {
-	if _, err := os.Stat(idxDir); err != nil {
-		r, err := index.Build(opt, idxDir, vcsDir, url, rev)
-		if err != nil {
-			if err := os.RemoveAll(idxDir); err != nil {
-				log.Printf("failed to remove %s: %s", idxDir, err)
-			}
+	if _, err := os.Stat(idxDir); err == nil {
+		idx, err := index.Open(idxDir)
+		if err == nil {
+			// The files are those of the revision, but which of them are configured
+			// to be auto-generated can have changed.
+			idx.Ref.AutoGeneratedFiles = opt.AutoGeneratedFiles
+			return idx, nil
+		}
+
+		// An index that cannot be used is replaced by a new one.
+		log.Printf("failed to open %s: %s", idxDir, err)
+		if err := removeIndex(idxDir); err != nil {
 			return nil, err
 		}
+	}
 
-		return r.Open()
+	idx, err := buildIndex(opt, idxDir, vcsDir, url, rev)
+	if err != nil {
+		if err := removeIndex(idxDir); err != nil {
+			log.Printf("failed to remove %s: %s", idxDir, err)
+		}
+		return nil, err
 	}
+	return idx, nil
+}
 
-	idx, err := index.Open(idxDir)
+func buildIndex(opt *index.IndexOptions, idxDir, vcsDir, url, rev string) (*index.Index, error) {
+	r, err := index.Build(opt, idxDir, vcsDir, url, rev)
 	if err != nil {
 		return nil, err
 	}
+	return r.Open()
+}
 
-	// The files are those of the revision, but which of them are configured to
-	// be auto-generated can have changed.
-	idx.Ref.AutoGeneratedFiles = opt.AutoGeneratedFiles
-	return idx, nil
+// Removes what there is of the index in the given directory.
+func removeIndex(idxDir string) error {
+	ref, _ := index.Read(idxDir)
+	return ref.Remove()
 }
 
 // Simply prints out statistics about the heap. When hound rebuilds a new
-- 
2.43.0


From f1d63e26ecbf8a8a003a40ffed4ad7b3b4892eda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:45 +0000
Subject: [PATCH 32/32] fix: fold the case of characters of the scripts that
 are above U+1044F, too

---
 codesearch/regexp/copy.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/codesearch/regexp/copy.go b/codesearch/regexp/copy.go
index 52d8d40..9838afd 100644
--- a/codesearch/regexp/copy.go
+++ b/codesearch/regexp/copy.go
@@ -77,7 +77,7 @@ const (
 	// minimum and maximum runes involved in folding.
 	// checked during test.
 	minFold = 0x0041
-	maxFold = 0x1044f
+	maxFold = 0x1e943
 )
 
 // appendFoldedRange returns the result of appending the range lo-hi
-- 
2.43.0

