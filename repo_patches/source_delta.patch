From b5eff390bafd4f9efe29987083223a2aa00290d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:38 +0000
Subject: [PATCH 01/11] fix: release the locks on every path of UnAlias and
 keep its check and removal atomic

---
 repos_repo.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/repos_repo.go b/repos_repo.go
index 659ec0d..f69d4b3 100644
--- a/repos_repo.go
+++ b/repos_repo.go
@@ -111,11 +111,12 @@ func (h *IndexRepo) UnAlias(alias, index string) bool {
 	}
 	// only remove an index-alias association
 	h.indicesMu.RLock()
+	defer h.indicesMu.RUnlock()
 	if _, ok := h.indices[index]; !ok {
 		return false
 	}
-	h.indicesMu.RUnlock()
 	h.aliasesMu.Lock()
+	defer h.aliasesMu.Unlock()
 	indices, ok := h.aliases[alias]
 	if !ok {
 		return false
@@ -131,7 +132,6 @@ func (h *IndexRepo) UnAlias(alias, index string) bool {
 	if len(newIndices) != len(indices) {
 		h.aliases[alias] = newIndices
 	}
-	h.aliasesMu.Unlock()
 	return true
 }
 
-- 
2.43.0


From fea6fe9b1261c597b6bace5d7f52f5379f34e102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:38 +0000
Subject: [PATCH 02/11] fix: remove an alias when UnAlias detaches its last
 index

---
 repos_repo.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/repos_repo.go b/repos_repo.go
index f69d4b3..45ec095 100644
--- a/repos_repo.go
+++ b/repos_repo.go
@@ -129,7 +129,9 @@ func (h *IndexRepo) UnAlias(alias, index string) bool {
 			newIndices = append(newIndices, aliasedIndexName)
 		}
 	}
-	if len(newIndices) != len(indices) {
+	if len(newIndices) < 1 {
+		delete(h.aliases, alias)
+	} else if len(newIndices) != len(indices) {
 		h.aliases[alias] = newIndices
 	}
 	return true
-- 
2.43.0


From c4aa1beea3ec5ed17249e70a4d16b9b0e9df072f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:39 +0000
Subject: [PATCH 03/11] fix: renaming an index to its own name must not delete
 it

---
 repos_repo.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/repos_repo.go b/repos_repo.go
index 45ec095..fe63b66 100644
--- a/repos_repo.go
+++ b/repos_repo.go
@@ -146,6 +146,10 @@ func (h *IndexRepo) Rename(old string, new string) bool {
 		h.indicesMu.Unlock()
 		return false
 	}
+	if old == new {
+		h.indicesMu.Unlock()
+		return true
+	}
 	// 2. Perform the swap
 	h.indices[new] = index
 	delete(h.indices, old)
-- 
2.43.0


From f2200de9ed2408c89da2ad64075c68f3ce5f6b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:39 +0000
Subject: [PATCH 04/11] fix: Rename must hold the alias lock while it updates
 aliases

---
 repos_repo.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/repos_repo.go b/repos_repo.go
index fe63b66..00bb496 100644
--- a/repos_repo.go
+++ b/repos_repo.go
@@ -154,6 +154,7 @@ func (h *IndexRepo) Rename(old string, new string) bool {
 	h.indices[new] = index
 	delete(h.indices, old)
 	// 3. Update indices to
+	h.aliasesMu.Lock()
 	for _, indices := range h.aliases {
 		for i, indexName := range indices {
 			if indexName == old {
@@ -161,6 +162,7 @@ func (h *IndexRepo) Rename(old string, new string) bool {
 			}
 		}
 	}
+	h.aliasesMu.Unlock()
 	h.indicesMu.Unlock()
 	return true
 }
-- 
2.43.0


From cdc38a4cc7e249f2b7b18cc29661fe6e6138e4bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:39 +0000
Subject: [PATCH 05/11] fix: renaming onto an index sharing an alias must not
 attach it twice

---
 repos_repo.go | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/repos_repo.go b/repos_repo.go
index 00bb496..575c5b8 100644
--- a/repos_repo.go
+++ b/repos_repo.go
@@ -155,12 +155,30 @@ func (h *IndexRepo) Rename(old string, new string) bool {
 	delete(h.indices, old)
 	// 3. Update indices to
 	h.aliasesMu.Lock()
-	for _, indices := range h.aliases {
+	for alias, indices := range h.aliases {
+		renamed := false
 		for i, indexName := range indices {
 			if indexName == old {
 				indices[i] = new
+				renamed = true
 			}
 		}
+		if !renamed {
+			continue
+		}
+		// the new name may have been attached already: keep its first entry only
+		seen := false
+		newIndices := indices[:0]
+		for _, indexName := range indices {
+			if indexName == new {
+				if seen {
+					continue
+				}
+				seen = true
+			}
+			newIndices = append(newIndices, indexName)
+		}
+		h.aliases[alias] = newIndices
 	}
 	h.aliasesMu.Unlock()
 	h.indicesMu.Unlock()
-- 
2.43.0


From 193959097eb85daa0cf993a681c5e294b31ce254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:39 +0000
Subject: [PATCH 06/11] fix: Put must resolve the name and store the document
 under one lock

---
 repos_repo.go | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/repos_repo.go b/repos_repo.go
index 575c5b8..a6d9eed 100644
--- a/repos_repo.go
+++ b/repos_repo.go
@@ -240,8 +240,8 @@ func (h *IndexRepo) Search(
 }
 
 func (h *IndexRepo) Put(indexName string, doc DocRequest) {
-	indices, ok := h.getIndices(indexName)
 	h.indicesMu.Lock()
+	indices, ok := h.getIndices(indexName)
 	if !ok {
 		// TODO sanitize name
 		// TODO parametrize index engine
@@ -306,12 +306,11 @@ func (h *IndexRepo) ListAliases() AliasesResult {
 	return AliasesResult{Aliases: aliases}
 }
 
+// getIndices resolves a name. The caller must hold indicesMu.
 func (h *IndexRepo) getIndices(name string) ([]Index, bool) {
 	// 1. Search on indices directly
-	h.indicesMu.RLock()
 	in, ok := h.indices[name]
 	if ok {
-		h.indicesMu.RUnlock()
 		return []Index{in}, true
 	}
 	// 2. If not found, search on aliases
@@ -319,14 +318,12 @@ func (h *IndexRepo) getIndices(name string) ([]Index, bool) {
 	aliasedIndices, ok := h.aliases[name]
 	if !ok {
 		h.aliasesMu.RUnlock()
-		h.indicesMu.RUnlock()
 		return nil, false
 	}
 	res := make([]Index, len(aliasedIndices))
 	for i, index := range aliasedIndices {
 		res[i] = h.indices[index]
 	}
-	h.indicesMu.RUnlock()
 	h.aliasesMu.RUnlock()
 	return res, true
 }
-- 
2.43.0


From 6f8de24aa88a67519f91011fb601a1bc6e0790f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:39 +0000
Subject: [PATCH 07/11] fix: Drop must check and remove the index under one
 lock

---
 repos_repo.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/repos_repo.go b/repos_repo.go
index a6d9eed..682ecbc 100644
--- a/repos_repo.go
+++ b/repos_repo.go
@@ -264,14 +264,12 @@ func (h *IndexRepo) Put(indexName string, doc DocRequest) {
 }
 
 func (h *IndexRepo) Drop(indexName string) bool {
-	h.indicesMu.RLock()
+	h.indicesMu.Lock()
 	_, ok := h.indices[indexName]
 	if !ok {
-		h.indicesMu.RUnlock()
+		h.indicesMu.Unlock()
 		return false
 	}
-	h.indicesMu.RUnlock()
-	h.indicesMu.Lock()
 	h.aliasesMu.Lock()
 	// Drop references to index
 	for alias, indices := range h.aliases {
-- 
2.43.0


From 5d4d3b616b81228f9612f8005e447b3ab9aa3857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:39 +0000
Subject: [PATCH 08/11] fix: ListAliases must return copies of the index lists

---
 repos_repo.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/repos_repo.go b/repos_repo.go
index 682ecbc..e7b9738 100644
--- a/repos_repo.go
+++ b/repos_repo.go
@@ -297,7 +297,7 @@ func (h *IndexRepo) ListAliases() AliasesResult {
 	aliases := make([]AliasesResultRow, len(h.aliases))
 	i := 0
 	for k, v := range h.aliases {
-		aliases[i] = AliasesResultRow{Alias: k, Indices: v}
+		aliases[i] = AliasesResultRow{Alias: k, Indices: slices.Copy(v)}
 		i++
 	}
 	h.aliasesMu.RUnlock()
-- 
2.43.0


From 2fe2be8cce8e7c9bf97c870007820ca40a1eeb46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:40 +0000
Subject: [PATCH 09/11] fix: search results over several indices must not
 depend on goroutine scheduling

---
 repos_repo.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/repos_repo.go b/repos_repo.go
index e7b9738..9f61cce 100644
--- a/repos_repo.go
+++ b/repos_repo.go
@@ -225,17 +225,17 @@ func (h *IndexRepo) Search(
 	)
 	wg.Add(len(indices))
 
-	rl := new(sync.Mutex)
-	for _, index := range indices {
-		go func(idx Index) {
+	partial := make([]slices.Slice[SearchResult], len(indices))
+	for i, index := range indices {
+		go func(i int, idx Index) {
 			defer wg.Done()
-			sr := idx.Search(terms, engine)
-			rl.Lock()
-			result.AppendVector(sr)
-			rl.Unlock()
-		}(index)
+			partial[i] = idx.Search(terms, engine)
+		}(i, index)
 	}
 	wg.Wait()
+	for _, sr := range partial {
+		result.AppendVector(sr)
+	}
 	return streams.MemReader(result, nil), nil
 }
 
-- 
2.43.0


From 8f184583f860c21cd1244a53a1f44838f6c41a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:56 +0000
Subject: [PATCH 10/11] fix: HitsSearch must not merge documents that share an
 identifier

---
 search_hits_search.go | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/search_hits_search.go b/search_hits_search.go
index ab7cb97..053b3e9 100644
--- a/search_hits_search.go
+++ b/search_hits_search.go
@@ -45,8 +45,8 @@ func HitsSearch(tokens []string, indexer Indexer) slices.Slice[SearchResult] {
 	// A document must contain ALL tokens to be included in results
 	threshold := len(tokens)
 
-	// Map to count hits per document (using document hash as key for uniqueness)
-	docHits := make(map[HashKey]SearchResult)
+	// Map to count hits per document (using the document index as key: several documents may share an ID)
+	docHits := make(map[int]SearchResult)
 
 	// Phase 1: Count hits for each document
 	for _, token := range tokens {
@@ -59,15 +59,14 @@ func HitsSearch(tokens []string, indexer Indexer) slices.Slice[SearchResult] {
 		// For each document containing this token, increment its hit count
 		for _, index := range indexed {
 			doc := indexer.Document(index)
-			hashKey := doc.Hash()
 
-			if result, exists := docHits[hashKey]; exists {
+			if result, exists := docHits[index]; exists {
 				// Document already seen - increment hit count
 				result.Hits++
-				docHits[hashKey] = result
+				docHits[index] = result
 			} else {
 				// First time seeing this document - initialize with 1 hit
-				docHits[hashKey] = SearchResult{
+				docHits[index] = SearchResult{
 					Document: doc,
 					Hits:     1,
 				}
@@ -81,11 +80,8 @@ func HitsSearch(tokens []string, indexer Indexer) slices.Slice[SearchResult] {
 	// Iterate through documents in index order to ensure deterministic results
 	// This prevents random ordering when documents have the same hit count
 	for i := 0; i < indexer.Len(); i++ {
-		doc := indexer.Document(i)
-		hashKey := doc.Hash()
-
 		// Only include documents that have ALL tokens (hits >= threshold)
-		if result, exists := docHits[hashKey]; exists && result.Hits >= threshold {
+		if result, exists := docHits[i]; exists && result.Hits >= threshold {
 			results = append(results, result)
 		}
 	}
-- 
2.43.0


From cdac5f416b35a528cdb1c9da2b8d3386ef3d6fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:56 +0000
Subject: [PATCH 11/11] fix: an empty R1 must not empty RV

---
 stemmer_spanish_snowball.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/stemmer_spanish_snowball.go b/stemmer_spanish_snowball.go
index a78d696..ec590c8 100644
--- a/stemmer_spanish_snowball.go
+++ b/stemmer_spanish_snowball.go
@@ -49,9 +49,6 @@ func R1R2RV(w []byte) (r1 []byte, r2 []byte, rv []byte) {
 			foundVowel = true
 		}
 	}
-	if r1 == nil {
-		return
-	}
 	// R2
 	foundVowel = false
 	foundNonVowel = false
-- 
2.43.0

