From 9b0cd4556cfdad19eae1334b98a6c3dfb67dbc1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:03 +0000
Subject: [PATCH 01/26] fix: apply weight_mask when retrieving with the numba
 backend

retrieve() validated the mask but never passed it on, so the numba backend
returned documents that the mask excludes.
---
 bm25s/__init__.py             | 1 +
 bm25s/numba/retrieve_utils.py | 4 ++++
 2 files changed, 5 insertions(+)

diff --git a/bm25s/__init__.py b/bm25s/__init__.py
index 2ca7691..b31d029 100644
--- a/bm25s/__init__.py
+++ b/bm25s/__init__.py
@@ -790,6 +790,7 @@ class BM25:
                 dtype=self.dtype,
                 int_dtype=self.int_dtype,
                 nonoccurrence_array=self.nonoccurrence_array,
+                weight_mask=weight_mask,
             )
 
             if return_as == "tuple":
diff --git a/bm25s/numba/retrieve_utils.py b/bm25s/numba/retrieve_utils.py
index c7fee7e..69296d4 100644
--- a/bm25s/numba/retrieve_utils.py
+++ b/bm25s/numba/retrieve_utils.py
@@ -104,6 +104,10 @@ def _retrieve_numba_functional(
     elif n_threads == 0:
         n_threads = 1
     
+    if weight_mask is not None:
+        # the mask must have the dtype of the scores, since numba cannot unify the two otherwise
+        weight_mask = weight_mask.astype(dtype)
+
     # get og thread count
     og_n_threads = get_num_threads()
     set_num_threads(n_threads)
-- 
2.43.0


From 2bee9b82afe039f58b0f918bce1a01406d3eda84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:03 +0000
Subject: [PATCH 02/26] fix: apply weight_mask to the complete score with bm25l
 and bm25+

The mask was applied before the non-occurrence score was added back, so a
masked document kept a positive score and could be returned before documents
that the mask keeps; the numba backend already masks the complete score.
---
 bm25s/__init__.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/bm25s/__init__.py b/bm25s/__init__.py
index b31d029..a6ae578 100644
--- a/bm25s/__init__.py
+++ b/bm25s/__init__.py
@@ -528,16 +528,16 @@ class BM25:
             dtype=dtype,
         )
 
-        if weight_mask is not None:
-            # multiply the scores by the weight mask
-            scores *= weight_mask
-
         # if there's a non-occurrence array, we need to add the non-occurrence score
         # back to the scores
         if self.nonoccurrence_array is not None:
             nonoccurrence_scores = self.nonoccurrence_array[query_tokens_ids].sum()
             scores += nonoccurrence_scores
 
+        if weight_mask is not None:
+            # multiply the scores by the weight mask
+            scores *= weight_mask
+
         return scores
 
     def get_scores(
-- 
2.43.0


From 6954635dbbb86c4d5ff27cb9b9c32c02e489b365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:03 +0000
Subject: [PATCH 03/26] fix: index vocabularies with tokens that occur in no
 document

The atire and bm25+ IDF divide by the document frequency, so indexing the
output of Tokenizer.tokenize(return_as="tuple"), whose vocabulary holds the
empty token, raised ZeroDivisionError.
---
 bm25s/scoring.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/bm25s/scoring.py b/bm25s/scoring.py
index 4b567e7..ed61c5d 100644
--- a/bm25s/scoring.py
+++ b/bm25s/scoring.py
@@ -53,6 +53,9 @@ def _build_idf_array(
     idf_array = np.zeros(n_vocab, dtype=dtype)
 
     for token_id, df in doc_frequencies.items():
+        if df == 0:
+            # the token occurs in no document, so it never contributes to a score
+            continue
         idf_array[token_id] = compute_idf_fn(df, N=n_docs)
 
     return idf_array
@@ -87,6 +90,9 @@ def _build_nonoccurrence_array(
     nonoccurrence_array = np.zeros(n_vocab, dtype=dtype)
 
     for token_id, df in doc_frequencies.items():
+        if df == 0:
+            # the token occurs in no document, so it never contributes to a score
+            continue
         idf = compute_idf_fn(df, N=n_docs)
         tfc = calculate_tfc_fn(
             tf_array=0, l_d=l_d, l_avg=l_avg, k1=k1, b=b, delta=delta
-- 
2.43.0


From d7b32eee4cb04b149f4228828c5df520b8e7c060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:03 +0000
Subject: [PATCH 04/26] fix: write valid JSON when non-ASCII characters are
 escaped

backslashreplace writes \\xe9 and \\U0001f600, which JSON does not have:
stopwords saved with Tokenizer.save_stopwords could not be loaded again for
any language with accents.
---
 bm25s/utils/json_functions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bm25s/utils/json_functions.py b/bm25s/utils/json_functions.py
index 683bf88..5c96a86 100644
--- a/bm25s/utils/json_functions.py
+++ b/bm25s/utils/json_functions.py
@@ -12,8 +12,8 @@ def dumps_with_builtin(d: dict, **kwargs) -> str:
 
 def dumps_with_orjson(d: dict, **kwargs) -> str:
     if kwargs.get("ensure_ascii", True):
-        # Simulate `ensure_ascii=True` by escaping non-ASCII characters
-        return orjson.dumps(d).decode("utf-8").encode("ascii", "backslashreplace").decode("utf-8")
+        # orjson cannot escape non-ASCII characters
+        return dumps_with_builtin(d, **kwargs)
     # Ignore other kwargs not supported by orjson
     return orjson.dumps(d).decode("utf-8")
 
-- 
2.43.0


From 1c1132cce8d2ac79d9ca8f34f2f4032eb56e1d69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:03 +0000
Subject: [PATCH 05/26] fix: restore the numba thread count when retrieval
 fails

---
 bm25s/numba/retrieve_utils.py | 45 ++++++++++++++++++-----------------
 1 file changed, 23 insertions(+), 22 deletions(-)

diff --git a/bm25s/numba/retrieve_utils.py b/bm25s/numba/retrieve_utils.py
index 69296d4..9f09cb0 100644
--- a/bm25s/numba/retrieve_utils.py
+++ b/bm25s/numba/retrieve_utils.py
@@ -113,28 +113,29 @@ def _retrieve_numba_functional(
     set_num_threads(n_threads)
 
 
-    # convert query_tokens_ids from list of list to a flat 1-d np.ndarray with
-    # pointers to the start of each query to be used to find the boundaries of each query
-    query_pointers = np.cumsum([0] + [len(q) for q in query_tokens_ids], dtype=int_dtype)
-    query_tokens_ids_flat = np.concatenate(query_tokens_ids).astype(int_dtype)
-
-    retrieved_scores, retrieved_indices = _retrieve_internal_jitted_parallel(
-        query_pointers=query_pointers,
-        query_tokens_ids_flat=query_tokens_ids_flat,
-        k=k,
-        sorted=sorted,
-        dtype=np.dtype(dtype),
-        int_dtype=np.dtype(int_dtype),
-        data=scores["data"],
-        indptr=scores["indptr"],
-        indices=scores["indices"],
-        num_docs=scores["num_docs"],
-        nonoccurrence_array=nonoccurrence_array,
-        weight_mask=weight_mask,
-    )
-
-    # reset the number of threads
-    set_num_threads(og_n_threads)
+    try:
+        # convert query_tokens_ids from list of list to a flat 1-d np.ndarray with
+        # pointers to the start of each query to be used to find the boundaries of each query
+        query_pointers = np.cumsum([0] + [len(q) for q in query_tokens_ids], dtype=int_dtype)
+        query_tokens_ids_flat = np.concatenate(query_tokens_ids).astype(int_dtype)
+
+        retrieved_scores, retrieved_indices = _retrieve_internal_jitted_parallel(
+            query_pointers=query_pointers,
+            query_tokens_ids_flat=query_tokens_ids_flat,
+            k=k,
+            sorted=sorted,
+            dtype=np.dtype(dtype),
+            int_dtype=np.dtype(int_dtype),
+            data=scores["data"],
+            indptr=scores["indptr"],
+            indices=scores["indices"],
+            num_docs=scores["num_docs"],
+            nonoccurrence_array=nonoccurrence_array,
+            weight_mask=weight_mask,
+        )
+    finally:
+        # reset the number of threads
+        set_num_threads(og_n_threads)
 
     if corpus is None:
         retrieved_docs = retrieved_indices
-- 
2.43.0


From 16997d612696c825ac0c0d4d4f5dd2de5190c18c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:03 +0000
Subject: [PATCH 06/26] fix: reject k larger than the corpus in the numba
 backend

retrieve() raised SystemError and topk() returned fewer than k results, where
the numpy backend raises ValueError.
---
 bm25s/numba/retrieve_utils.py | 7 +++++++
 bm25s/numba/selection.py      | 6 ++++++
 2 files changed, 13 insertions(+)

diff --git a/bm25s/numba/retrieve_utils.py b/bm25s/numba/retrieve_utils.py
index 9f09cb0..8081a71 100644
--- a/bm25s/numba/retrieve_utils.py
+++ b/bm25s/numba/retrieve_utils.py
@@ -99,6 +99,13 @@ def _retrieve_numba_functional(
     else:
         pass
 
+    if k > scores["num_docs"]:
+        raise ValueError(
+            f"k of {k} is larger than the number of available scores"
+            f", which is {scores['num_docs']} (corpus size should be larger than top-k)."
+            f" Please set with a smaller k or increase the size of corpus."
+        )
+
     if n_threads == -1:
         n_threads = os.cpu_count()
     elif n_threads == 0:
diff --git a/bm25s/numba/selection.py b/bm25s/numba/selection.py
index e851e35..5d57f01 100644
--- a/bm25s/numba/selection.py
+++ b/bm25s/numba/selection.py
@@ -133,6 +133,12 @@ def topk(query_scores, k, backend="numba", sorted=True):
         raise ValueError(
             "Invalid backend. Only 'numba' is supported."
         )
+    elif k > len(query_scores):
+        raise ValueError(
+            f"k of {k} is larger than the number of available scores"
+            f", which is {len(query_scores)} (corpus size should be larger than top-k)."
+            f" Please set with a smaller k or increase the size of corpus."
+        )
     elif backend == "numba":
         uns_scores, uns_indices = _numba_sorted_top_k(query_scores, k)
         if sorted:
-- 
2.43.0


From 7a680ac5bdd34556bb26403529074d9bd02e3fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:21 +0000
Subject: [PATCH 07/26] fix: do not modify the caller's vocabulary when
 indexing

---
 bm25s/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bm25s/__init__.py b/bm25s/__init__.py
index a6ae578..b69f794 100644
--- a/bm25s/__init__.py
+++ b/bm25s/__init__.py
@@ -468,6 +468,8 @@ class BM25:
                     "Internal error: Found an invalid corpus object, indicating `_inferred_corpus_object` is not working correctly."
                 )
 
+            # copy, so that the vocabulary given by the caller is not modified below
+            vocab_dict = dict(vocab_dict)
             unique_token_ids = list(vocab_dict.values())
             scores = self.build_index_from_ids(
                 unique_token_ids=unique_token_ids,
-- 
2.43.0


From 41f3854e740494129101f7488acd2f2d61de49ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:21 +0000
Subject: [PATCH 08/26] fix: keep the token IDs when indexing a list of lists
 of token IDs

---
 bm25s/__init__.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bm25s/__init__.py b/bm25s/__init__.py
index b69f794..29a0f4f 100644
--- a/bm25s/__init__.py
+++ b/bm25s/__init__.py
@@ -384,6 +384,10 @@ class BM25:
             leave_progress=leave_progress,
             desc="BM25S Create Vocab",
         )
+        if all(isinstance(token, int) and token >= 0 for token in unique_tokens):
+            # the tokens already are IDs: keep them, since queries will use the same IDs
+            unique_tokens = range(max(unique_tokens, default=-1) + 1)
+
         vocab_dict = {token: i for i, token in enumerate(unique_tokens)}
         unique_token_ids = [vocab_dict[token] for token in unique_tokens]
 
-- 
2.43.0


From 81188988658e0941bcc46ed45370ffb2d7d7bd69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:21 +0000
Subject: [PATCH 09/26] fix: give the empty token an empty postings list

---
 bm25s/__init__.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/bm25s/__init__.py b/bm25s/__init__.py
index 29a0f4f..cb218e6 100644
--- a/bm25s/__init__.py
+++ b/bm25s/__init__.py
@@ -488,7 +488,13 @@ class BM25:
                 pass
             
             if "" not in vocab_dict:
-                vocab_dict[""] = max(vocab_dict.values()) + 1
+                vocab_dict[""] = max(vocab_dict.values(), default=-1) + 1
+                # the empty token occurs in no document, so its postings are empty
+                scores["indptr"] = np.append(scores["indptr"], scores["indptr"][-1:])
+                if self.nonoccurrence_array is not None:
+                    self.nonoccurrence_array = np.append(
+                        self.nonoccurrence_array, np.zeros(1, dtype=self.dtype)
+                    )
 
         self.scores = scores
         self.vocab_dict = vocab_dict
-- 
2.43.0


From f3bed5b41d7c786b63ae0bfa18113c43401a93d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:42 +0000
Subject: [PATCH 10/26] fix: save vocabularies with integer tokens when orjson
 is installed

---
 bm25s/utils/json_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bm25s/utils/json_functions.py b/bm25s/utils/json_functions.py
index 5c96a86..9d5166b 100644
--- a/bm25s/utils/json_functions.py
+++ b/bm25s/utils/json_functions.py
@@ -15,7 +15,7 @@ def dumps_with_orjson(d: dict, **kwargs) -> str:
         # orjson cannot escape non-ASCII characters
         return dumps_with_builtin(d, **kwargs)
     # Ignore other kwargs not supported by orjson
-    return orjson.dumps(d).decode("utf-8")
+    return orjson.dumps(d, option=orjson.OPT_NON_STR_KEYS).decode("utf-8")
 
 if ORJSON_AVAILABLE:
     def dumps(d: dict, **kwargs) -> str:
-- 
2.43.0


From f43915e53ada20d2939ae67444f7ccbc09ae9122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:42 +0000
Subject: [PATCH 11/26] fix: detect the type of the query tokens when the first
 query is empty

---
 bm25s/__init__.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/bm25s/__init__.py b/bm25s/__init__.py
index cb218e6..955f92a 100644
--- a/bm25s/__init__.py
+++ b/bm25s/__init__.py
@@ -94,7 +94,10 @@ def is_list_of_list_of_type(obj, type_=int):
     if len(obj) == 0:
         return False
 
-    first_elem = obj[0]
+    # empty lists have no type, so we look at the first list that is not empty
+    first_elem = next(
+        (elem for elem in obj if not isinstance(elem, list) or len(elem) > 0), []
+    )
     if not isinstance(first_elem, list):
         return False
 
@@ -780,7 +783,10 @@ class BM25:
             # if is list of list of int
             if is_list_of_list_of_type(query_tokens, type_=int):
                 query_tokens_ids = query_tokens
-            elif is_list_of_list_of_type(query_tokens, type_=str):
+            elif is_list_of_list_of_type(query_tokens, type_=str) or (
+                isinstance(query_tokens, list) and not any(query_tokens)
+            ):
+                # note: if all queries are empty, their tokens have no type
                 query_tokens_ids = [self.get_tokens_ids(q) for q in query_tokens]
             else:
                 raise ValueError(
-- 
2.43.0


From 622aad3c8b22f815ee586d650077a66386895410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:42 +0000
Subject: [PATCH 12/26] fix: reject negative token IDs in queries

---
 bm25s/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bm25s/__init__.py b/bm25s/__init__.py
index 955f92a..24d0372 100644
--- a/bm25s/__init__.py
+++ b/bm25s/__init__.py
@@ -528,6 +528,9 @@ class BM25:
 
         max_token_id = int(query_tokens_ids.max(initial=0))
 
+        if int(query_tokens_ids.min(initial=0)) < 0:
+            raise ValueError("The token IDs in the query must not be negative.")
+
         if max_token_id >= len(indptr) - 1:
             raise ValueError(
                 f"The maximum token ID in the query ({max_token_id}) is higher than the number of tokens in the index."
-- 
2.43.0


From 56d082d59ecc7a79e7628f9a58bf08e85f2f0d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:42 +0000
Subject: [PATCH 13/26] fix: keep every judged document of a query in
 load_qrels

---
 bm25s/utils/beir.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bm25s/utils/beir.py b/bm25s/utils/beir.py
index e14fe68..97726e2 100644
--- a/bm25s/utils/beir.py
+++ b/bm25s/utils/beir.py
@@ -271,7 +271,10 @@ def load_qrels(
             qrels.append((qid, cid, int(score)))
 
     if return_dict:
-        qrels = {qid: {cid: score} for qid, cid, score in qrels}
+        qrels_dict = {}
+        for qid, cid, score in qrels:
+            qrels_dict.setdefault(qid, {})[cid] = score
+        qrels = qrels_dict
 
     return qrels
 
-- 
2.43.0


From 934e6237705caad6d485377c1fd125e2986a12c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:42 +0000
Subject: [PATCH 14/26] fix: keep saved corpus lines aligned when a document is
 skipped

---
 bm25s/__init__.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/bm25s/__init__.py b/bm25s/__init__.py
index 24d0372..fefa462 100644
--- a/bm25s/__init__.py
+++ b/bm25s/__init__.py
@@ -981,14 +981,15 @@ class BM25:
                         logging.warning(
                             f"Document at index {i} is not a string, dictionary, list or tuple. Skipping."
                         )
-                        continue
+                        # keep the line, so that line i is still the i-th document
+                        doc = None
 
                     try:
                         doc_str = json_functions.dumps(doc, ensure_ascii=False)
                     except Exception as e:
                         logging.warning(f"Error saving document at index {i}: {e}")
-                    else:
-                        f.write(doc_str + "\n")
+                        doc_str = "null"
+                    f.write(doc_str + "\n")
 
             # also save corpus.mmindex
             mmidx = utils.corpus.find_newline_positions(save_dir / corpus_name)
-- 
2.43.0


From 3c5615330b7dd578251e9085e3c0f685d7a90626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:42 +0000
Subject: [PATCH 15/26] fix: place the mmindex next to corpus files without
 extension

---
 bm25s/utils/corpus.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bm25s/utils/corpus.py b/bm25s/utils/corpus.py
index b06ebba..8b1478f 100644
--- a/bm25s/utils/corpus.py
+++ b/bm25s/utils/corpus.py
@@ -21,7 +21,7 @@ from . import json_functions
 
 def change_extension(path, new_extension):
     path = str(path)
-    return path.rpartition(".")[0] + new_extension
+    return os.path.splitext(path)[0] + new_extension
 
 
 def find_newline_positions(path, show_progress=True, leave_progress=True, encoding="utf-8"):
-- 
2.43.0


From bc3c2052ebad2f318c5c2ebfcc7e5bd5a1f4259a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:42 +0000
Subject: [PATCH 16/26] fix: give the empty token the ID of the empty stem in
 Tokenizer

---
 bm25s/tokenization.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/bm25s/tokenization.py b/bm25s/tokenization.py
index 2308e01..e9337ef 100644
--- a/bm25s/tokenization.py
+++ b/bm25s/tokenization.py
@@ -223,13 +223,14 @@ class Tokenizer:
             
         if allow_empty is True and update_vocab is True and "" not in self.word_to_id:
             idx = max(self.word_to_id.values(), default=-1) + 1
-            self.word_to_id[""] = idx
             
             if using_stemmer:
                 if "" not in self.word_to_stem:
                     self.word_to_stem[""] = ""
-                if "" not in self.stem_to_sid:
-                    self.stem_to_sid[""] = idx
+                # a word may already have been stemmed to an empty string
+                idx = self.stem_to_sid.setdefault("", len(self.stem_to_sid))
+
+            self.word_to_id[""] = idx
         
         for text in texts:
             if self.lower:
-- 
2.43.0


From 5123ababf520516b63155289feb0d6132aed1429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:42 +0000
Subject: [PATCH 17/26] fix: do not count the time after a pause when a timer
 is stopped

---
 bm25s/utils/benchmark.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bm25s/utils/benchmark.py b/bm25s/utils/benchmark.py
index 6edf651..babe033 100644
--- a/bm25s/utils/benchmark.py
+++ b/bm25s/utils/benchmark.py
@@ -49,7 +49,8 @@ class Timer:
         stop_time = time.monotonic()
         r = self.results[name]
         r["stopped"] = stop_time
-        r["elapsed"] += stop_time - r.pop("last")
+        # if the timer is paused, the elapsed time was already added
+        r["elapsed"] += stop_time - r.pop("last", stop_time)
 
         if show:
             self.show(name, n_total=n_total)
@@ -66,7 +67,7 @@ class Timer:
         paused_time = time.monotonic()
         r = self.results[name]
 
-        r["elapsed"] += paused_time - r["last"]
+        r["elapsed"] += paused_time - r.pop("last", paused_time)
 
     def resume(self, name):
         # if not self.has_started(name):
-- 
2.43.0


From f8b3a60bed57714c746b77d9d7e123133dc4559b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:42 +0000
Subject: [PATCH 18/26] fix: read corpus lines without moving the shared mmap
 cursor

---
 bm25s/utils/corpus.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/bm25s/utils/corpus.py b/bm25s/utils/corpus.py
index 8b1478f..7878bdf 100644
--- a/bm25s/utils/corpus.py
+++ b/bm25s/utils/corpus.py
@@ -87,8 +87,11 @@ def get_line(
     else:
         CLOSE_MMAP = False
 
-    mmap_obj.seek(mmindex[index])
-    result = mmap_obj.readline().decode(encoding)
+    # do not use the cursor of mmap_obj, since it may be shared between threads
+    start = mmindex[index]
+    end = mmap_obj.find(b"\n", start)
+    end = len(mmap_obj) if end == -1 else end + 1
+    result = mmap_obj[start:end].decode(encoding)
 
     if CLOSE_MMAP:
         mmap_obj.close()
-- 
2.43.0


From 1ab94df073d362b8848d213145ef1bb548f9dc65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:04 +0000
Subject: [PATCH 19/26] fix: delete the temporary directory when saving to the
 hub fails

---
 bm25s/hf.py | 128 +++++++++++++++++++++++++++-------------------------
 1 file changed, 67 insertions(+), 61 deletions(-)

diff --git a/bm25s/hf.py b/bm25s/hf.py
index 33955a2..fa240c0 100644
--- a/bm25s/hf.py
+++ b/bm25s/hf.py
@@ -298,19 +298,21 @@ class TokenizerHF(Tokenizer):
             # save to a temporary directory otherwise
             save_dir = tempfile.mkdtemp()
 
-        self.save_vocab(save_dir)
-        # push content of the temporary directory to the repo
-        api.upload_folder(
-            repo_id=repo_id,
-            commit_message=commit_message,
-            token=api.token,
-            folder_path=save_dir,
-            repo_type=repo_url.repo_type,
-            **kwargs,
-        )
-        # delete the temporary directory if it was created
-        if not saving_locally:
-            shutil.rmtree(save_dir)
+        try:
+            self.save_vocab(save_dir)
+            # push content of the temporary directory to the repo
+            api.upload_folder(
+                repo_id=repo_id,
+                commit_message=commit_message,
+                token=api.token,
+                folder_path=save_dir,
+                repo_type=repo_url.repo_type,
+                **kwargs,
+            )
+        finally:
+            # delete the temporary directory if it was created
+            if not saving_locally:
+                shutil.rmtree(save_dir)
 
         return repo_url
     
@@ -410,19 +412,21 @@ class TokenizerHF(Tokenizer):
             # save to a temporary directory otherwise
             save_dir = tempfile.mkdtemp()
 
-        self.save_stopwords(save_dir)
-        # push content of the temporary directory to the repo
-        api.upload_folder(
-            repo_id=repo_id,
-            commit_message=commit_message,
-            token=api.token,
-            folder_path=save_dir,
-            repo_type=repo_url.repo_type,
-            **kwargs,
-        )
-        # delete the temporary directory if it was created
-        if not saving_locally:
-            shutil.rmtree(save_dir)
+        try:
+            self.save_stopwords(save_dir)
+            # push content of the temporary directory to the repo
+            api.upload_folder(
+                repo_id=repo_id,
+                commit_message=commit_message,
+                token=api.token,
+                folder_path=save_dir,
+                repo_type=repo_url.repo_type,
+                **kwargs,
+            )
+        finally:
+            # delete the temporary directory if it was created
+            if not saving_locally:
+                shutil.rmtree(save_dir)
 
         return repo_url
     
@@ -542,42 +546,44 @@ class BM25HF(BM25):
             # save to a temporary directory otherwise
             save_dir = tempfile.mkdtemp()
 
-        self.save(save_dir, corpus=corpus, allow_pickle=allow_pickle)
-        # if we include the README, write it to the directory
-        if include_readme:
-            num_docs = self.scores["num_docs"]
-            num_tokens = self.scores["data"].shape[0]
-            avg_tokens_per_doc = round(num_tokens / num_docs, 2)
-
-            results = README_TEMPLATE.format(
-                username=username,
-                version=__version__,
-                repo_name=repo_name,
-                num_docs=num_docs,
-                num_tokens=num_tokens,
-                avg_tokens_per_doc=avg_tokens_per_doc,
-                k1=self.k1,
-                b=self.b,
-                delta=self.delta,
-                method=self.method,
-                idf_method=self.idf_method,
+        try:
+            self.save(save_dir, corpus=corpus, allow_pickle=allow_pickle)
+            # if we include the README, write it to the directory
+            if include_readme:
+                num_docs = self.scores["num_docs"]
+                num_tokens = self.scores["data"].shape[0]
+                avg_tokens_per_doc = round(num_tokens / num_docs, 2)
+
+                results = README_TEMPLATE.format(
+                    username=username,
+                    version=__version__,
+                    repo_name=repo_name,
+                    num_docs=num_docs,
+                    num_tokens=num_tokens,
+                    avg_tokens_per_doc=avg_tokens_per_doc,
+                    k1=self.k1,
+                    b=self.b,
+                    delta=self.delta,
+                    method=self.method,
+                    idf_method=self.idf_method,
+                )
+
+                with open(os.path.join(save_dir, "README.md"), "w") as f:
+                    f.write(results)
+
+            # push content of the temporary directory to the repo
+            api.upload_folder(
+                repo_id=repo_id,
+                commit_message=commit_message,
+                token=api.token,
+                folder_path=save_dir,
+                repo_type=repo_url.repo_type,
+                **kwargs,
             )
-
-            with open(os.path.join(save_dir, "README.md"), "w") as f:
-                f.write(results)
-
-        # push content of the temporary directory to the repo
-        api.upload_folder(
-            repo_id=repo_id,
-            commit_message=commit_message,
-            token=api.token,
-            folder_path=save_dir,
-            repo_type=repo_url.repo_type,
-            **kwargs,
-        )
-        # delete the temporary directory if it was created
-        if not saving_locally:
-            shutil.rmtree(save_dir)
+        finally:
+            # delete the temporary directory if it was created
+            if not saving_locally:
+                shutil.rmtree(save_dir)
 
         return repo_url
 
-- 
2.43.0


From 6cc3c3a789a0614a68834304ce2593e58b475d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:04 +0000
Subject: [PATCH 20/26] fix: read and write text files as UTF-8 whatever the
 locale

---
 bm25s/__init__.py     |  4 ++--
 bm25s/hf.py           |  2 +-
 bm25s/tokenization.py |  4 ++--
 bm25s/utils/beir.py   | 16 ++++++++--------
 4 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/bm25s/__init__.py b/bm25s/__init__.py
index fefa462..90dc395 100644
--- a/bm25s/__init__.py
+++ b/bm25s/__init__.py
@@ -959,7 +959,7 @@ class BM25:
             version=__version__,
             backend=self.backend,
         )
-        with open(params_path, "w") as f:
+        with open(params_path, "w", encoding="utf-8") as f:
             json.dump(params, f, indent=4)
 
         corpus = corpus if corpus is not None else self.corpus
@@ -1121,7 +1121,7 @@ class BM25:
 
         # Load the parameters
         params_path = save_dir / params_name
-        with open(params_path, "r") as f:
+        with open(params_path, "r", encoding="utf-8") as f:
             params: dict = json_functions.loads(f.read())
 
         # Load the vocab dictionary
diff --git a/bm25s/hf.py b/bm25s/hf.py
index fa240c0..73f1513 100644
--- a/bm25s/hf.py
+++ b/bm25s/hf.py
@@ -568,7 +568,7 @@ class BM25HF(BM25):
                     idf_method=self.idf_method,
                 )
 
-                with open(os.path.join(save_dir, "README.md"), "w") as f:
+                with open(os.path.join(save_dir, "README.md"), "w", encoding="utf-8") as f:
                     f.write(results)
 
             # push content of the temporary directory to the repo
diff --git a/bm25s/tokenization.py b/bm25s/tokenization.py
index e9337ef..709a7cf 100644
--- a/bm25s/tokenization.py
+++ b/bm25s/tokenization.py
@@ -172,7 +172,7 @@ class Tokenizer:
         path = save_dir / stopwords_name
 
         save_dir.mkdir(parents=True, exist_ok=True)
-        with open(path, "w") as f:
+        with open(path, "w", encoding="utf-8") as f:
             f.write(json_functions.dumps(self.stopwords))
     
     def load_stopwords(self, save_dir: str, stopwords_name: str = "stopwords.tokenizer.json"):
@@ -189,7 +189,7 @@ class Tokenizer:
         """
         path = Path(save_dir) / stopwords_name
 
-        with open(path, "r") as f:
+        with open(path, "r", encoding="utf-8") as f:
             self.stopwords = json_functions.loads(f.read())
 
     def streaming_tokenize(
diff --git a/bm25s/utils/beir.py b/bm25s/utils/beir.py
index 97726e2..33d3ffb 100644
--- a/bm25s/utils/beir.py
+++ b/bm25s/utils/beir.py
@@ -53,12 +53,12 @@ def merge_cqa_dupstack(data_path):
         # combine all the corpus files into one
         # corpus files are located under cqadupstack/<name>/corpus.jsonl
         corpus_files = list(data_path.glob("*/corpus.jsonl"))
-        with open(corpus_path, "w") as f:
+        with open(corpus_path, "w", encoding="utf-8") as f:
             for file in tqdm(corpus_files, desc="Merging Corpus", leave=False):
                 # get the name of the corpus
                 corpus_name = file.parent.name
 
-                with open(file, "r") as f2:
+                with open(file, "r", encoding="utf-8") as f2:
                     for line in tqdm(
                         f2, desc=f"Merging {corpus_name} Corpus", leave=False
                     ):
@@ -73,12 +73,12 @@ def merge_cqa_dupstack(data_path):
     queries_path = data_path / "queries.jsonl"
     if not queries_path.exists():
         queries_files = list(data_path.glob("*/queries.jsonl"))
-        with open(queries_path, "w") as f:
+        with open(queries_path, "w", encoding="utf-8") as f:
             for file in tqdm(queries_files, desc="Merging Queries", leave=False):
                 # get the name of the corpus
                 corpus_name = file.parent.name
 
-                with open(file, "r") as f2:
+                with open(file, "r", encoding="utf-8") as f2:
                     for line in tqdm(
                         f2, desc=f"Merging {corpus_name} Queries", leave=False
                     ):
@@ -95,13 +95,13 @@ def merge_cqa_dupstack(data_path):
 
     if not qrels_path.exists():
         qrels_files = list(data_path.glob("*/qrels/test.tsv"))
-        with open(qrels_path, "w") as f:
+        with open(qrels_path, "w", encoding="utf-8") as f:
             # First, write the columns: query-id	corpus-id	score
             f.write("query-id\tcorpus-id\tscore\n")
             for file in tqdm(qrels_files, desc="Merging Qrels", leave=False):
                 # get the name of the corpus
                 corpus_name = file.parent.parent.name
-                with open(file, "r") as f2:
+                with open(file, "r", encoding="utf-8") as f2:
                     # skip first line
                     next(f2)
 
@@ -192,7 +192,7 @@ def load_jsonl(
         raise FileNotFoundError(f"Corpus file not found at {corpus_path}")
 
     corpus = []
-    with open(corpus_path, "r") as f:
+    with open(corpus_path, "r", encoding="utf-8") as f:
         # get the number of bytes in the file
         num_lines = sum(1 for i in open(corpus_path, "rb"))
         pbar = tqdm(
@@ -258,7 +258,7 @@ def load_qrels(
         raise FileNotFoundError(f"Qrels file not found at {qrels_path}")
 
     qrels = []
-    with open(qrels_path, "r") as f:
+    with open(qrels_path, "r", encoding="utf-8") as f:
         # skip first line
         next(f)
         for line in tqdm(
-- 
2.43.0


From c69a8ef71178078062d7729548ec3fc3e8e64942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:32 +0000
Subject: [PATCH 21/26] fix: do not reuse interrupted BEIR downloads and merges

---
 bm25s/utils/beir.py | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/bm25s/utils/beir.py b/bm25s/utils/beir.py
index 33d3ffb..4055954 100644
--- a/bm25s/utils/beir.py
+++ b/bm25s/utils/beir.py
@@ -1,4 +1,5 @@
 import logging
+import os
 from pathlib import Path
 from typing import Dict, List, Tuple
 
@@ -53,7 +54,8 @@ def merge_cqa_dupstack(data_path):
         # combine all the corpus files into one
         # corpus files are located under cqadupstack/<name>/corpus.jsonl
         corpus_files = list(data_path.glob("*/corpus.jsonl"))
-        with open(corpus_path, "w", encoding="utf-8") as f:
+        partial_path = corpus_path.with_suffix(".partial")
+        with open(partial_path, "w", encoding="utf-8") as f:
             for file in tqdm(corpus_files, desc="Merging Corpus", leave=False):
                 # get the name of the corpus
                 corpus_name = file.parent.name
@@ -68,12 +70,15 @@ def merge_cqa_dupstack(data_path):
                         # write back to file
                         f.write(json_functions.dumps(line))
                         f.write("\n")
+        # an interrupted merge must not leave an incomplete file behind
+        os.replace(partial_path, corpus_path)
 
     # now, do the same for queries.jsonl
     queries_path = data_path / "queries.jsonl"
     if not queries_path.exists():
         queries_files = list(data_path.glob("*/queries.jsonl"))
-        with open(queries_path, "w", encoding="utf-8") as f:
+        partial_path = queries_path.with_suffix(".partial")
+        with open(partial_path, "w", encoding="utf-8") as f:
             for file in tqdm(queries_files, desc="Merging Queries", leave=False):
                 # get the name of the corpus
                 corpus_name = file.parent.name
@@ -88,6 +93,8 @@ def merge_cqa_dupstack(data_path):
                         # write back to file
                         f.write(json_functions.dumps(line))
                         f.write("\n")
+        # an interrupted merge must not leave an incomplete file behind
+        os.replace(partial_path, queries_path)
 
     # now, do the same for qrels/test.tsv
     qrels_path = data_path / "qrels" / "test.tsv"
@@ -95,7 +102,8 @@ def merge_cqa_dupstack(data_path):
 
     if not qrels_path.exists():
         qrels_files = list(data_path.glob("*/qrels/test.tsv"))
-        with open(qrels_path, "w", encoding="utf-8") as f:
+        partial_path = qrels_path.with_suffix(".partial")
+        with open(partial_path, "w", encoding="utf-8") as f:
             # First, write the columns: query-id	corpus-id	score
             f.write("query-id\tcorpus-id\tscore\n")
             for file in tqdm(qrels_files, desc="Merging Qrels", leave=False):
@@ -115,6 +123,8 @@ def merge_cqa_dupstack(data_path):
                         cid = f"{corpus_name}_{cid}"
                         # write back to file
                         f.write(f"{qid}\t{cid}\t{score}\n")
+        # an interrupted merge must not leave an incomplete file behind
+        os.replace(partial_path, qrels_path)
 
 
 def download_dataset(
@@ -147,7 +157,8 @@ def download_dataset(
             leave=False,
             disable=not show_progress,
         )
-        with open(save_zip_path, "wb") as f:
+        partial_path = save_zip_path.with_suffix(".partial")
+        with open(partial_path, "wb") as f:
             response = urllib.request.urlopen(url)
             total_size = int(response.headers.get("content-length", 0))
             block_size = 8192 * 2
@@ -160,6 +171,8 @@ def download_dataset(
                 f.write(buffer)
                 pbar.update(len(buffer))
 
+        # an interrupted download must not leave an incomplete file behind
+        os.replace(partial_path, save_zip_path)
         pbar.close()
 
     # now that we have the zip file, extract it
-- 
2.43.0


From 2b6e861f5c0f982cf34b5158264e20627e7a7709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:32 +0000
Subject: [PATCH 22/26] fix: do not modify the caller's results in evaluate

---
 bm25s/utils/beir.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bm25s/utils/beir.py b/bm25s/utils/beir.py
index 4055954..c976146 100644
--- a/bm25s/utils/beir.py
+++ b/bm25s/utils/beir.py
@@ -315,6 +315,8 @@ def evaluate(
             "For evaluation, we ignore identical query and document ids (default), please explicitly set ``ignore_identical_ids=False`` to ignore this."
         )
         popped = []
+        # copy, so that the results given by the caller are not modified
+        results = {qid: dict(rels) for qid, rels in results.items()}
         for qid, rels in results.items():
             for pid in list(rels):
                 if qid == pid:
-- 
2.43.0


From 12ac2f2091fa7add9fbbbe86b6230e377e23bb59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:32 +0000
Subject: [PATCH 23/26] fix: retrieve documents that are lists or tuples

---
 bm25s/__init__.py             |  2 +-
 bm25s/numba/retrieve_utils.py |  4 +++-
 bm25s/utils/corpus.py         | 17 ++++++++++++++++-
 3 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/bm25s/__init__.py b/bm25s/__init__.py
index 90dc395..e23d829 100644
--- a/bm25s/__init__.py
+++ b/bm25s/__init__.py
@@ -862,7 +862,7 @@ class BM25:
             else:
                 index_flat = indices.flatten().tolist()
                 results = [corpus[i] for i in index_flat]
-                retrieved_docs = np.array(results).reshape(indices.shape)
+                retrieved_docs = utils.corpus.documents_to_array(results, indices.shape)
 
         if return_as == "tuple":
             return Results(documents=retrieved_docs, scores=scores)
diff --git a/bm25s/numba/retrieve_utils.py b/bm25s/numba/retrieve_utils.py
index 8081a71..5cbedfa 100644
--- a/bm25s/numba/retrieve_utils.py
+++ b/bm25s/numba/retrieve_utils.py
@@ -155,7 +155,9 @@ def _retrieve_numba_functional(
         else:
             index_flat = retrieved_indices.flatten().tolist()
             results = [corpus[i] for i in index_flat]
-            retrieved_docs = np.array(results).reshape(retrieved_indices.shape)
+            retrieved_docs = utils.corpus.documents_to_array(
+                results, retrieved_indices.shape
+            )
 
     if return_as == "tuple":
         return retrieved_docs, retrieved_scores
diff --git a/bm25s/utils/corpus.py b/bm25s/utils/corpus.py
index 7878bdf..024d956 100644
--- a/bm25s/utils/corpus.py
+++ b/bm25s/utils/corpus.py
@@ -24,6 +24,21 @@ def change_extension(path, new_extension):
     return os.path.splitext(path)[0] + new_extension
 
 
+def documents_to_array(documents, shape):
+    """
+    Put a flat list of documents in an array of the given shape.
+    """
+    if any(isinstance(doc, (list, tuple)) for doc in documents):
+        # a document that is a list or a tuple is a single element of the array
+        array = np.empty(len(documents), dtype=object)
+        for i, doc in enumerate(documents):
+            array[i] = doc
+    else:
+        array = np.array(documents)
+
+    return array.reshape(shape)
+
+
 def find_newline_positions(path, show_progress=True, leave_progress=True, encoding="utf-8"):
     path = str(path)
     indexes = []
@@ -177,7 +192,7 @@ class JsonlCorpus:
             # was a list, and then reshape it back to the original shape
             index_flat = index.flatten().tolist()
             results = [self.__getitem__(i) for i in index_flat]
-            reshaped = np.array(results).reshape(index.shape)
+            reshaped = documents_to_array(results, index.shape)
             return reshaped
         
         raise TypeError("Invalid index type")
-- 
2.43.0


From 0726bf2e69bbdc184f7d955f546fdf68829f7ca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:33 +0000
Subject: [PATCH 24/26] fix: load BEIR records that lack a field to be removed

---
 bm25s/utils/beir.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bm25s/utils/beir.py b/bm25s/utils/beir.py
index c976146..8bcbfe1 100644
--- a/bm25s/utils/beir.py
+++ b/bm25s/utils/beir.py
@@ -221,7 +221,7 @@ def load_jsonl(
                 line["title"] = line.get("title")
             if remove is not None:
                 for key in remove:
-                    del line[key]
+                    line.pop(key, None)
             corpus.append(line)
             # update the progress bar wrt the number of bytes read
 
-- 
2.43.0


From 0b9796c3978c800b024f95946f11fa744990d34d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:44 +0000
Subject: [PATCH 25/26] fix: do not take a truncated download for a complete
 one

---
 bm25s/utils/beir.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/bm25s/utils/beir.py b/bm25s/utils/beir.py
index 8bcbfe1..fd7c3f4 100644
--- a/bm25s/utils/beir.py
+++ b/bm25s/utils/beir.py
@@ -164,13 +164,21 @@ def download_dataset(
             block_size = 8192 * 2
             # set the tqdm total to the total size
             pbar.total = total_size
+            received = 0
             while True:
                 buffer = response.read(block_size)
                 if not buffer:
                     break
                 f.write(buffer)
+                received += len(buffer)
                 pbar.update(len(buffer))
 
+        # a connection closed early looks like the end of the file
+        if received < total_size:
+            raise ConnectionError(
+                f"Download of {url} incomplete: {received} of {total_size} bytes"
+            )
+
         # an interrupted download must not leave an incomplete file behind
         os.replace(partial_path, save_zip_path)
         pbar.close()
-- 
2.43.0


From 8e6a98fa1bd040757a05a315ce83eaa53ae3896d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:27 +0000
Subject: [PATCH 26/26] fix: return documents of different types and documents
 that are arrays as they are

---
 bm25s/utils/corpus.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/bm25s/utils/corpus.py b/bm25s/utils/corpus.py
index 024d956..82f03b4 100644
--- a/bm25s/utils/corpus.py
+++ b/bm25s/utils/corpus.py
@@ -28,13 +28,15 @@ def documents_to_array(documents, shape):
     """
     Put a flat list of documents in an array of the given shape.
     """
-    if any(isinstance(doc, (list, tuple)) for doc in documents):
-        # a document that is a list or a tuple is a single element of the array
+    kinds = [str, (int, np.integer), (float, np.floating)]
+    if any(all(isinstance(doc, kind) for doc in documents) for kind in kinds):
+        array = np.array(documents)
+    else:
+        # other documents (e.g. a list, an array, or documents of different types) are
+        # elements of the array as they are
         array = np.empty(len(documents), dtype=object)
         for i, doc in enumerate(documents):
             array[i] = doc
-    else:
-        array = np.array(documents)
 
     return array.reshape(shape)
 
-- 
2.43.0

