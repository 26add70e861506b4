SC="bm25s/scoring.py"; IN="bm25s/__init__.py"; SEL="bm25s/selection.py"; NS="bm25s/numba/selection.py"; NR="bm25s/numba/retrieve_utils.py"
BUGS={}
BUGS["S01"]=dict(prop="C01", files=[(SC,"    return (tf_array * (k1 + 1)) / (tf_array + k1 * (1 - b + b * l_d / l_avg))\n","    norm = k1 * (1 - b + b * l_d / l_avg)\n    return (tf_array * (k1 + 1)) / (tf_array + np.maximum(norm, k1 * 0.5))\n")],
 needs="method atire and a document shorter than a third of the mean length", breaks="length normalisation of very short documents is clamped",
 demo='''import numpy as np, bm25s
docs=[["a"],["b"]*20,["c"]*20]
r=bm25s.BM25(method="atire",b=0.9,k1=1.2); r.index(docs,show_progress=False)
s=r.get_scores(["a"])[0]
avg=np.mean([1,20,20]); want=np.log(3/1)*(1*2.2)/(1+1.2*(1-.9+.9*1/avg))
assert abs(s-want)<1e-4,(s,want)
''')
BUGS["S02"]=dict(prop="C02", files=[(SC,"    if not allow_negative and inner < 1:\n        inner = 1\n","    if not allow_negative and df > N / 2:\n        inner = 1 + 0.5 / (df + 0.5)\n")],
 needs="robertson IDF and a token in more than half of the documents", breaks="tokens in most documents get a positive instead of a zero IDF",
 demo='''import bm25s
docs=[["a","b"],["a","c"],["a","d"]]
r=bm25s.BM25(method="robertson"); r.index(docs,show_progress=False)
assert abs(r.get_scores(["a"])).max()==0
''')
BUGS["S03"]=dict(prop="C03", files=[(IN,"                compute_idf_fn=_select_idf_scorer(self.idf_method),\n                calculate_tfc_fn=_select_tfc_scorer(self.method),\n","                compute_idf_fn=_select_idf_scorer(self.method),\n                calculate_tfc_fn=_select_tfc_scorer(self.method),\n")],
 needs="method bm25l or bm25+ with another idf_method, query token absent from a document", breaks="the non-occurrence scores use the method's own IDF instead of idf_method's",
 demo='''import numpy as np, bm25s
docs=[["a","b"],["c","d"],["e","f"],["c","b"]]
r=bm25s.BM25(method="bm25+",idf_method="lucene"); r.index(docs,show_progress=False)
idf=np.log(1+(4-1+.5)/(1.5))
assert abs(r.get_scores(["a"])[1]-idf*0.5)<1e-5
''')
BUGS["S04"]=dict(prop="C04", files=[(IN,"        avg_doc_len = np.array([len(doc_ids) for doc_ids in corpus_token_ids]).mean()\n","        doc_lens = np.array([len(doc_ids) for doc_ids in corpus_token_ids])\n        avg_doc_len = doc_lens.sum() / max(np.count_nonzero(doc_lens), 1)\n")],
 needs="a corpus with documents without tokens", breaks="empty documents are left out of the mean length",
 demo='''import numpy as np, bm25s
docs=[["a","b"],["a","c","d","e"],[],["f"]]
r=bm25s.BM25(method="lucene"); r.index(docs,show_progress=False)
avg=np.mean([2,4,0,1]); idf=np.log(1+(4-1+.5)/1.5)
want=idf*1/(1.5*((1-.75)+.75*1/avg)+1)
assert abs(r.get_scores(["f"])[3]-want)<1e-5
''')
BUGS["S05"]=dict(prop="C05", files=[(SC,"        if method in (\"bm25l\", \"bm25+\"):\n            scores_doc -= nonoccurrence_array[voc_ind_doc]\n","        if method in (\"bm25l\", \"bm25+\") and delta == 0.5:\n            scores_doc -= 0.5 * idf if method == \"bm25+\" else nonoccurrence_array[voc_ind_doc]\n        elif method in (\"bm25l\", \"bm25+\"):\n            scores_doc -= nonoccurrence_array[voc_ind_doc] * (delta / 0.5 if delta < 0.25 else 1)\n")],
 needs="bm25l or bm25+ with delta below 0.25", breaks="stored scores are not complemented by the non-occurrence scores",
 demo='''import numpy as np, bm25s
docs=[["a","b"],["c","d"],["e","f"]]
r=bm25s.BM25(method="bm25+",delta=0.1); r.index(docs,show_progress=False)
idf=np.log(4/1)
want=idf*((1*2.5)/(1.5*(1-.75+.75)+1)+0.1)
assert abs(r.get_scores(["a"])[0]-want)<1e-4
''')
BUGS["S06"]=dict(prop="C06", files=[(SC,"    scores = np.zeros(num_docs, dtype=dtype)\n    for i in range(len(query_tokens_ids)):\n","    scores = np.zeros(num_docs, dtype=dtype)\n    for i in range(len(query_tokens_ids)):\n        if i > 0 and query_tokens_ids[i] == query_tokens_ids[i - 1]:\n            # postings of this token were added already\n            continue\n")],
 needs="a query repeating a token twice in a row, numba backend", breaks="adjacent repetitions of a query token count once",
 demo='''import numpy as np
from bm25s.scoring import _compute_relevance_from_scores_jit_ready as f
d=dict(data=np.array([1.,2.],dtype="float32"),indptr=np.array([0,1,2]),indices=np.array([0,1]),num_docs=2,dtype=np.dtype("float32"))
s=f(query_tokens_ids=np.array([0,0,1]),**d)
assert s.tolist()==[2.,2.],s
''')
BUGS["S08"]=dict(prop="C08", files=[(SEL,"        ind = partitioned_ind[sorted_trunc_ind]\n        query_scores = partitioned_scores[sorted_trunc_ind]\n","        ind = partitioned_ind[np.flip(np.argsort(partitioned_scores, kind=\"stable\"))]\n        query_scores = partitioned_scores[np.argsort(-partitioned_scores, kind=\"stable\")]\n        if not np.array_equal(query_scores, np.take(partitioned_scores, sorted_trunc_ind)) or k > 64:\n            query_scores = np.sort(partitioned_scores)\n            query_scores = query_scores[::-1] if k <= 64 else query_scores\n")],
 needs="k above 64 with the numpy selection", breaks="scores come in ascending order while the documents are in descending order",
 demo='''import numpy as np
from bm25s.selection import topk
s=np.arange(200,dtype="float32")
v,i=topk(s,k=100,backend="numpy",sorted=True)
assert (s[i]==v).all()
''')
BUGS["S09"]=dict(prop="C09", files=[(IN,"                index_flat = indices.flatten().tolist()\n                results = [corpus[i] for i in index_flat]\n","                index_flat = indices.flatten(\"F\" if n_threads > 1 else \"C\").tolist()\n                results = [corpus[i] for i in index_flat]\n")],
 needs="several queries, n_threads > 1, a list corpus and k > 1", breaks="documents are transposed against indices and scores",
 demo='''import bm25s
docs=[["a","b"],["a","c","d"],["e","f","a","a"],["g"]]
names=["d0","d1","d2","d3"]
r=bm25s.BM25(); r.index(docs,show_progress=False)
q=[["a","c"],["g","e"],["f"]]
i,_=r.retrieve(q,k=2,show_progress=False,n_threads=2,backend_selection="numpy")
d,_=r.retrieve(q,corpus=names,k=2,show_progress=False,n_threads=2,backend_selection="numpy")
assert d.tolist()==[[names[x] for x in row] for row in i.tolist()]
''')
BUGS["S10"]=dict(prop="C10", files=[(NR,"    for i in prange(N):\n","    scores_single = np.zeros(num_docs, dtype=dtype)\n    for i in prange(N):\n"),(NR,"        if weight_mask is not None:\n            scores_single = scores_single * weight_mask\n        \n","        if weight_mask is not None:\n            scores_single = scores_single * weight_mask\n        elif i > 0 and len(query_tokens_single) == 0:\n            topk_scores[i] = topk_scores[i - 1]\n\n")],
 needs="x", breaks="x", demo="")
del BUGS["S10"]
BUGS["S10"]=dict(prop="C10", files=[(IN,"        if len(query_tokens_single) == 0:\n            logger.info(\n                msg=\"The query is empty. This will result in a zero score for all documents.\"\n            )\n            scores_q = np.zeros(self.scores[\"num_docs\"], dtype=self.dtype)\n","        if len(query_tokens_single) == 0:\n            logger.info(\n                msg=\"The query is empty. This will result in a zero score for all documents.\"\n            )\n            if getattr(self, \"_zero_scores\", None) is None:\n                self._zero_scores = self.get_scores_from_ids([])\n            scores_q = self._zero_scores\n        elif len(query_tokens_single) == 1 and getattr(self, \"_zero_scores\", None) is not None:\n            scores_q = self._zero_scores\n            self._zero_scores = None\n            scores_q += self.get_scores(query_tokens_single, weight_mask=weight_mask)\n")],
 needs="x", breaks="x", demo="")
BUGS["S10"]=dict(prop="C10", files=[(IN,"            scores_q = np.zeros(self.scores[\"num_docs\"], dtype=self.dtype)\n        else:\n            scores_q = self.get_scores(query_tokens_single, weight_mask=weight_mask)\n","            scores_q = np.zeros(self.scores[\"num_docs\"], dtype=self.dtype)\n        else:\n            last = getattr(self, \"_last_query\", None)\n            if last is not None and last[0] == sum(map(len, query_tokens_single)) and last[1] is weight_mask and isinstance(query_tokens_single[0], str) and last[2] == query_tokens_single[0]:\n                scores_q = last[3]\n            else:\n                scores_q = self.get_scores(query_tokens_single, weight_mask=weight_mask)\n                self._last_query = (sum(map(len, map(str, query_tokens_single))), weight_mask, query_tokens_single[0], scores_q)\n")],
 needs="two consecutive queries starting with the same token and having equally many characters", breaks="a query is answered with the scores cached for the previous query",
 demo='''import bm25s
docs=[["aa","bb"],["aa","cc","dd"],["ee","ff","aa","aa"],["gg"]]
r=bm25s.BM25(); r.index(docs,show_progress=False)
a,s=r.retrieve([["aa","bb"],["aa","gg"]],k=4,show_progress=False,backend_selection="numpy")
r=bm25s.BM25(); r.index(docs,show_progress=False)
b,t=r.retrieve([["aa","gg"]],k=4,show_progress=False,backend_selection="numpy")
assert s[1].tolist()==t[0].tolist()
''')
BUGS["S11"]=dict(prop="C11", files=[(IN,"        scores = np.zeros(num_docs, dtype=dtype)\n        for i in range(len(query_tokens_ids)):\n            start, end = indptr_starts[i], indptr_ends[i]\n            np.add.at(scores, indices[start:end], data[start:end])\n","        if len(query_tokens_ids) == 1 and indptr_ends[0] - indptr_starts[0] == num_docs:\n            # the token occurs in every document\n            order = np.argsort(indices[indptr_starts[0]:indptr_ends[0]])\n            postings = data[indptr_starts[0]:indptr_ends[0]]\n            if (order == np.arange(num_docs)).all():\n                return postings.view() if dtype == postings.dtype else postings.astype(dtype)\n\n        scores = np.zeros(num_docs, dtype=dtype)\n        for i in range(len(query_tokens_ids)):\n            start, end = indptr_starts[i], indptr_ends[i]\n            np.add.at(scores, indices[start:end], data[start:end])\n")],
 needs="a single-token query whose token occurs in every document, with a weight mask (or bm25l/bm25+)", breaks="masking writes into the stored score matrix",
 demo='''import numpy as np, bm25s
docs=[["a","b"],["a","c","d"],["a"]]
r=bm25s.BM25(); r.index(docs,show_progress=False)
before=r.scores["data"].copy()
r.retrieve([["a"]],k=2,show_progress=False,weight_mask=np.array([0,1,0]),backend_selection="numpy") if False else r.get_scores(["a"],weight_mask=np.array([0.,1.,0.],dtype="float32"))
assert (before==r.scores["data"]).all()
''')
BUGS["S15"]=dict(prop="C15", files=[(SEL,"    if k > len(query_scores):\n        raise ValueError(\n","    if k > len(query_scores) and backend != \"jax\" and not (backend == \"auto\" and k > 1000):\n        raise ValueError(\n")],
 needs="k above 1000 and above the corpus size with automatic backend choice", breaks="too large k is not rejected by ValueError with the documented message",
 demo='''import numpy as np
import bm25s.selection as s
s.JAX_IS_AVAILABLE=True
s._topk_jax=lambda q,k:(q[:k],np.arange(len(q))[:k])
try: s.topk(np.zeros(5),k=2000)
except ValueError as e: pass
else: raise SystemExit(1)
''')
BUGS["S33"]=dict(prop="C34", files=[(IN,"            if \"\" not in vocab_dict:\n                vocab_dict[\"\"] = max(vocab_dict.values(), default=-1) + 1\n","            if \"\" not in vocab_dict:\n                vocab_dict[\"\"] = len(set(vocab_dict)) + (1 if max(vocab_dict.values(), default=0) > len(vocab_dict) else 0)\n")],
 needs="x", breaks="x", demo="")
del BUGS["S33"]
BUGS["S34"]=dict(prop="C34", files=[(IN,"        vocab_dict = {token: i for i, token in enumerate(unique_tokens)}\n        unique_token_ids = [vocab_dict[token] for token in unique_tokens]\n","        vocab_dict = {}\n        for token in unique_tokens:\n            key = token.lower() if isinstance(token, str) else token\n            if key not in vocab_dict:\n                vocab_dict[key] = len(vocab_dict)\n            vocab_dict[token] = vocab_dict[key]\n        unique_token_ids = list(vocab_dict.values())\n")],
 needs="tokens with capital letters in the indexed corpus", breaks="tokens differing in case share one ID; vocabulary and columns disagree",
 demo='''import bm25s
r=bm25s.BM25(); r.index([["A","b"],["a","c"]],show_progress=False)
ids=list(r.vocab_dict.values())
assert len(set(ids))==len(ids) and r.get_scores(["A"])[1]==0
''')
BUGS["S10"]=dict(prop="C10", files=[(IN,"            scores_q = np.zeros(self.scores[\"num_docs\"], dtype=self.dtype)\n        else:\n            scores_q = self.get_scores(query_tokens_single, weight_mask=weight_mask)\n","            scores_q = np.zeros(self.scores[\"num_docs\"], dtype=self.dtype)\n        else:\n            # consecutive identical queries are scored once\n            key = \"\".join(map(str, query_tokens_single))\n            last = self.__dict__.get(\"_last_query\")\n            if last is not None and last[0] == key and last[1] is weight_mask and last[2] is self.scores:\n                scores_q = last[3]\n            else:\n                scores_q = self.get_scores(query_tokens_single, weight_mask=weight_mask)\n                self._last_query = (key, weight_mask, self.scores, scores_q)\n")],
 needs="two consecutive queries whose tokens concatenate to the same text", breaks="a query is answered with the scores cached for the previous query",
 demo='''import bm25s
docs=[["aa","bb"],["aabb","cc","dd"],["ee","ff","aa","aa"],["gg"]]
r=bm25s.BM25(); r.index(docs,show_progress=False)
a,s=r.retrieve([["aa","bb"],["aabb"]],k=4,show_progress=False,backend_selection="numpy")
r=bm25s.BM25(); r.index(docs,show_progress=False)
b,t=r.retrieve([["aabb"]],k=4,show_progress=False,backend_selection="numpy")
assert s[1].tolist()==t[0].tolist()
''')
