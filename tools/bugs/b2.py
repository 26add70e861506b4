SC="bm25s/scoring.py"; IN="bm25s/__init__.py"; SEL="bm25s/selection.py"; NS="bm25s/numba/selection.py"; NR="bm25s/numba/retrieve_utils.py"
TK="bm25s/tokenization.py"; HF="bm25s/hf.py"; CO="bm25s/utils/corpus.py"; BE="bm25s/utils/beir.py"; BN="bm25s/utils/benchmark.py"
BUGS={}
BUGS["S12"]=dict(prop="C12", files=[(TK,"    split_fn = re.compile(token_pattern).findall\n    stopwords = _infer_stopwords(stopwords)\n","    split_fn = re.compile(token_pattern).findall\n    stopwords = _infer_stopwords(stopwords)\n    if lower and isinstance(stopwords, list):\n        for i, word in enumerate(stopwords):\n            stopwords[i] = word.lower()\n")],
 needs="tokenize called with the caller's own list of stopwords containing capitals", breaks="the caller's list of stopwords is rewritten in place",
 demo='''import bm25s
sw=["The","AND"]
bm25s.tokenize(["The cat and the dog"],stopwords=sw,show_progress=False)
assert sw==["The","AND"],sw
''')
BUGS["S13"]=dict(prop="C13", files=[(IN,"            self.vocab_dict[token] for token in query_tokens if token in self.vocab_dict\n","            self.vocab_dict.get(token, self.vocab_dict.get(\"\")) for token in query_tokens if token in self.vocab_dict or \"\" in self.vocab_dict\n")],
 needs="bm25l/bm25+ and a query mixing known and unknown words", breaks="unknown words of a query score like the empty token",
 demo='''import bm25s
r=bm25s.BM25(); r.index([["a","b"],["c"],["","a"]],show_progress=False)
x=r.get_scores(["a"]); y=r.get_scores(["a","zzz"])
assert (x==y).all(),(x,y)
''')
BUGS["S14"]=dict(prop="C16", files=[(IN,"        params = dict(\n            k1=self.k1,\n            b=self.b,\n            delta=self.delta,\n","        params = dict(\n            k1=round(float(self.k1), 2),\n            b=round(float(self.b), 2),\n            delta=self.delta,\n")],
 needs="parameters with more than two decimals", breaks="k1 and b change when an index is saved and loaded",
 demo='''import bm25s,tempfile
with tempfile.TemporaryDirectory() as d:
    r=bm25s.BM25(k1=1.234,b=0.777); r.index([["a","b"],["c"]],show_progress=False)
    r.save(d); q=bm25s.BM25.load(d)
    assert (q.k1,q.b)==(1.234,0.777),(q.k1,q.b)
''')
BUGS["S16"]=dict(prop="C18", files=[(IN,"                        doc = {\"id\": i, \"text\": doc}\n","                        doc = {\"id\": i, \"text\": \" \".join(doc.split())}\n")],
 needs="a corpus of texts with line breaks or repeated spaces", breaks="the text of saved documents is altered",
 demo='''import bm25s,tempfile
docs=["a  b","c\\nd"]
with tempfile.TemporaryDirectory() as d:
    r=bm25s.BM25(corpus=docs); r.index([["a","b"],["c","d"]],show_progress=False)
    r.save(d); q=bm25s.BM25.load(d,load_corpus=True)
    assert [x["text"] for x in q.corpus]==docs,q.corpus
''')
BUGS["S20"]=dict(prop="C20", files=[(TK,"            f.write(json_functions.dumps(self.stopwords))\n","            f.write(json_functions.dumps([word for word in self.stopwords if word.isalpha()]))\n")],
 needs="stopwords with apostrophes or digits, saved and loaded", breaks="stopwords that are not purely alphabetic are lost",
 demo='''import tempfile
from bm25s.tokenization import Tokenizer
with tempfile.TemporaryDirectory() as d:
    t=Tokenizer(stopwords=["don't","the","b2b"],splitter=lambda s:s.split())
    t.save_stopwords(d); u=Tokenizer(stopwords=None); u.load_stopwords(d)
    assert list(u.stopwords)==["don't","the","b2b"],u.stopwords
''')
BUGS["S22"]=dict(prop="C22", files=[(IN,"        mmap_mode = \"r\" if mmap else None\n        data = np.load(data_path, allow_pickle=allow_pickle, mmap_mode=mmap_mode)\n","        mmap_mode = \"r\" if mmap else None\n        data = np.load(data_path, allow_pickle=allow_pickle, mmap_mode=\"r+\" if mmap and os.access(data_path, os.W_OK) else mmap_mode)\n")],
 needs="an index loaded with mmap=True whose score array is written to", breaks="the memory-mapped scores are writable, so that a write changes the saved index",
 demo='''import bm25s,tempfile,os
with tempfile.TemporaryDirectory() as d:
    r=bm25s.BM25(); r.index([["a","b"],["c"]],show_progress=False); r.save(d)
    q=bm25s.BM25.load(d,mmap=True)
    assert not q.scores["data"].flags.writeable
''')
BUGS["S25"]=dict(prop="C25", files=[(TK,"                    if update_vocab != \"never\" and stem in self.stem_to_sid:\n","                    if (update_vocab != \"never\" or word != stem) and stem in self.stem_to_sid:\n")],
 needs="a stemmer, update_vocab='never' and a new word whose stem is known and differs from the word", breaks="update_vocab='never' adds words to the vocabulary",
 demo='''from bm25s.tokenization import Tokenizer
t=Tokenizer(stemmer=lambda w:w[:3],stopwords=None)
t.tokenize(["running"],show_progress=False)
n=dict(t.word_to_id)
t.tokenize(["runner"],update_vocab="never",show_progress=False)
assert t.word_to_id==n,t.word_to_id
''')
BUGS["S26"]=dict(prop="C26", files=[(TK,"                        sid = len(self.stem_to_sid)\n                        self.stem_to_sid[stem] = sid\n","                        sid = len({s for s in self.word_to_id.values()})\n                        self.stem_to_sid[stem] = sid\n")],
 needs="a stem that was registered while no word has its ID (a loaded vocabulary without its words)", breaks="two stems can get the same ID",
 demo='''from bm25s.tokenization import Tokenizer
t=Tokenizer(stemmer=lambda w:w[:3],stopwords=None)
t.stem_to_sid={"abc":0,"def":1}; t.word_to_stem={"abcx":"abc","defx":"def"}; t.word_to_id={}
t.tokenize(["zzzz abcd"],update_vocab=True,show_progress=False)
ids=list(t.stem_to_sid.values())
assert len(set(ids))==len(ids),t.stem_to_sid
''')
BUGS["S28"]=dict(prop="C28", files=[(TK,"    elif stopwords in [None, False]:\n        return []\n","    elif not stopwords:\n        return []\n"),(TK,"    else:\n        return stopwords\n","    else:\n        return [word for word in dict.fromkeys(stopwords) if len(word) > 1]\n")],
 needs="an own list of stopwords with one-letter words and a token pattern that keeps these", breaks="one-letter stopwords of the caller are ignored",
 demo='''import bm25s
t=bm25s.tokenize(["a bb c"],stopwords=["a","bb"],token_pattern=r"\\w+",return_ids=False,show_progress=False)
assert t==[["c"]],t
''')
BUGS["S29"]=dict(prop="C29", files=[(CO,"            return [self.__getitem__(i) for i in range(*index.indices(len(self)))]\n","            start, stop, step = index.indices(len(self))\n            return [self.__getitem__(i) for i in range(max(start, 0), max(stop, 0), step)]\n")],
 needs="a slice with a negative step that runs down to the first record", breaks="corpus[::-1] leaves the first record out",
 demo='''import tempfile,os
from bm25s.utils.corpus import JsonlCorpus
with tempfile.TemporaryDirectory() as d:
    p=os.path.join(d,"c.jsonl"); open(p,"w").write("1\\n2\\n3\\n")
    c=JsonlCorpus(p,show_progress=False)
    x=c[::-1]; c.close()
    assert x==[3,2,1],x
''')
BUGS["S31"]=dict(prop="C31", files=[(BE,"            qid, cid, score = line.strip().split(\"\\t\")\n            qrels.append((qid, cid, int(score)))\n","            qid, cid, score = line.strip().split(\"\\t\")\n            if qrels and (qid, cid) < qrels[-1][:2] and int(score) == 0:\n                continue\n            qrels.append((qid, cid, int(score)))\n")],
 needs="a judgement of zero that comes after one that sorts later", breaks="some judgements of zero are dropped",
 demo='''import tempfile,os
from bm25s.utils.beir import load_qrels
with tempfile.TemporaryDirectory() as d:
    os.makedirs(os.path.join(d,"x","qrels")); open(os.path.join(d,"x","qrels","test.tsv"),"w").write("query-id\\tcorpus-id\\tscore\\nq2\\td1\\t1\\nq1\\td2\\t0\\n")
    q=load_qrels("x",save_dir=d,show_progress=False)
    assert q=={"q2":{"d1":1},"q1":{"d2":0}},q
''')
BUGS["S35"]=dict(prop="C35", files=[(BE,"        {\"id\": qid, \"hits\": results[i], \"scores\": list(scores[i])}\n","        {\"id\": qid, \"hits\": results[i], \"scores\": sorted(scores[i], reverse=True)}\n")],
 needs="results retrieved with sorted=False", breaks="scores are sorted without their documents",
 demo='''import numpy as np
from bm25s.utils.beir import postprocess_results_for_eval
r=postprocess_results_for_eval([["d1","d2"]],np.array([[1.,2.]]),["q"])
assert r=={"q":{"d1":1.0,"d2":2.0}},r
''')
BUGS["S38"]=dict(prop="C38", files=[(BN,"        self.results[name][\"last\"] = time.monotonic()\n","        self.results[name].setdefault(\"last\", self.results[name].get(\"stopped\", time.monotonic()))\n")],
 needs="a timer that is stopped, resumed later and stopped again", breaks="the time between stop and resume is counted",
 demo='''import time
from bm25s.utils.benchmark import Timer
t=Timer(); t.start("a"); t.stop("a"); time.sleep(0.3); t.resume("a")
x=t.stop("a")
assert x<0.2,x
''')
BUGS["S39"]=dict(prop="C21", files=[(IN,"                corpus = []\n","                corpus = []\n")], needs="", breaks="", demo="") if False else None
BUGS={k:v for k,v in BUGS.items() if v}
