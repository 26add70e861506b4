SC="bm25s/scoring.py"; IN="bm25s/__init__.py"; NR="bm25s/numba/retrieve_utils.py"
TK="bm25s/tokenization.py"; HF="bm25s/hf.py"; CO="bm25s/utils/corpus.py"; BE="bm25s/utils/beir.py"; BN="bm25s/utils/benchmark.py"
BUGS={}
BUGS["T07"]=dict(prop="C07", files=[(IN,"        if self.nonoccurrence_array is not None:\n            nonoccurrence_scores = self","        if self.nonoccurrence_array is not None and weight_mask is None:\n            nonoccurrence_scores = self")],
 needs="a weight mask with bm25l or bm25+", breaks="with a mask, the non-occurrence scores are left out",
 demo='''import bm25s, numpy as np
r=bm25s.BM25(method="bm25l",backend="numpy"); r.index([["a","b"],["c","a"],["d"]],show_progress=False)
m=np.array([0.0,1.0,1.0],dtype="float32")
x=r.get_scores(["a"]); y=r.get_scores(["a"],weight_mask=m)
assert np.allclose(x*m,y),(x,y)
''')
BUGS["T14"]=dict(prop="C14", files=[(CO,"    def tqdm(iterable=None, *args, **kwargs):\n        return iterable\n","    def tqdm(iterable, *args, **kwargs):\n        return iterable\n")],
 needs="tqdm not installed and a corpus without a line index", breaks="indexing the lines of a corpus raises TypeError without tqdm",
 demo='''import sys,tempfile,os
for m in ("tqdm","tqdm.auto"): sys.modules[m]=None
from bm25s.utils.corpus import JsonlCorpus
with tempfile.TemporaryDirectory() as d:
    p=os.path.join(d,"c.jsonl"); open(p,"w").write('{"a":1}\\n{"a":2}\\n')
    c=JsonlCorpus(p); assert c[1]=={"a":2}; c.close()
''')
BUGS["T19"]=dict(prop="C19", files=[(IN,'            with open(vocab_path, "r", encoding="utf-8") as f:\n','            with open(vocab_path, "r") as f:\n')],
 needs="a locale whose encoding is not UTF-8 and a vocabulary with other than ASCII characters", breaks="the vocabulary is read with the encoding of the locale",
 demo='''import os,subprocess,sys
code="""
import bm25s,tempfile
with tempfile.TemporaryDirectory() as d:
    r=bm25s.BM25(backend="numpy"); r.index([["caf\\\\u00e9","b"],["c"]],show_progress=False); r.save(d)
    p=d+"/vocab.index.json"
    import json
    v=json.dumps(json.load(open(p,encoding="utf-8")),ensure_ascii=False)
    open(p,"w",encoding="utf-8").write(v)
    q=bm25s.BM25.load(d)
    assert "caf\\\\u00e9" in q.vocab_dict
"""
e=dict(os.environ,LC_ALL="C",PYTHONCOERCECLOCALE="0",PYTHONUTF8="0")
sys.exit(subprocess.run([sys.executable,"-c",code],env=e).returncode)
''')
BUGS["T21"]=dict(prop="C21", files=[(IN,"                    nnm_path, allow_pickle=allow_pickle\n","                    nnm_path, allow_pickle=allow_pickle or not mmap\n")],
 needs="a bm25l/bm25+ index whose file of non-occurrence scores holds pickled objects, loaded without mmap", breaks="loading executes pickles although allow_pickle is False",
 demo='''import bm25s,tempfile,os,numpy as np
with tempfile.TemporaryDirectory() as d:
    r=bm25s.BM25(method="bm25l",backend="numpy"); r.index([["a","b"],["c"]],show_progress=False); r.save(d)
    p=[f for f in os.listdir(d) if "nonocc" in f][0]
    a=np.empty(1,dtype=object); a[0]={"x":1}
    np.save(os.path.join(d,p),a,allow_pickle=True)
    try: bm25s.BM25.load(d)
    except ValueError: pass
    else: raise SystemExit("a pickle was loaded")
''')
HUB='''import sys,types,os,tempfile
calls=[]
class Url(str):
    repo_id="me/repo"; repo_type="model"
class Api:
    def __init__(self,token=None): self.token=token
    def create_repo(self,**k): return Url("u")
    def repo_info(self,*a,**k): return Url("u")
    def upload_folder(self,**k): calls.append(("up",k,sorted(os.listdir(k["folder_path"]))))
    def snapshot_download(self,*a,**k): calls.append(("down",a,k)); return SNAP[0]
SNAP=[None]
h=types.ModuleType("huggingface_hub"); h.HfApi=Api; sys.modules["huggingface_hub"]=h
'''
BUGS["T23"]=dict(prop="C23", files=[(HF,"    if not os.path.exists(local_save_dir):\n        return True\n    return len(os.listdir(local_save_dir)) == 0\n","    if not os.path.exists(local_save_dir):\n        return True\n    return not any(name.endswith(\".npy\") for name in os.listdir(local_save_dir))\n")],
 needs="an upload with a local directory that holds the user's files but no arrays, and overwrite_local=False", breaks="the user's files in a non-empty directory are overwritten",
 demo=HUB+'''
import bm25s
from bm25s.hf import BM25HF
with tempfile.TemporaryDirectory() as d:
    open(os.path.join(d,"README.md"),"w").write("mine")
    r=BM25HF(backend="numpy"); r.index([["a","b"],["c"]],show_progress=False)
    r.save_to_hub("me/repo",local_dir=d,overwrite_local=False)
    assert os.listdir(d)==["README.md"] and open(os.path.join(d,"README.md")).read()=="mine",os.listdir(d)
''')
BUGS["T24"]=dict(prop="C24", files=[(HF,"            repo_name, revision=revision, token=token, local_dir=local_dir\n","            repo_name, revision=revision if local_dir is None else None, token=token, local_dir=local_dir\n")],
 needs="loading a revision into a directory of one's own", breaks="another revision than the one named is downloaded when a local directory is given",
 demo=HUB+'''
from bm25s.hf import BM25HF
with tempfile.TemporaryDirectory() as d:
    r=BM25HF(backend="numpy"); r.index([["a","b"],["c"]],show_progress=False); r.save(d)
    SNAP[0]=d
    BM25HF.load_from_hub("me/repo",revision="v2",local_dir=d)
    k=[c for c in calls if c[0]=="down"][0][2]
    assert k.get("revision")=="v2",k
''')
BUGS["T27"]=dict(prop="C27", files=[(TK,"            if token in stopwords_set:\n                continue\n","            if token in stopwords_set and len(splitted) > 1:\n                continue\n")],
 needs="a text that consists of a single stopword", breaks="a stopword is kept when it is the only word of its text",
 demo='''import bm25s
t=bm25s.tokenize(["the","a cat"],stopwords=["the","a"],token_pattern=r"\\w+",return_ids=False,show_progress=False)
assert t==[[],["cat"]],t
''')
BUGS["T30"]=dict(prop="C30", files=[(CO,"        self.close()  # close any existing file and mmap objects\n","        if getattr(self, \"mmap_obj\", None) is None:\n            self.close()  # close any existing file and mmap objects\n")],
 needs="load() called on a corpus that is still open", breaks="the file and the mapping that were open stay open when a corpus is loaded again",
 demo='''import tempfile,os
from bm25s.utils.corpus import JsonlCorpus
with tempfile.TemporaryDirectory() as d:
    p=os.path.join(d,"c.jsonl"); open(p,"w").write('{"a":1}\\n{"a":2}\\n')
    c=JsonlCorpus(p,show_progress=False); f,m=c.file_obj,c.mmap_obj
    c.load()
    assert f.closed and m.closed
    c.close()
''')
BUGS["T32"]=dict(prop="C32", files=[(BE,'        recall[f"Recall@{k}"] = round(recall[f"Recall@{k}"] / len(scores), 5)\n','        recall[f"Recall@{k}"] = round(recall[f"Recall@{k}"] / len(results), 5)\n')],
 needs="results for a query without judgements", breaks="recall is averaged over queries that were not judged",
 demo='''from bm25s.utils.beir import evaluate
q={"q1":{"d1":1}}
r={"q1":{"d1":2.0,"d2":1.0},"q2":{"d1":1.0}}
n,m,rec,p=evaluate(q,r,[1])
assert rec["Recall@1"]==1.0,rec
''')
BUGS["T33"]=dict(prop="C33", files=[(NR,"    og_n_threads = get_num_threads()\n    set_num_threads(n_threads)\n","    set_num_threads(n_threads)\n    og_n_threads = get_num_threads()\n")],
 needs="backend numba with an explicit number of threads", breaks="the numba thread count stays changed after a retrieval",
 demo='''import bm25s,numba
r=bm25s.BM25(backend="numba"); r.index([["a","b"],["c"],["d"]],show_progress=False)
numba.set_num_threads(2)
r.retrieve([["a"]],k=1,n_threads=1,show_progress=False)
assert numba.get_num_threads()==2,numba.get_num_threads()
''')
BUGS["T40"]=dict(prop="C40", files=[(IN,"        self.unique_token_ids_set = set(self.vocab_dict.values())\n\n    def get_tok","        self.unique_token_ids_set = getattr(self, \"unique_token_ids_set\", set())\n        self.unique_token_ids_set.update(self.vocab_dict.values())\n\n    def get_tok")],
 needs="an object indexed twice, the second time with fewer tokens, and a query of IDs of the first index", breaks="IDs of the previous index count as known after indexing again",
 demo='''import bm25s
r=bm25s.BM25(backend="numpy")
r.index([["a","b","c","d"],["e","f","g"]],show_progress=False)
r.index([["x"],["y"]],show_progress=False)
r.retrieve([[0,6]],k=1,show_progress=False)
''')
BUGS["T41"]=dict(prop="C41", files=[(TK,"        for doc_ids in tqdm(stream_fn, **tqdm_kwargs):\n            token_ids.append(doc_ids)\n","        for _, doc_ids in zip(range(length), tqdm(stream_fn, **tqdm_kwargs)):\n            token_ids.append(doc_ids)\n")],
 needs="Tokenizer.tokenize with a length smaller than the number of texts", breaks="length, which is only displayed, cuts off the texts",
 demo='''from bm25s.tokenization import Tokenizer
t=Tokenizer(stopwords=None)
x=t.tokenize(["cat","dog","bird"],length=2,show_progress=False)
assert len(x)==3,x
''')
BUGS["T41b"]=dict(prop="C41", files=[(CO,"            if save_index:\n","            if save_index and self.verbosity > 0:\n")],
 needs="a corpus without a line index opened with verbosity=0", breaks="the line index is not saved when the corpus is opened quietly",
 demo='''import tempfile,os
from bm25s.utils.corpus import JsonlCorpus
with tempfile.TemporaryDirectory() as d:
    p=os.path.join(d,"c.jsonl"); open(p,"w").write('{"a":1}\\n{"a":2}\\n')
    JsonlCorpus(p,show_progress=False,verbosity=0).close()
    assert os.path.exists(os.path.join(d,"c.mmindex.json")),os.listdir(d)
''')
