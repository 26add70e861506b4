"""The properties, as data: written to properties.jsonl and MANIFEST.json by gen.py."""
INIT, SC, SEL = "bm25s/__init__.py", "bm25s/scoring.py", "bm25s/selection.py"
NSEL, NRET, TOKP = "bm25s/numba/selection.py", "bm25s/numba/retrieve_utils.py", "bm25s/tokenization.py"
STOP, HF, CORP, BEIR, BENCH, JS = "bm25s/stopwords.py", "bm25s/hf.py", "bm25s/utils/corpus.py", "bm25s/utils/beir.py", "bm25s/utils/benchmark.py", "bm25s/utils/json_functions.py"
I, C, H, F, CR, SCH, PR = "inputs", "configurations", "histories", "fault_sequences", "crash_points", "schedules", "programs"

# id: (title, statement, over, quantifier text, why tests cannot, files, [(mechanism, where)])
PROPS = {
"C01": ("Indexed scores follow the published formula of the chosen BM25 variant",
  "After indexing, the score stored for a document and a token occurring in it is the product of the inverse document frequency of the chosen idf variant and the term-frequency component of the chosen variant (robertson, lucene, atire, bm25l, bm25+) with the given k1, b and delta, minus the token's non-occurrence score for bm25l and bm25+; it depends on nothing but the token's count in the document, the token's document frequency, the document's length, the mean document length and the number of documents.",
  [I, C], "every corpus, every document and token in it, every pair of variants, every k1, b, delta",
  "the tests compare a handful of corpora with reference implementations at default parameters; a formula error that needs other parameters or length profiles stays invisible",
  [SC, INIT], [("term-frequency and IDF functions", SC), ("score and matrix construction", INIT + ": BM25.build_index_from_ids")]),
"C02": ("Each IDF variant is computed by its published formula",
  "With N documents of which df contain the token: robertson uses max(0, ln((N-df+0.5)/(df+0.5))), lucene ln(1+(N-df+0.5)/(df+0.5)), atire ln(N/df), bm25l ln((N+1)/(df+0.5)) and bm25+ ln((N+1)/df).",
  [I, C], "every N, df and idf variant", "tests see few (N, df) pairs; e.g. the clamp at 0 matters only for tokens in more than half of the documents",
  [SC], [("IDF functions", SC)]),
"C03": ("Variant names select exactly the named formulas; unknown names are rejected",
  "The method name selects the term-frequency formula of that variant, idf_method (when given) selects the IDF formula, and when it is not given the method's own IDF is used; k1, b and delta reach the formulas as given, with documented defaults 1.5, 0.75, 0.5 and method lucene. An unknown variant name leads to a ValueError when indexing.",
  [C], "all pairs of method and idf_method, all parameter values", "tests use a few of the 30 combinations",
  [INIT, SC], [("selection of functions by name", SC), ("BM25.__init__ and build_index_from_ids", INIT)]),
"C04": ("Corpus statistics and matrix sizes agree with the indexed corpus",
  "The document frequency of a token is the number of documents containing it, a document's length is its number of tokens, the mean length is taken over all documents, and the number of documents is the size of the corpus; the stored matrix has one entry per (document, distinct token) pair, with that token's count in that document, in the column of the token and the row of the document.",
  [I], "every corpus", "tests use small well-behaved corpora", [SC, INIT], [("document frequencies and score computation", SC), ("matrix construction", INIT)]),
"C05": ("BM25L/BM25+ baselines complete the stored scores exactly",
  "For bm25l and bm25+ the non-occurrence score of a token equals the variant's full formula at term frequency zero, and stored score plus non-occurrence score equals the full formula; other variants store no non-occurrence scores.",
  [I, C], "every corpus, token, parameter choice", "an error that cancels for one document length or one delta passes the sampled comparisons", [SC, INIT], [("non-occurrence array", SC)]),
"C06": ("A query's score is the sum of its tokens' scores, on every backend",
  "The score of every document for a query is the sum, over the query's tokens with multiplicity, of the stored score of (document, token), zero if the token does not occur, plus the tokens' non-occurrence scores where the variant has them; this holds for the numpy scorer, the compiled scorer and the parallel compiled retrieval alike.",
  [I, C], "every index, every query of token IDs, every backend", "tests compare backends on few queries, without repeated tokens or for some variants only",
  [SC, NRET, INIT], [("relevance computation from the sparse matrix", SC), ("parallel compiled retrieval", NRET)]),
"C07": ("A weight mask multiplies the complete score of each document, on every backend",
  "With a weight mask, the score of each document is its complete unmasked score (non-occurrence scores included) times the document's mask value, on every backend; a mask that is not a one-dimensional array of one value per document is rejected with ValueError.",
  [I, C], "every index, query, mask, variant and backend", "tests use masks with one variant and backend", [INIT, NRET], [("masking in get_scores_from_ids and the compiled retrieval", INIT), ("parallel compiled retrieval", NRET)]),
"C08": ("Retrieval returns k results whose scores belong to their documents, best first",
  "Each query gets exactly k results; the i-th returned score is the query's score of the i-th returned document; with sorted=True scores are in descending order, and the numpy selection keeps the k largest scores.",
  [I, C], "every index, query, k and backend", "tests check a few k on small corpora; index/score desynchronisation under partial sorting shows only for particular score layouts",
  [SEL, NSEL, INIT, NRET], [("top-k selection", SEL), ("compiled top-k selection", NSEL)]),
"C09": ("Returned documents and arrays are aligned with the result indices",
  "When a corpus is given (or stored), the returned documents are corpus[index] for the returned indices at the same positions, whatever kind of sequence the corpus is and whatever its documents are; documents and scores both have shape (number of queries, k), the requested return form is honoured, and Results.merge concatenates row-wise, keeping documents and scores together.",
  [I, C], "all corpora, queries, k, return_as values", "tests use lists of strings or dicts", [INIT, CORP], [("retrieve", INIT), ("Results.merge", INIT)]),
"C10": ("Each query's results are independent of the other queries and of parallelism",
  "The result for one query depends only on that query and the index: not on other queries in the batch, their number or order, n_threads, chunksize, or on queries processed earlier.",
  [I, SCH, C], "every batch, thread count, chunk size and schedule", "tests cannot sample all schedules and batch compositions",
  [INIT, NRET], [("thread pool mapping in retrieve", INIT), ("prange loop writing row i only", NRET)]),
"C11": ("Retrieval does not modify the index, the corpus, the queries or the mask",
  "Retrieving or scoring leaves the index arrays, the vocabulary, the corpus, the query tokens and the weight mask unchanged (lazily recorded bookkeeping in the retriever that no later result depends on excepted).",
  [I, H], "every retrieval call in any history", "tests rarely compare state before and after; an aliased in-place update shows only on a second retrieval",
  [INIT, SC, SEL, NRET], [("retrieve, get_scores", INIT)]),
"C12": ("Tokenizing, indexing and saving do not modify the data they are given",
  "Tokenizing never modifies the caller's texts or list of stopwords, indexing never modifies the caller's token lists, vocabulary dictionary or Tokenized object or the retriever's corpus, and saving never modifies the retriever or the corpus given to it.",
  [I, H], "every corpus, vocabulary and option", "tests do not compare caller's data before and after", [INIT, TOKP], [("index copies the vocabulary", INIT + ": BM25.index"), ("save writes new objects", INIT + ": BM25.save")]),
"C13": ("Unknown query tokens are ignored; out-of-range token IDs are rejected",
  "A query token outside the vocabulary contributes nothing to any document; a query without known tokens is scored as the empty token when the index has one; token IDs given directly are rejected with ValueError when one is negative or not smaller than the vocabulary size, before any index data is read.",
  [I], "every query", "tests use few out-of-vocabulary queries, never negative IDs", [INIT], [("get_tokens_ids, get_scores_from_ids, _get_top_k_results", INIT)]),
"C14": ("Indexing and retrieving work without the optional dependencies",
  "With none of numba, jax, orjson, tqdm and a stemmer installed the package still imports, and indexing, tokenizing, saving, loading, lazy corpora and retrieving with backend numpy (and 'auto', which then means numpy) use none of them; the index and the scores computed do not depend on which of them are installed, and explicitly requesting a missing backend (numba, jax, the compiled scorer) raises ImportError.",
  [C], "every combination of installed optional packages", "tests run in one environment", [INIT, SC, SEL, NSEL, JS, TOKP], [("guarded imports and fallbacks", INIT)]),
"C15": ("Invalid requests are rejected instead of answered",
  "Retrieval raises ValueError when k exceeds the number of documents (on every backend, while k equal to it is accepted), for an unknown return_as or backend_selection, for queries given as a bare string, and for tuples that are not an (ids, vocabulary) pair; scoring a single query raises ValueError unless it is a list of strings or integers, and indexing raises ValueError for a corpus that is a number or a pair without a vocabulary.",
  [I, C], "all arguments", "tests check a few error paths", [INIT, SEL, NSEL], [("argument validation", INIT)]),
"C16": ("Saving and loading an index restores everything retrieval depends on",
  "Loading a saved index restores the score matrix (data, row indices, column pointers), the non-occurrence scores, the number of documents, the vocabulary with the same token-to-ID mapping, all parameters (k1, b, delta, method, idf_method, data types, backend) and the set of known IDs, whichever file names, memory mapping and JSON library are used.",
  [I, C, H], "every index, variant, file naming, mmap choice, JSON backend", "tests round-trip one or two configurations",
  [INIT, JS], [("save", INIT + ": BM25.save"), ("load", INIT + ": BM25.load, load_scores")]),
"C18": ("Saved corpus lines correspond one to one to the documents",
  "Saving a corpus writes exactly one line per document, in order, so that line i of the file (and entry i of its line index) is document i whatever the document is; strings are stored as {id, text} records, dicts, lists and tuples as themselves, and the line index written beside the file is that of the complete file.",
  [I], "every corpus", "tests save lists of plain strings", [INIT, CORP], [("corpus writing loop", INIT + ": BM25.save"), ("newline index", CORP)]),
"C19": ("Every text file is read and written as UTF-8 whatever the locale",
  "All text files the library reads or writes (parameters, vocabulary, corpus, indexes, stopwords, datasets, cards) are opened with an explicit UTF-8 encoding, so saved data is readable under any locale.",
  [C, I], "every locale and every text", "tests run in one (UTF-8) locale", [INIT, TOKP, HF, CORP, BEIR], [("encoding argument at each open", "all modules")]),
"C20": ("Saving and loading a tokenizer restores its vocabulary and stopwords",
  "Loading a saved tokenizer vocabulary restores the word-to-ID, stem-to-ID and word-to-stem tables exactly, with and without a stemmer, and loading saved stopwords restores the same stopwords; both directions use the file of the given name in the given directory, UTF-8 and JSON text, whichever JSON library is installed.",
  [I, H, C], "every vocabulary and stopword list", "tests round-trip one English vocabulary", [TOKP, JS], [("save_vocab/load_vocab, save_stopwords/load_stopwords", TOKP)]),
"C21": ("Loading never unpickles unless the caller allows it",
  "Index arrays are loaded with allow_pickle=False unless the caller passes allow_pickle=True, every array load and save honours the caller's choice, and no part of the library deserialises with pickle, eval or exec.",
  [I, C], "every entry point that loads data", "no test feeds a pickled array", [INIT, HF], [("allow_pickle parameter of load/load_scores/save", INIT)]),
"C22": ("Memory-mapped loading is read-only",
  "With memory mapping, index arrays and the corpus file are mapped read-only: the files on disk cannot be changed through the loaded index; without it arrays are loaded into memory.",
  [C, H], "every mmap-loaded index and corpus", "tests do not try to write through the mapping", [INIT, CORP], [("mmap_mode of np.load", INIT + ": load_scores"), ("mmap access mode", CORP)]),
"C23": ("Temporary files of hub uploads are removed on every exit",
  "Each upload to the hub works in a fresh temporary directory that is removed when the function returns or fails, unless the caller chose a local directory; a caller's non-empty directory is not overwritten unless overwriting is allowed.",
  [F, C], "every failure point of an upload", "tests have no network and no failing upload", [HF], [("temporary directory handling", HF)]),
"C24": ("Hub functions pass the caller's options and paths through",
  "Uploads go to the repository the caller named (as create_repo resolved it), with its privacy, token, commit message and further options, and contain the files just saved and, exactly when asked for, a README with the parameters of the index; loading from the hub downloads the repository and revision named, to the directory named, with the caller's token, reads that snapshot under the standard file names, and passes loading options (mmap, allow_pickle, load_corpus) on unchanged.",
  [C], "every option value", "no network in tests", [HF], [("save_to_hub / load_from_hub", HF)]),
"C25": ("A tokenizer's vocabulary changes only as update_vocab permits",
  "With update_vocab='never' Tokenizer.tokenize leaves the tokenizer's tables unchanged; with False no new ID is issued (with a stemmer, a new word whose stem is already known may be recorded under that stem's ID); with True every word of a text that is no stopword is in the vocabulary afterwards; 'if_empty' behaves as True if the vocabulary was empty when the call started and as False otherwise; any other value raises ValueError.",
  [I, H, C], "every document stream and update mode", "tests use few modes on small texts", [TOKP], [("streaming_tokenize, tokenize", TOKP)]),
"C26": ("Tokenizer IDs are stable, unique and resolvable",
  "A token ID issued by a Tokenizer is never reassigned: a newly added word (or stem) gets the next unused ID, entries made earlier keep their IDs, a word always has the ID of its stem when a stemmer is used, and every ID emitted is in the vocabulary that get_vocab_dict returns.",
  [I, H], "every sequence of tokenize calls", "tests tokenize once or twice", [TOKP], [("ID assignment in streaming_tokenize", TOKP)]),
"C27": ("Tokenizing splits, lowercases, filters and stems in the documented order",
  "In bm25s.tokenize and in Tokenizer.tokenize, the tokens of a text are the words that the pattern (or splitter) finds in the text (lowercased first when lower is set), in order and with repetitions; words that are stopwords are removed before stemming (a Tokenizer may keep one that is already in its vocabulary), each remaining word is replaced by its stem when a stemmer is given, a Tokenizer drops only words it has no ID for and may not add, and the IDs, the string output and Tokenizer.decode denote the same tokens.",
  [I, C], "every text and option", "tests compare a few texts", [TOKP], [("tokenize and Tokenizer", TOKP)]),
"C28": ("Stopword names select the documented list; unknown names are rejected",
  "Each documented language name or code, and True for English, selects that language's own stopword list; False or None selects none, a list of strings is used as given, and any other name raises ValueError.",
  [C], "every accepted name", "tests use 'en' only", [TOKP, STOP], [("stopword resolution", TOKP + ": _infer_stopwords"), ("lists", STOP)]),
"C29": ("A lazily read corpus returns the line of the requested index",
  "Indexing a JSONL corpus with i returns the record between the start of line i and the next newline, independent of what was read before and of concurrent readers; negative and slice indices, lists, tuples and arrays of indices behave as on the list of records, and the length is the number of lines.",
  [I, H, SCH], "every file, index form and access history", "tests read a few lines in order", [CORP], [("JsonlCorpus.__getitem__, get_line", CORP)]),
"C30": ("The line index sits beside its file; close releases, reload restores",
  "The line index is saved to and read from the path with the extension replaced by .mmindex.json; closing a lazily read corpus closes both its mapping and its file and is safe to repeat, and reloading releases what was open before mapping the same file again.",
  [H], "every sequence of open, close and load", "tests close once", [CORP], [("close/load/change_extension", CORP)]),
"C31": ("Dataset loaders and merging keep every record",
  "Loading corpora, queries and relevance judgements keeps every record of the file: every query keeps all its judged documents with their integer grades, and records are keyed by their own ID; records without metadata load as well. Merging the parts of CQADupStack writes every record and judgement of every part once, unchanged except that its IDs are prefixed with the name of its part.",
  [I], "every dataset file", "tests have no datasets (network)", [BEIR], [("load_jsonl, load_qrels", BEIR)]),
"C32": ("Evaluation averages over all judged queries and leaves its inputs alone",
  "Each evaluation measure (NDCG, MAP, recall, precision, returned in this order) is the sum over the judged queries of the evaluator's value divided by their number, at each requested cutoff; with ignore_identical_ids (the default) exactly the documents with the query's own ID are left out, without it none; evaluating does not modify the caller's results or judgements.",
  [I], "every result and judgement set", "no test of evaluation runs offline", [BEIR], [("evaluate", BEIR)]),
"C33": ("Compiled retrieval restores the thread count it changes",
  "A retrieval that changes the numba thread count restores the previous value on every exit, normal or exceptional, and without numba or with n_threads=0 never changes it otherwise.",
  [F, C], "every exit of retrieve", "tests never make the compiled code fail", [INIT, NRET], [("try/finally around the parallel retrieval", NRET)]),
"C34": ("Vocabulary, token IDs and matrix columns agree after indexing",
  "Indexing maps every token to the column of its vocabulary ID, for corpora of strings, of integers, of (ids, vocabulary) pairs and Tokenized objects; each vocabulary ID (the empty token's included, which gets an unused ID and an empty column) has exactly one column, and vocabulary and set of known IDs agree.",
  [I, C], "every corpus form", "tests index few forms", [INIT], [("index, build_index_from_tokens", INIT)]),
"C35": ("Results prepared for evaluation pair each document with its own score",
  "postprocess_results_for_eval returns, for every query ID, exactly the documents retrieved for the query at that position, each with the score at its own position, and does not modify its arguments.",
  [I], "every result", "no test runs the evaluation helpers", [BEIR], [("postprocess_results_for_eval", BEIR)]),
"C36": ("Interrupted downloads and merges are never taken for complete ones",
  "A downloaded archive or merged dataset file appears under its final name only after it has been written completely, so that an interruption or failure at any point, a connection closed early included, never leaves a partial file that a later call reuses.",
  [CR, F], "every interruption point", "tests neither download nor crash", [BEIR], [("partial file and rename", BEIR)]),
"C37": ("allow_empty keeps documents without tokens as documented",
  "With allow_empty=True a document or query without tokens is represented by the empty token, and with allow_empty=False by an empty list, in the tokenizer class and the tokenize function alike.",
  [I, C], "every text without tokens", "tests tokenize non-empty texts", [TOKP], [("allow_empty handling", TOKP)]),
"C38": ("A timer measures exactly the time it was running",
  "The elapsed time of a timer is the sum of the intervals between start or resume and pause or stop; paused time is not counted, stopping while paused adds nothing, timers of different names are independent, and starting a name twice or stopping an unknown one raises ValueError.",
  [H], "every sequence of start, pause, resume, stop", "no timer test", [BENCH], [("Timer", BENCH)]),
"C39": ("Indexing tolerates vocabulary entries that occur in no document",
  "A vocabulary may contain tokens that occur in no indexed document: indexing then divides by no zero document frequency, raises nothing on their account, and stores finite (zero) statistics for them.",
  [I, C], "every corpus and vocabulary, every variant", "tests index with exact vocabularies", [SC], [("zero document frequency guard", SC)]),
"C40": ("Indexing again replaces the previous index completely",
  "After BM25.index returns, the stored scores, the vocabulary, the set of known token IDs and the non-occurrence scores were computed from the corpus given to that call and the parameters alone; whatever the object held before (another corpus, a loaded index, scores of an earlier call) leaves no trace in them.",
  [H, I, C], "every earlier state of the object, every form of corpus, every variant", "the tests index each object once",
  [INIT, SC], [("BM25.index", INIT), ("BM25.build_index_from_ids", INIT)]),
"C41": ("Display options never change results",
  "Showing or hiding progress bars, keeping them on screen, announcing the number of texts (length) and the verbosity of a corpus change nothing in the index, the tokens, the tables of the tokenizer, the retrieved documents and scores, the line index of a corpus, the records read from it, the files written and the datasets loaded.",
  [C, I], "every setting of show_progress, leave_progress, leave, length and verbosity, for every entry point that takes them, every input",
  "the tests run with the progress bars hidden", [INIT, TOKP, SC, CORP, BEIR, NRET],
  [("progress bars and verbosity", INIT), ("progress bars and length", TOKP), ("progress bars and verbosity", CORP), ("progress bars", BEIR)]),
"C90": ("Scores of different backends are bit-identical",
  "The scores computed for the same query by different backends are identical to the last bit.", [I, C], "every index and query",
  "rounding depends on summation order and data", [SC, NRET], [("scoring kernels", SC)]),
"C91": ("The compiled heap selection returns the k largest scores",
  "For every score array the compiled selection returns the k largest values.", [I], "every array and k",
  "needs every array layout", [NSEL], [("heap selection", NSEL)]),
"C92": ("Retrieval is fast and memory use is bounded",
  "Retrieval time is proportional to the posting lists of the query's tokens, and memory-mapped loading keeps memory use bounded.", [I, C], "every corpus",
  "timing", [INIT], [("sparse scoring", SC)]),
"C93": ("Stems are linguistically right",
  "The stem of a word is the one its language's stemming algorithm prescribes.", [I], "every word", "third-party stemmer", [TOKP], [("stemmer call", TOKP)]),
}
NOT_APPLICABLE = {
"C90": "Quantifies over floating-point rounding of run-time data; no static argument in reach bounds it (the backends sum in different orders). The real-number equality of the kernels is decided by C06.",
"C91": "Needs inductive loop invariants over a heap of run-time values; the static rules decide only lock-step and comparison orientation of the selection loop (part of C08).",
"C92": "Timing and memory are run-time quantities.",
"C93": "The stemmer is a third-party native library whose source is not in the repository.",
}
# technique and note per property (defaults below)
TECH = {}
NOTE = {}
DEFAULT_TECH = "interprocedural abstract interpretation of the source over gated value terms (normal-form comparison)"
DEFAULT_NOTE = ("Every obligation is decided for symbolic inputs by comparing normal forms of values, effects and path conditions computed from the current source; "
  "arithmetic is over the reals; builtins, numpy, scipy and standard library calls are trusted models; code the analysis cannot follow yields 'undecided' obligations, reported in the evidence, not alarms.")
