"""property id -> (rule function, minimum number of obligations confirmed by hand, rule applied)"""
from . import scoring, query, index, io, sweep, corpus, tok, deps, hub, bench, state

RULES = {
    "C12": (index.c12, 136, "Every store made while indexing, saving or tokenizing is resolved to the object it writes; none may be reachable from the token lists, vocabulary, corpus, texts or stopwords given, nor (when saving) from the retriever."),
    "C01": (scoring.c01, 50, "For every variant pair the value stored for a generic document and a generic distinct token of it is compared, as a normal form, with the published formula."),
    "C02": (scoring.c02, 5, "The token-dependent factor of the stored score is compared with the published inverse document frequency of each variant."),
    "C03": (scoring.c03, 40, "All pairs of variant names are propagated as constants from the constructor to the stored score and identified with the formulas of exactly one pair; unknown names must leave by ValueError."),
    "C04": (scoring.c04, 50, "The statistics read by the stored score are compared with document frequency, collection size, term counts, document length and mean length; sizes and shape are compared with the number of entries."),
    "C05": (scoring.c05, 11, "Stored value plus baseline is compared with the full formula, the baseline with the formula at term frequency zero."),
    "C06": (query.c06, 20, "The score array that selection works on is compared, per scoring kernel and backend, with the sum over the query's token positions of stored scores plus baselines."),
    "C07": (query.c07, 24, "With a weight mask, the score array that selection works on is compared with the complete unmasked score array times the mask; the validation branches are decided under the assumption that their condition fails."),
    "C08": (query.c08, 40, "Returned scores are compared with the score array read at the returned documents (same permutation for both), the number of results with k, the order with a descending sort of the selected scores; the compiled selection loop is checked for lock-step updates of its two arrays and the orientation of its comparisons."),
    "C09": (query.c09, 55, "Returned documents are compared element by element with corpus[index[q][i]] for every kind of corpus, and array shapes with those of the scores; Results.merge is compared with row-wise concatenation."),
    "C10": (query.c10, 90, "Row q of the result is computed for a generic q and its dependencies are collected: no term may mention another query, the thread count, the chunk size or a cell written while a query is processed."),
    "C11": (query.c11, 58, "Every store reached from a retrieval entry point is resolved to the object it writes; none may be reachable from the index, the corpus, the queries or the mask."),
    "C13": (query.c13, 15, "The token IDs scored are compared with the query's tokens filtered by the vocabulary, the fallback with the empty token's ID, and every read of the index must be dominated by both bounds checks."),
    "C14": (deps.c14, 118, "Every import is resolved under every environment of optional packages; on the paths from the public entry points no missing module, undefined name, attribute of None or uncaught ImportError may be reached, and the index and score arrays are compared, as terms, between the environments."),
    "C15": (query.c15, 28, "Each invalid request is propagated as typed abstract arguments; the disjunction of the conditions of the reachable ValueErrors must cover it."),
    "C16": (io.c16, 250, "Saving and then loading is propagated through an abstract file system (path term to content term); every part of the loaded object is compared with that of the saved one."),
    "C18": (io.c18, 120, "The text written in one iteration over the documents is compared with one JSON line of that document on normal and exceptional paths; the line index with the starts of the lines of the closed file; the loaded documents with the lines."),
    "C19": (sweep.c19, 20, "Every call that opens a text file is visited, and the encodings that reach it from every function of the package must be UTF-8 constants or the caller's choice with UTF-8 as default."),
    "C20": (tok.c20, 60, "Saving and then loading the vocabulary or stopwords is propagated through an abstract file system; every table of the loaded tokenizer is compared with the saved one, and the file name, encoding and JSON text of both directions with each other."),
    "C21": (sweep.c21, 130, "The allow_pickle values that reach every array load and save are compared with the caller's choice; the package is searched for other deserialisers of code."),
    "C22": (sweep.c22, 60, "The mapping modes that reach every np.load and mmap call are compared with the read-only ones, under both choices of mmap."),
    "C23": (hub.c23, 180, "For every upload function and state of the local directory, each temporary directory must be removed on normal and exceptional exits, nothing else may be removed, and every file must be written below the directory that the state permits."),
    "C24": (hub.c24, 360, "The arguments that reach the hub client, the save and the load functions are compared with the caller's; saving must precede uploading, and the folder uploaded and the snapshot loaded must be the ones written and downloaded."),
    "C25": (tok.c25, 111, "The tables the tokenizer leaves are compared, for every update mode and for generic texts, words and vocabularies, with the ones that mode permits; an unknown mode must leave by ValueError."),
    "C26": (tok.c26, 240, "Every ID issued to a new word is compared with the IDs in use, for generic vocabularies whose IDs are distinct and contiguous; after the call they must be distinct and contiguous again, and old entries unchanged."),
    "C27": (tok.c27, 384, "The IDs produced for generic texts are compared, word by word, with those of the words that remain after splitting, stopword removal and stemming, under every relation between words, stems, stopwords and vocabulary; the decoded words with those words."),
    "C28": (tok.c28, 99, "Each documented language name and code is propagated as a constant to the stopword list it selects, which is compared with the list of that language; unknown names must leave by ValueError and a caller's list must be used as given."),
    "C29": (corpus.c29, 30, "The record read for a generic index is compared with the JSON text between the start of its line and the next newline of the mapping, in every branch, for every form of index; reads of shared cursors and of state that reading changes are reported."),
    "C30": (corpus.c30, 20, "The paths of the line index, the objects closed and opened by close and load, and their order are compared with those required, on the heap that the constructor leaves."),
    "C31": (bench.c31, 110, "Loading and merging are propagated for a generic line of a generic file: the entry made for it, its key and value are compared with the record of that line, the number of entries with the number of lines; every change of a record, every store of a grade (for queries met before or not) and every line written is examined."),
    "C32": (bench.c32, 240, "The averages returned are compared, as terms, with the sum over the judged queries of the evaluator's values divided by their number; the documents left out are those under the condition that both IDs are equal; stores are resolved to the object they write."),
    "C35": (bench.c35, 12, "The entry for a generic query and document is compared with the document and score at the same position; stores are resolved to the object they write."),
    "C36": (bench.c36, 60, "Every effect that puts a file under a final name must be a move of a partial file that was opened for writing, completely written and closed before, not reached after a failure, and (for downloads) under the condition that as many bytes arrived as announced."),
    "C38": (bench.c38, 130, "All sequences of operations of one timer (with the clock readings as symbols) are propagated through the class, and the elapsed time compared with the sum of the running intervals."),
    "C33": (query.c33, 16, "Every change of the numba thread count is followed, on normal and exceptional exits, by one that restores the value read at entry."),
    "C34": (index.c34, 180, "For every form of corpus, the IDs indexed, the vocabulary kept, the set of known IDs and the number of matrix columns are compared with one another as terms."),
    "C37": (tok.c37, 170, "The IDs produced for a text that leaves no word are compared with the empty token or the empty list, for every update mode, permission and vocabulary."),
    "C39": (scoring.c39, 25, "Every division and logarithm in index construction is examined under the assumption that the token's document frequency is zero."),
    "C40": (state.c40, 60, "BM25.index is run on an object whose parts are symbols of an earlier index; no part it leaves may mention one of these symbols."),
    "C41": (state.c41, 550, "Every entry point with display options is run once per setting of them, and the results, tables and files are compared as terms."),
}
