#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text stays readable)."""
import json, os
R = "repos_repo.go"; M = "index_memory_index.go"; H = "search_hits_search.go"; L = "search_linear_search.go"
P = []
def p(id, title, statement, over, q, why, files, mech, observe, state=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=q), why_tests_cant=why,
      anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
        mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe, hook_needed=hook)))

p("C01", "Acknowledged documents are neither lost nor duplicated under concurrency",
  "When several goroutines use one repository at the same time, every document whose Put has returned is held exactly once by each index the given name stood for at one moment during the call (a new index if the name was unknown then) and by no other index, until that index is dropped or replaced by a rename. No interleaving of Put with Put, Alias, UnAlias, Rename, Drop or Search loses such a document, stores it twice, or stores it under a name it was not addressed to.",
  ["schedules", "histories"], "every interleaving of the synchronisation (and, in the fine-grained runs, statement) steps of two or three concurrent calls chains over every small initial repository state",
  "The suite is single-threaded: no test ever has two calls in flight, so neither the window between resolving a name and storing, nor first-use creation by two callers, is exercised.",
  [R, M], [("name resolution and storing as one critical section", R + " Put/getIndices"), ("index creation on first use", R + " Put")],
  ["Repo.Search with the match-all engine on every index after the calls return"],
  [("indices", "name -> index", R), ("aliases", "alias -> index names", R)], "none in /repo: a source transformer puts scheduling points into a scratch copy")
p("C02", "Concurrent repository calls are linearizable",
  "Put, Search, Alias, UnAlias, Rename, Drop, Has, HasAlias, List and ListAliases issued concurrently return results, and leave the repository in a state, that some one-at-a-time order of the same calls would have produced, where a call that returned before another was issued comes first. For example exactly one of several concurrent drops of the same index reports success, and a concurrent reader never sees a renamed index under both names or under neither.",
  ["schedules", "histories"], "every interleaving of two or three concurrent call chains over every small initial repository state",
  "No existing test issues two calls concurrently; linearizability is a statement about all interleavings.",
  [R], [("two reader/writer locks always taken in the order indices, aliases", R)], ["return values of all Repo methods; repository content afterwards"],
  [("indices", "name -> index", R), ("aliases", "alias -> index names", R)], "none in /repo: a source transformer puts scheduling points into a scratch copy")
p("C03", "Every repository call completes and leaves the repository usable",
  "No history of repository calls, sequential or concurrent, including calls that name unknown or never linked indices and aliases, makes a call panic, block forever or deadlock with other calls, or leaves the repository in a condition in which a later call does. No goroutine a call starts internally stays blocked forever.",
  ["schedules", "histories"], "all histories over small name sets up to closure of the reachable states, and all interleavings of two or three concurrent call chains, under reader/writer locks where a waiting writer blocks new readers",
  "Tests call each method a few times on the success path in one goroutine; leaked locks on error paths and lock-order or nested-read-lock deadlocks need a later writer or a specific interleaving.",
  [R], [("lock acquisition and release on every path", R)], ["completion of every call under a controlled scheduler with deadlock detection"],
  [("indicesMu, aliasesMu", "reader/writer locks", R)], "none in /repo: lock operations are replaced in a scratch copy")
p("C04", "Repository calls are free of data races",
  "Any combination of repository calls (Put, Search, Alias, UnAlias, Rename, Drop, Has, HasAlias, List, ListAliases, String) may run at the same time from different goroutines, and the values they return may be read while other calls run, without a data race. This includes the goroutines a call starts internally.",
  ["schedules"], "every interleaving (up to commuting steps) of every pair of calls, and of selected triples, over every small initial state, with happens-before race detection on each",
  "The suite runs under the race detector, but with one goroutine at a time; only the goroutines inside a call ever overlap.",
  [R, M, H, L], [("reader/writer locks around the name maps and the indices", R)], ["race reports of the Go race detector, blind to the scheduler's own hand-offs, on each explored schedule"],
  [("indices, aliases, MemoryIndex.Docs, MemoryIndex.InvertedIndex", "shared maps and slices", R + ", " + M)], "none in /repo")
p("C05", "Names and aliases resolve consistently in every history",
  "After any sequence of calls an alias exists exactly while at least one index is attached to it, and it lists only existing indices, each once; Alias reports true exactly when it adds a link to an existing index, and UnAlias removes exactly the named link, or the whole alias when no index is named, and nothing else. A name stands for the index of that name if there is one and otherwise for all indices attached to the alias of that name: Search on it returns the results of exactly those indices together, Put stores the document once in each of them, and for an unknown name Search fails with an error while Put creates an index of that name.",
  ["histories"], "all call histories over small sets of index and alias names (including names that are both) and a bounded number of stored documents, to closure of the reachable states",
  "Each test runs one hand-written sequence of two to four calls from an empty repository and mostly asserts a single return value.",
  [R], [("alias bookkeeping in Alias, UnAlias, Rename, Drop", R), ("index-first lookup", R + " Search/getIndices")], ["Repo.List, ListAliases, Has, HasAlias, Search, Put"],
  [("indices", "name -> index", R), ("aliases", "alias -> index names", R)])
p("C06", "Rename and Drop affect exactly one index and keep all other data",
  "Renaming an existing index makes all of its documents reachable under the new name and no longer under the old one, attaches every alias of the old name to the new name exactly once, replaces an index that already had the new name, and changes nothing when both names are equal. Dropping an existing index removes that index, its links and the aliases left without any link; the documents and links of every other index stay as they were. On an unknown name both report false and change nothing.",
  ["histories"], "all call histories over small sets of names and documents, to closure of the reachable states",
  "Tests rename once to a fresh name and drop once; renaming onto itself, onto an existing index, onto an alias name, or with shared and multiple aliases is never tried, and documents are never compared afterwards.",
  [R], [("Rename, Drop", R)], ["Repo.List, ListAliases, Search on every name before and after"],
  [("indices", "name -> index", R), ("aliases", "alias -> index names", R)])
p("C07", "Returned values are independent snapshots",
  "What List, ListAliases, String and Search return describes the repository at the time of the call: no later call changes a value already returned, and result streams of different searches do not influence each other. Modifying a returned value never changes the repository or any other returned value.",
  ["histories"], "every reachable small repository state, every query kind, followed by every possible call (and chains of calls), and by overwriting and appending to every returned slice",
  "Tests read each result immediately and discard it; none holds one across a later call or writes to it.",
  [R, M, H, L], [("fresh slices built for results", R + " List/ListAliases/Search"), ("copying of posting lists", M + " Indexed")], ["returned slices and streams, re-read after later calls"])
p("C08", "Search returns exactly the documents that contain every query token",
  "For every index content and every query, the hit-counting engine and the linear engine each return every stored document whose own token set includes all tokens of the query, exactly once, and no other; a query without tokens returns nothing. Each document is judged on its own tokens even if other stored documents share its identifier, and token order and repetition in document or query do not matter.",
  ["inputs"], "every corpus of up to three documents over a small vocabulary and identifier set (with repeated tokens and shared identifiers) with every query up to length three, every assignment of posting lists over up to five documents, and systematic families growing document count, query length and posting list length",
  "Tests use a dozen hand-picked corpora with distinct identifiers and distinct query tokens.",
  [H, L, M], [("hit counting with threshold", H), ("sorted list intersection", L)], ["MemoryIndex.Search and the engines over any Indexer"],
  [("InvertedIndex", "token -> ascending document positions", M)])
p("C09", "Both engines agree, and hit counts count query tokens",
  "For every index content and every query, the hit-counting engine and the linear engine return the same stored documents with the same hit counts. For a query of distinct tokens the hit count of every result is the number of query tokens, however often a token occurs in the document and however many stored documents share its identifier.",
  ["inputs"], "as for C08",
  "One test compares the two engines, on one corpus.",
  [H, L], [("hit counting", H), ("intersection", L)], ["Hits and Document of the results"])
p("C10", "Result order is defined and reproducible",
  "Linear and match-all searches of an index return documents in insertion order; hit-counting search returns them by descending hit count and, for equal counts, by ascending document identifier. Repeating a search with no change in between returns exactly the same sequence, also through an alias over several indices and however the goroutines doing the work are scheduled.",
  ["inputs", "schedules"], "corpora with every insertion order of identifiers (including shared ones) up to a bound and growing families; every schedule of a multi-index search",
  "Tests repeat single-index searches a few times in one schedule, with identifiers that sort like their insertion order.",
  [R, H, L, "search_result.go", "search_noop_search.go"], [("sorting by hits then identifier", "search_result.go Less"), ("merging of per-index results", R + " Search")], ["sequence of results from Search"])
p("C11", "Searching never changes an index",
  "Running any engine over an index, with any query and any number of times, changes neither the stored documents nor what any later search returns, and nothing an engine is given or a caller receives lets it alter the index: overwriting or extending a posting list handed to an engine, or a result list, has no effect on later searches. A custom engine sees exactly the query's tokens in order and the index's own documents and posting lists.",
  ["inputs", "histories"], "every small corpus, every pair of queries and engines, with every returned slice overwritten and appended to in between",
  "One test repeats one query and compares two lengths.",
  [M, H, L, "search_noop_search.go"], [("posting lists copied out", M + " Indexed"), ("intersection into a new slice", L)], ["Len, Document, Indexed and Search before and after"])
p("C12", "Tokenization yields exactly the maximal runs of kept characters",
  "The alphanumeric tokenizer splits any text, including invalid UTF-8, into exactly the maximal runs of Unicode letters and numbers, in order, unchanged and without empty tokens; a tokenizer built from predicates keeps a character exactly when at least one predicate accepts it. Consequently tokenizing two texts joined by a separator gives the tokens of the first followed by those of the second, and tokenizing is repeatable and leaves nothing behind from earlier texts.",
  ["inputs"], "every Unicode code point in every position class, every byte string up to three bytes, every string up to length six over representative character classes, every subset of a predicate set, and growing lengths",
  "No test looks at tokens; they see only a few Spanish sentences through searches.",
  ["analyze_clean_tokenizer.go"], [("field splitting with a keep predicate", "analyze_clean_tokenizer.go")], ["CleanTokenizer.Tokenize"])
p("C13", "Filters act on each token alone and compose in the given order",
  "The lower-case filter maps every token to its lower case and the Spanish stem filter maps every token to its Snowball stem, one output token per input token in the same order; the stop-word filter removes exactly the listed words and keeps the others in order. A pipeline applies its tokenizer and then its filters in the order given, and no filter alters the token list it was given or remembers earlier input.",
  ["inputs", "configurations"], "every code point, every short token list over words, stop words and mixed-case variants, every sequence of up to three filters",
  "Only one fixed pipeline is used, and tokens are never inspected.",
  ["analyze_compose.go", "analyze_lowercase_filter.go", "analyze_stem_filter.go", "analyze_stopwords_filter.go"], [("Filter implementations and pipeline loop", "analyze_*.go")], ["Filter, Tokenize results and inputs afterwards"])
p("C14", "A stored document is found by its own words",
  "With the documented Spanish pipeline (as with any pipeline of the package's parts), a stored document is returned by every search whose query consists of words of the text it was indexed under, in any order, any upper/lower case of Spanish letters, with any separators between them and with any stop words of the pipeline's list added, provided at least one word is not a stop word. A document that lacks one of the query's (stemmed, lower-cased) words is not returned.",
  ["inputs", "configurations"], "every word over a small Spanish alphabet up to a length with every common suffix, in every case variant, every ordered choice of words from short texts, with and without stop words and separators, for every pipeline configuration and both engines, through an index and through a repository",
  "Tests search about ten words in one or two spellings.",
  ["analyze_clean_tokenizer.go", "analyze_compose.go", "analyze_lowercase_filter.go", "analyze_stem_filter.go", "analyze_stopwords_filter.go", M, H, L], [("same analysis for storing and searching", M + " Put/Search")], ["Search results for derived queries"])
p("C15", "Word regions R1, R2 and RV follow the Snowball definition",
  "For every lower-case Spanish word the computed R1, R2 and RV are the regions of the Snowball Spanish stemmer: R1 is what follows the first non-vowel after a vowel, R2 is the same rule applied to R1, and RV is what follows the next vowel if the second letter is a consonant, what follows the next consonant if the first two letters are vowels, and otherwise what follows the third letter. A region that does not exist is empty; each region is a suffix of the word starting at a letter boundary, and the word is not modified.",
  ["inputs"], "every word up to eight letters over {plain vowel, accented two-byte vowel, consonant, two-byte consonant} classes, and every single, double and triple of Spanish letters",
  "The test covers four words, all with a non-empty R1.",
  ["stemmer_spanish_snowball.go"], [("R1R2RV", "stemmer_spanish_snowball.go")], ["the three returned regions"])
p("C16", "JSON encoding of results and indices loses nothing",
  "A search result encoded to JSON is valid JSON with fields doc.id, doc.raw and hits, and decoding it gives the same result for every identifier and content that is valid UTF-8 and every hit count; decoding ignores unknown fields and null values, accepts fields in any order, reports malformed input as an error, and keeps no reference to the input buffer. An in-memory index encoded to JSON and decoded into a fresh index with the same pipeline answers every search identically and accepts further documents.",
  ["inputs"], "every string up to length three over JSON-relevant characters and every code point, in each field, hit counts at every power-of-two boundary, every field order and subset with unknown fields, every truncation of an encoding; every small corpus for the index",
  "No test encodes or decodes anything.",
  ["search_result_easyjson.go", "search_result.go", "entities_doc.go", M], [("easyjson marshalers", "search_result_easyjson.go"), ("json field tags", M + ", entities_doc.go")], ["json.Marshal / json.Unmarshal / easyjson on SearchResult and MemoryIndex"])
p("C17", "An index stores every document verbatim and indexes its statement",
  "Each Put adds one document after all earlier ones, with the identifier and content given, byte for byte, and never alters or replaces an earlier document; what is searched is the document's statement (the content unless another statement was given). For every token the posting list holds, in ascending order and once each, exactly the positions of the documents whose analysed statement contains it; match-all search returns all documents with zero hits, and match-none nothing.",
  ["inputs", "histories"], "every sequence of up to four puts over identifiers, contents and statements from small domains and every request constructor, plus growing families",
  "Tests read documents back only through a few searches and never look at posting lists, statements or repeated identifiers.",
  [M, "entities_request.go", "entities_doc.go", "search_noop_search.go"], [("append-only documents and per-token posting lists", M + " Put")], ["Len, Document, Indexed, Docs, InvertedIndex, match-all search, DocRequest accessors"],
  [("Docs", "documents in insertion order", M), ("InvertedIndex", "token -> ascending positions", M)])
p("C18", "Indices and repositories do not influence each other",
  "Indices made by the same builder or sharing one pipeline, and repositories made from the same builder, are independent: what is stored in, renamed in or dropped from one never changes what another stores or returns, and an index's answers depend only on the documents put into it. This also holds when calls on different indices alternate or, for separate repositories and indices, run at the same time.",
  ["histories", "schedules"], "every interleaving of short put/search histories on two indices or repositories made from one builder, compared with running each history alone; concurrent runs under every schedule with race detection",
  "Each test uses one index or one repository at a time.",
  [M, R, "analyze_compose.go"], [("per-index maps made by the constructor", M + " NewMemoryIndex/NewMemoryIndexBuilder"), ("stateless analysis", "analyze_*.go")], ["Search, List, Indexed on each object"])
p("C19", "Document identity depends on the identifier alone",
  "Two documents have the same identity hash whenever they have the same identifier, whatever their content and however often it is computed. Documents with different identifiers of up to three bytes have different identity hashes.",
  ["inputs"], "every identifier of up to three bytes, each with several contents",
  "No test computes an identity hash.",
  ["entities_hash.go", "entities_doc.go"], [("FNV-1 64-bit hash of the identifier", "entities_hash.go")], ["Doc.Hash compared with =="])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
