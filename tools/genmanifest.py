"""Writes MANIFEST.json and checks it and properties.jsonl against the schemas."""
import json, os
ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
SCHED = "stateless model checking of the real code under a controlled scheduler (dynamic partial-order reduction with source and sleep sets; preemption-bounded at statement granularity)"
T = {
 "C01": (SCHED + "; linearizability against a reference model", "model_checking", "Every schedule of every explored client program is executed on the real code and the final content compared with the one-at-a-time orders of a reference model. Bounds: 2-4 clients, up to 4 calls, 17 small and 4 large initial states; trusts the shims' model of sync, the sequentially consistent execution (C04 covers races) and the Go toolchain."),
 "C02": (SCHED + "; linearizability against a reference model", "model_checking", "Every schedule of every explored client program is executed on the real code; results, real-time order and final content must be explained by some order of the calls on the reference model. Bounds and trust as C01."),
 "C03": (SCHED + ", with deadlock and panic detection, plus explicit-state search over call histories", "model_checking", "Every schedule of every pair of calls (and of triples, quads and squares of smaller alphabets) terminates without deadlock or panic and leaves every lock usable (probed by further calls); every call history over small name sets up to closure of the reachable states does too. Termination is judged in bounded executions."),
 "C04": (SCHED + " with the Go race detector judging every execution", "model_checking", "Every schedule (up to commuting steps) of every pair of calls, of triples, chains, squares and quads runs under the race detector, which sees only the code's own synchronisation. Bounds: 2-4 clients, up to 4 calls; races between code that no explored program reaches are not seen."),
 "C05": ("explicit-state model checking of the real code: breadth-first search over call histories with state matching on the object graph, each transition compared with a reference model", "model_checking", "Search to closure of the reachable states for small sets of names and documents, all histories to a depth without state matching, and systematic families of growing aliases; oracle: reference model written from the statement."),
 "C06": ("explicit-state model checking of the real code: breadth-first search over call histories with state matching on the object graph, each transition compared with a reference model", "model_checking", "As C05, counting every history that contains a Rename or Drop."),
 "C07": ("exhaustive exploration of call histories on the real code with results held across all later calls and overwritten", "model_checking", "Every returned value in every explored state is re-read after every later call (chains of two, three in the thorough tier) and after overwriting every other returned value."),
 "C08": ("bounded exhaustive enumeration of corpora, queries and posting lists on the real engines against the definition", "exploration", "Complete within the bounds given in the evidence; larger corpora only in systematic growing families."),
 "C09": ("bounded exhaustive enumeration of corpora, queries and posting lists on both real engines", "exploration", "Complete within the bounds given in the evidence; larger corpora only in systematic growing families."),
 "C10": (SCHED + " for multi-index searches; bounded exhaustive enumeration of insertion orders on the real engines", "model_checking", "All schedules and both map iteration orders of multi-index searches within bounds return the undisturbed sequence; orders of single-index results compared with the definition."),
 "C11": ("bounded exhaustive enumeration of corpora and pairs of searches on the real index with hostile engines and callers", "exploration", "Every received slice is overwritten up to its capacity and appended to; stored data and all later answers are compared."),
 "C12": ("bounded exhaustive enumeration of texts and predicate sets on the real tokenizer against its definition", "exploration", "All code points, all byte strings to length three, all strings over character classes to a bound; Unicode tables of the Go library are trusted."),
 "C13": ("bounded exhaustive enumeration of tokens, token lists and filter sequences on the real filters", "exploration", "Snowball stems are those of github.com/kljensen/snowball/spanish, which is trusted; inputs are checked for being left alone."),
 "C14": ("bounded exhaustive enumeration of words, spellings, queries and pipelines through index and repository", "exploration", "Expected answers from an independent analysis of text and query; stems by github.com/kljensen/snowball/spanish."),
 "C15": ("bounded exhaustive enumeration of words over letter classes against an independent definition of the regions", "exploration", "All words up to a length over four letter classes, all three-letter words over the Spanish alphabet, all long words over two classes."),
 "C16": ("bounded exhaustive enumeration of values and JSON texts, with encoding/json as reference", "exploration", "All code points, all short strings over JSON-relevant characters, all short token sequences, all truncations; indices of all small corpora."),
 "C17": ("bounded exhaustive enumeration of put sequences on the real index against the definition", "exploration", "All sequences of up to four puts over small domains; larger indices in growing families."),
 "C18": (SCHED + " under the race detector for two repositories or indices; exhaustive interleaving of two call histories compared with each run alone", "model_checking", "Oracle for interleavings: the same history run alone on a fresh object. Bounds: two objects, histories of up to three calls (more in sequence)."),
 "C19": ("bounded exhaustive enumeration of identifiers", "exploration", "All identifiers of up to three bytes (pairwise distinct hashes), each short identifier with several contents."),
}
props = [json.loads(l) for l in open(ROOT + "/properties.jsonl")]
assert [p["id"] for p in props] == list(T)
m = {"version": 1, "setup_cmd": "python3 -m py_compile check.py && go version", "checks": [], "not_applicable": [],
     "notes": "No hooks in /repo: checks transform a scratch copy of its current tree. See DESIGN.md."}
for p, (t, l, n) in T.items():
    m["checks"].append({"property": p, "quick_cmd": "bash check.sh %s --tier quick" % p, "thorough_cmd": "bash check.sh %s --tier thorough" % p, "evidence_file": "evidence/%s.json" % p, "technique": t, "level": l, "level_note": n})
json.dump(m, open(ROOT + "/MANIFEST.json", "w"), indent=1)
import jsonschema
jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
sch = json.load(open("/root/.vp/PROPERTIES.schema.json"))
for p in props: jsonschema.validate(p, sch)
import glob
for f in glob.glob(ROOT + "/evidence/*.json"):
    jsonschema.validate(json.load(open(f)), json.load(open("/root/.vp/EVIDENCE.schema.json")))
