"""What each check runs: (flavour, harness, mode, quick cases, thorough cases)."""
PLAN = {}


def P(pid, level, rule, runs, **kw):
    PLAN[pid] = dict(level=level, rule=rule,
                     runs=[dict(fl=r[0], h=r[1], mode=r[2], n=(r[3], r[4]), **(r[5] if len(r) > 5 else {})) for r in runs], **kw)


LISTS = "distinct hashes of the interval lists and expression evaluated with a non-empty result"
HIST = "distinct final states (addresses, words, annotations, erasures) of histories with at least two committed transactions"

P("Q01", "exploration", LISTS, [
    ("plain", "gcl", "nav_array", 100000, 2000000),
    ("plain", "gcl", "nav_ops", 400000, 6000000),
    ("plain", "gcl", "nav_fixed", 2000, 40000),
    ("asan", "gcl", "nav_array", 2000, 40000),
    ("asan", "gcl", "nav_ops", 4000, 100000),
])
P("Q02", "exploration", LISTS, [("plain", "gcl", "expr", 600000, 10000000), ("asan", "gcl", "expr", 40000, 100000)])
P("Q03", "exploration", LISTS, [("plain", "gcl", "optimizer", 60000, 1000000), ("asan", "gcl", "optimizer", 4000, 10000)])
P("Q04", "exploration", "distinct query texts", [
    ("plain", "gcl", "parse_roundtrip", 300000, 5000000),
    ("plain", "gcl", "phrase", 40000, 200000),
    ("asan", "gcl", "parse_roundtrip", 4000, 100000),
    ("asan", "gcl", "parse_hostile", 200000, 1000000),
    ("asan", "gcl", "phrase", 600, 20000),
    ("plain", "gcl", "infix", 30000, 400000),
    ("asan", "gcl", "infix", 2000, 40000),
])
P("D01", "exploration", HIST, [
    ("plain", "store", "atomic_mem", 3000, 150000),
    ("plain", "store", "atomic_disk", 1600, 60000),
    ("asan", "store", "atomic_mem", 200, 5000),
    ("asan", "store", "atomic_disk", 200, 5000),
    ("fast", "store", "atomic_disk", 400, 15000),
])
P("D02", "exploration", HIST, [
    ("plain", "store", "snap_mem", 3000, 150000),
    ("plain", "store", "snap_disk", 1600, 60000),
    ("tsan", "store", "snap_mem", 150, 3000),
    ("tsan", "store", "snap_disk", 150, 3000),
])
P("D04", "exploration", HIST, [
    ("plain", "store", "erase_mem", 3000, 150000),
    ("plain", "store", "erase_disk", 2000, 80000),
    ("asan", "store", "erase_disk", 200, 5000),
])
P("D05", "exploration", HIST, [
    ("plain", "store", "merge_mem", 1600, 60000),
    ("plain", "store", "merge_disk", 1600, 60000),
    ("asan", "store", "merge_disk", 160, 4000),
    ("fast", "store", "merge_disk", 400, 15000),
    ("tsan", "store", "merge_disk", 120, 2500),
])
P("D06", "exploration", HIST, [
    ("plain", "store", "reopen", 2400, 100000),
    ("asan", "store", "reopen", 200, 5000),
])
CONC = "distinct (commit order, per-reader visible sets) of concurrent runs in which a reader started mid-history"
P("D03", "exploration", CONC, [
    ("plain", "conc", "conc_mem", 3000, 100000),
    ("plain", "conc", "conc_disk", 2000, 60000),
    ("plain", "conc", "conc_hazel", 1200, 40000),
    ("asan", "conc", "conc_hazel", 200, 4000),
    ("fast", "conc", "conc_hazel", 500, 15000),
    ("fast", "conc", "conc_disk", 500, 15000),
])
P("D09", "exploration", CONC, [
    ("tsan", "conc", "conc_mem", 500, 15000),
    ("tsan", "conc", "conc_disk", 500, 12000),
    ("tsan", "conc", "conc_hazel", 800, 12000),
])
P("D07", "exploration", "distinct (operation killed at, acknowledged state, outcome)", [("plain", "crash", "crash", 280, 6000), ("fast", "crash", "crash", 100, 2500)])
P("D10", "exploration", "distinct (fault position, faults delivered, history) in which a fault was delivered", [("plain", "crash", "fault", 240, 6000), ("fast", "crash", "fault", 240, 6000)])
P("D08", "exploration", "distinct (contents, sequence of merges and interruptions)", [("plain", "crash", "hazel_merge", 900, 30000), ("fast", "crash", "hazel_merge", 300, 10000)])
P("S01", "exploration", "distinct (words, annotations) of collections of at least two tokens", [
    ("plain", "static", "build", 1600, 60000),
    ("asan", "static", "build", 150, 5000),
    ("fast", "static", "build", 400, 15000),
    ("tsan", "static", "build", 80, 2000),
])
P("S02", "exploration", "distinct contents reached, and distinct (operation killed at, contents before and after)", [
    ("plain", "static", "extend", 600, 25000),
    ("plain", "static", "static_crash", 240, 10000),
    ("asan", "static", "extend", 60, 2500),
    ("fast", "static", "extend", 200, 8000),
])
P("S04", "exploration", "distinct (operation failed at, contents before and after, outcome)", [
    ("plain", "static", "static_fault", 1500, 30000),
    ("fast", "static", "static_fault", 1500, 30000),
])
P("I01", "exploration", "distinct lists and byte strings written and read back", [
    ("plain", "post", "codec", 40000, 2000000),
    ("plain", "post", "posting", 20000, 400000),
    ("asan", "post", "codec", 4000, 100000),
    ("asan", "post", "posting", 6000, 100000),
])
P("I02", "exploration", "distinct sets of lists, groupings and erasures with a non-empty result", [
    ("plain", "post", "assemble", 100000, 3000000),
    ("asan", "post", "assemble", 20000, 200000),
])
P("T01", "exploration", "distinct texts of two or more words, and blocks of code points", [
    ("plain", "text", "tokens", 200000, 5000000),
    ("plain", "text", "codepoints", 1088, 1088),
    ("asan", "text", "tokens", 20000, 300000),
    ("asan", "text", "codepoints", 1088, 1088),
])
P("T02", "exploration", "distinct sequences of texts with two or more words, per kind of store", [
    ("plain", "text", "fidelity", 2500, 100000),
    ("asan", "text", "fidelity", 500, 10000),
])
P("F01", "exploration", "distinct sets of names featurized", [
    ("plain", "conf", "featurize", 20000, 600000),
    ("plain", "conf", "vocabulary", 2000, 50000),
    ("asan", "conf", "featurize", 4000, 60000),
    ("asan", "conf", "vocabulary", 300, 5000),
])
P("P01", "exploration", "distinct configurations, option sequences and parameter sets", [
    ("plain", "conf", "recipe", 60000, 2000000),
    ("plain", "conf", "options", 10000, 200000),
    ("plain", "conf", "params", 2000, 60000),
    ("plain", "conf", "components", 1500, 40000),
    ("asan", "conf", "recipe", 20000, 200000),
    ("asan", "conf", "options", 1000, 20000),
    ("asan", "conf", "params", 300, 6000),
    ("asan", "conf", "components", 300, 4000),
])
P("J01", "exploration", "distinct sequences of two or more documents, and of files, per kind of store", [
    ("plain", "json", "json", 4000, 150000),
    ("plain", "json", "jsonl", 3000, 100000),
    ("plain", "json", "files", 3000, 60000),
    ("asan", "json", "json", 600, 10000),
    ("asan", "json", "jsonl", 400, 6000),
    ("asan", "json", "files", 300, 4000),
])
P("R01", "exploration", "distinct queries with a non-empty ranking, per collection and parameters", [
    ("plain", "rank", "bm25", 1500, 60000),
    ("plain", "rank", "ssr", 1500, 60000),
    ("plain", "rank", "parallel", 60, 2000),
    ("plain", "rank", "topics", 500, 15000),
    ("asan", "rank", "bm25", 300, 8000),
    ("asan", "rank", "ssr", 300, 8000),
    ("asan", "rank", "topics", 150, 4000),
    ("tsan", "rank", "topics", 200, 6000),
    ("tsan", "rank", "parallel", 8, 300),
])
P("R02", "exploration", "distinct collections and ways of recording their statistics", [
    ("plain", "rank", "stats", 3000, 100000),
    ("asan", "rank", "stats", 600, 15000),
])
P("R03", "exploration", "distinct rankings and judgements", [
    ("plain", "rank", "measures", 10000, 300000),
    ("plain", "rank", "qrels", 3000, 80000),
    ("asan", "rank", "measures", 1500, 40000),
    ("asan", "rank", "qrels", 500, 12000),
])
P("L01", "exploration", "distinct sequences of two or more loaded files, and points of failure", [
    ("plain", "meadow", "load", 1500, 50000),
    ("plain", "meadow", "load_big", 12, 400),
    ("plain", "meadow", "load_crash", 250, 4000),
    ("asan", "meadow", "load", 400, 8000),
    ("fast", "meadow", "load", 300, 10000),
    ("tsan", "meadow", "load", 300, 8000),
])
P("L02", "exploration", "distinct collections foraged, and labels", [
    ("plain", "meadow", "forage", 1200, 40000),
    ("plain", "meadow", "forage_big", 24, 600),
    ("plain", "meadow", "label", 2000, 100000),
    ("asan", "meadow", "forage", 300, 8000),
    ("asan", "meadow", "label", 500, 10000),
    ("tsan", "meadow", "forage", 200, 5000),
])
P("S03", "exploration", "distinct (words, annotations) of collections read by several threads", [
    ("plain", "static", "fastid", 1500, 40000),
    ("plain", "static", "readers", 1500, 50000),
    ("asan", "static", "fastid", 200, 4000),
    ("asan", "static", "readers", 150, 4000),
    ("tsan", "static", "readers", 400, 12000),
])
P("N01", "exploration", "distinct sessions of a server with a collection of two or more documents", [
    ("plain", "serve", "serve", 1200, 40000),
    ("asan", "serve", "serve", 250, 6000),
    ("fast", "serve", "serve", 200, 6000),
])
