"""The properties, in one place: emits properties.jsonl and MANIFEST.json."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
PROPS = []


def prop(id, title, statement, over, text, tests, files, mech, tech, note, observe=None, state=None):
    p = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=tests,
             anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech]))
    if state:
        p["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    if observe:
        p["anchors"]["observe_at"] = observe
    PROPS.append((p, tech, note))


prop("Q01", "Every access method of every list finds the nearest interval",
     "For every list of intervals the system can produce (stored postings of any length, singletons, merged shards, fixed-width windows, and any operator over them) the four access methods return exactly the nearest interval at or after, respectively at or before, a given start or end position, or the end sentinel when there is none. The answer depends only on the position asked for, never on earlier calls, and value-carrying lists return the value stored with that interval.",
     ["inputs", "histories"],
     "all interval lists, all positions including those around the sentinels, and all call sequences that move backwards and forwards on one object",
     "The unit tests step a few hand-written lists mostly forwards; the object caches its position and galloping searches in both directions depend on the previous call.",
     ["src/hopper.h", "src/hopper.cc", "src/array_hopper.cc", "src/simple_idx.cc", "gcl/gcl.cc", "gcl/vector_hopper.cc"],
     [("galloping search", "src/array_hopper.cc hopping/gnippoh"), ("memo of the last answer", "src/hopper.h"),
      ("operator access methods", "gcl/gcl.cc"), ("k-way merge of shards", "gcl/vector_hopper.cc")],
     "online reference monitor over call sequences, ASan/UBSan slice",
     "Held on random lists and random, clustered, forward and backward call sequences, each answer compared with an independent naive list; not a proof.",
     ["Hopper tau/rho/uat/ohr return values"])

prop("Q02", "Query operators return exactly the minimal intervals of their definition",
     "Evaluating a query built from containment, proximity, conjunction, disjunction, ordering, phrase and fixed-width operators returns exactly the intervals its definition demands over the operands' intervals, reduced so that no result contains another. Containment operators keep the value of the interval they select.",
     ["inputs", "programs"],
     "all operator trees over all operand lists",
     "Tests check specific queries over one or two fixed collections; nested combinations, ties on start or end, overlaps and empty operands are not reached.",
     ["gcl/gcl.cc", "gcl/gcl.h", "gcl/parse.cc", "src/warren.cc"],
     [("operators", "gcl/gcl.cc"), ("expression to evaluator", "gcl/parse.cc to_hopper"), ("query entry point", "src/warren.cc hopper_from_gcl")],
     "differential oracle: naive set-level evaluator against the lazy one, ASan/UBSan slice",
     "Held on random operator trees up to depth 4 over random lists, parsed through the public query entry point.",
     ["Warren::hopper_from_gcl"])

prop("Q03", "Optimising, materialising or parallel evaluation never changes an answer",
     "Rewriting a query by the optimiser, replacing a subquery by its precomputed result, or evaluating it under any other plan the system offers yields the same intervals, in both directions of access, as evaluating the query as written.",
     ["programs", "inputs"],
     "all query trees, including repeated subqueries, and all collections",
     "The optimiser's tests compare a handful of printed expressions; equality of results over arbitrary trees is never checked.",
     ["gcl/optimizer.cc", "gcl/materialize.cc", "gcl/parse.cc"],
     [("rewrite rules", "gcl/optimizer.cc"), ("precomputation", "gcl/materialize.cc")],
     "differential oracle between evaluation plans",
     "Held on random trees with shared subtrees, each compared with the naive evaluator under both plans.")

prop("Q04", "Query text is read as written or rejected, in both notations",
     "A query printed by the system parses back to a query with the same text and the same answer, and a quoted phrase, a term with several forms and the infix notation give the same answer as the operator expression they stand for. Any other byte string either parses or is rejected with a message, without crashing, hanging or damaging later queries.",
     ["inputs"],
     "all query strings, well formed or not, and all tokenizers",
     "Tests parse a short list of well-formed strings.",
     ["gcl/parse.cc", "gcl/mt.cc", "src/warren.cc"],
     [("recursive descent parser", "gcl/parse.cc SExpression::from_string"), ("phrase and term expansion", "gcl/parse.cc expand_phrases"),
      ("infix translation", "gcl/mt.cc infix_expression")],
     "grammar-based and mutation fuzzing under ASan/UBSan with round-trip and equivalence oracles",
     "Held on generated and mutated query texts; unbounded fixed-width lists are excluded from evaluation of hostile text.")

prop("D01", "A transaction is visible entirely or not at all",
     "On the dynamic store, in memory or on disk, everything a transaction appended, annotated and erased becomes visible at commit as one unit, and nothing of an aborted transaction, or of one not yet committed, is ever visible, wherever in its life it is aborted. Aborted transactions may consume address space but change nothing else, and other transactions open at the same time are unaffected.",
     ["histories", "configurations"],
     "all interleavings of transactions through begin, append, annotate, ready, commit and abort, in memory and on disk, with every compressor and tokenizer",
     "Tests run a few fixed scenarios, mostly one transaction at a time, and do not compare the whole observable state after each step.",
     ["src/bigwig.cc", "src/fiver.cc", "src/committable.h", "src/fluffle.h"],
     [("staging addresses and relocation", "src/fiver.cc ready_"), ("commit and abort of a shard", "src/fiver.cc commit_/abort_"), ("shared shard list", "src/bigwig.cc")],
     "model-based monitoring of random transaction histories (full state comparison)",
     "Held on random histories of up to ~20 transactions with three open at a time; the whole index, text and query results are compared with a model after steps.",
     ["started clones of the store"], [("shard list", "shards in sequence order, some not yet committed", "src/fluffle.h")])

prop("D02", "A started reader sees one unchanging snapshot",
     "From the moment a reader starts until it ends, every text, index, count and query answer it gives is that of exactly the transactions committed when it started, however many transactions commit or abort, erase content, or are merged in the background meanwhile. A clone of a started reader shares its snapshot, and a reader started later sees all that has been committed by then.",
     ["histories", "schedules"],
     "all histories and all interleavings of readers with commits, aborts, erasures and background merging",
     "Tests check readers after the fact, not readers held open while the store changes underneath them.",
     ["src/bigwig.cc", "src/fiver.cc", "src/hazel.cc", "src/fluffle.h"],
     [("snapshot taken at start", "src/bigwig.cc start_"), ("clone", "src/bigwig.cc clone_"), ("shard replacement by merges", "src/bigwig.cc merge worker")],
     "model-based snapshot monitor, concurrent reader/writer stress with exact-snapshot oracle, delay injection",
     "Held on recorded histories and on concurrent runs whose readers identified the exact committed set they saw.")

prop("D04", "Erased content stays gone and nothing else disappears",
     "After a transaction that erases a range commits, no annotation or token lying inside an erased range is returned by any lookup or query, and every annotation not inside some erased range is still returned. This holds for nested, overlapping and repeated erasures, for content and erasures in one transaction, and is unaffected by merging, conversion to the large-shard format, or reopening.",
     ["histories", "inputs"],
     "all histories of annotations and erasures over the same addresses, and all merge points between them",
     "Tests erase once or twice in a fixed collection and do not revisit the result after merging or reopening.",
     ["src/bigwig.cc", "src/fiver.cc", "src/hazel.cc", "src/simple_posting.cc"],
     [("filtering by erased ranges", "src/bigwig.cc hopper_"), ("physical removal while merging", "src/simple_posting.cc posting_from_merge"), ("erasures in one transaction", "src/simple_posting.cc posting_from_annotations")],
     "model-based monitoring of random histories with erasures",
     "Held on random histories; annotations of one tag never nest inside one another (their order of removal would be ambiguous).")

prop("D05", "Background merging is invisible",
     "Merging small shards, converting them to the large-shard format and merging those changes no observable answer: text, token counts, ranges, index lookups with their values, and queries are identical before, during and after, for any sequence of transactions, aborts and erasures. Merging stops by itself once there is nothing left to do and never blocks transactions.",
     ["histories", "schedules", "configurations"],
     "all histories, all moments at which merging is switched on or off, all mixtures of shard formats and compressors",
     "Tests let merging happen but compare only a few counts afterwards.",
     ["src/bigwig.cc", "src/fiver.cc", "src/hazel.cc", "src/simple_posting.cc"],
     [("merge selection and worker", "src/bigwig.cc try_merge"), ("merging in-memory shards", "src/fiver.cc merge"), ("merging large shards", "src/hazel.cc merge")],
     "model-based monitoring across merge rounds, quiescence monitor on background threads",
     "Held on random histories with merging toggled at random and waits for quiescence; termination is decided as reaching quiescence within a bound.")

prop("D06", "A closed store reopens with everything that was committed",
     "Closing a store and opening it again, any number of times and with any shard formats and compressors on disk, yields every committed transaction's text, index, values, erasures and parameters, no aborted or unfinished transaction, and addresses that continue without reuse. Closing leaves no stray files behind and reopening tolerates leftovers of replaced shards.",
     ["histories", "configurations"],
     "all histories of transactions, merges, conversions and reopenings, over all compressor choices",
     "Tests reopen a few fixed stores once.",
     ["src/bigwig.cc", "src/fiver.cc", "src/hazel.cc", "src/dna.cc"],
     [("startup inventory of shards", "src/bigwig.cc make"), ("shard files", "src/fiver.cc pickle/unpickle"), ("large shard files", "src/hazel.cc make")],
     "model-based monitoring across reopenings",
     "Held on random histories with several reopenings; crashes are the subject of a separate property.")

prop("D03", "Concurrent writers: each commit lands once, at its own addresses",
     "When any number of writers append, annotate, erase, commit and abort at the same time, with readers active and background merging running, every committed transaction ends up in the store exactly once, with its text, words and annotations contiguous at addresses no other transaction uses and which never change afterwards; nothing of an aborted transaction appears. A reader that starts after a commit returned sees it, one that started before the commit was called does not, and visibility never goes backwards. Transactions committed together are all committed.",
     ["schedules", "histories", "configurations"],
     "all interleavings of writer, reader and merge threads, all mixes of commits, aborts, erasures and grouped commits, in memory and on disk",
     "Tests run writers one after another or compare only final counts of one schedule.",
     ["src/bigwig.cc", "src/fiver.cc", "src/warren.h", "src/fluffle.h"],
     [("address and sequence assignment", "src/bigwig.cc ready_"), ("publication", "src/bigwig.cc commit_"), ("snapshot", "src/bigwig.cc start_"), ("grouped commit", "src/bigwig.cc commit_all")],
     "recorded histories of concurrent runs under injected delays, offline history checker",
     "Held on the interleavings produced with seeded delays at lock operations; not an enumeration of all schedules.")

prop("D09", "No data races, and the store always makes progress",
     "Threads that each use their own handle, or that read through one shared snapshot, never race on memory, whatever mix of reading, appending, committing, aborting, parameter changes and background merging they run. Commits, aborts, reads and background merging always finish: nothing deadlocks and merging comes to rest when no more work arrives.",
     ["schedules"],
     "all interleavings of writers, readers, readers sharing a snapshot, parameter changes and merge workers",
     "Data races and deadlocks rarely change a test's outcome and depend on the schedule.",
     ["src/bigwig.cc", "src/fiver.cc", "src/owsla.h", "src/hazel.cc", "src/fluffle.h", "src/simple_idx.cc", "src/simple_txt.cc"],
     [("shared store state and its lock", "src/fluffle.h"), ("shared caches of posting lists", "src/owsla.h"), ("merge workers", "src/bigwig.cc merge_worker")],
     "ThreadSanitizer on concurrent workloads with injected delays, watchdog for progress",
     "TSan reports races on the executed happens-before graphs; progress is decided with time bounds far above the normal duration.")

prop("D07", "A killed process loses nothing acknowledged and leaves nothing half done",
     "If the process is killed at any moment, the next opening of the store succeeds and shows exactly the transactions whose commit returned, plus possibly the one commit or grouped commit in flight, complete or not at all - never part of a transaction or part of a group, and never anything aborted or unfinished. This holds for kills during commits, background merges, conversions, clean-up and recovery itself, and the recovered store accepts, merges and keeps further transactions and carries no leftover files.",
     ["crash_points", "histories", "configurations"],
     "all points between and within file operations of all histories, including repeated kills during recovery",
     "A test would have to stop the process between two specific file operations; tests only stop at the end.",
     ["src/bigwig.cc", "src/fiver.cc", "src/hazel.cc", "src/working.cc", "src/dna.cc"],
     [("single commit by link", "src/fiver.cc commit_"), ("grouped commit by script", "src/bigwig.cc commit_all"), ("recovery", "src/bigwig.cc make"),
      ("restartable large merge", "src/hazel.cc merge")],
     "fault injection at interposed file operations (kill, torn write), state oracle after restart",
     "Held at sampled kill points of random histories (every point of small ones in the thorough tier). Covers process death, not power loss: the code never syncs.",
     observe=["the store after it is opened again"])

prop("D10", "A failed write is reported or retried, never half believed",
     "When writing to the store's files fails (disk full, quota, input/output error), once or for a while, the operation reports the failure or still succeeds completely; the process keeps running, every transaction already committed stays readable with its exact content, and a transaction reported as failed leaves no trace. When writing works again, commits, merging and reopening work again.",
     ["fault_sequences", "histories"],
     "all data write and file creation failures at any point of any history, single or persistent",
     "Tests never see a failing disk.",
     ["src/fiver.cc", "src/hazel.cc", "src/simple_posting.cc", "src/bigwig.cc", "src/dna.cc"],
     [("shard writing", "src/fiver.cc pickle"), ("conversion", "src/fiver.cc hazel"), ("large merge", "src/hazel.cc merge"), ("parameters", "src/dna.cc")],
     "fault injection at interposed write calls, model-based state monitor during and after the faults",
     "Held for injected failures of data writes and file creation; failures of rename, link and unlink are not injected.")

prop("D08", "Large shards: conversion and merging in any grouping keep the content",
     "Converting a shard to the large on-disk format and merging large shards, in any grouping and nesting of neighbours, yields a shard with exactly the text, index entries, values and erasures of its sources. A merge stopped anywhere (killed, or failing to write) and started again, any number of times, ends in the same result, never damages its sources or a finished result, and cleans up after itself; merging shards that are not neighbours in order is refused without leaving anything behind.",
     ["crash_points", "histories", "configurations"],
     "all contents, chunk sizes, compressors, groupings of two or more shards, and interruptions at any file operation with any remaining part of the progress files",
     "Tests merge two or three fixed shards; restarting depends on which part of two progress files reached the disk.",
     ["src/hazel.cc", "src/fiver.cc", "src/owsla.cc"],
     [("checkpointed index merge", "src/hazel.cc HazelIdx::merge"), ("checkpoint repair", "src/hazel.cc hazel_repair_checkpoint"),
      ("text blob merge", "src/hazel.cc HazelTxt::merge"), ("conversion", "src/fiver.cc hazel")],
     "model-based monitoring of converted and merged shards, with interposed kills and write failures during merges",
     "Held on random contents and groupings with sampled interruption points, up to four interruptions in a row.")

prop("S01", "A statically built collection holds exactly what was added",
     "After building a static collection from any sequence of texts and annotations and finalising it, opening it gives every text byte for byte over every address range, every word at its address, exactly the annotations given reduced to minimal intervals with their values, exact counts and vocabulary, and each call returned the addresses its text really occupies. The outcome does not depend on compressors, on how many sorted runs the builder spilled, or on block and chunk boundaries, and a copy of the reader made for another thread answers the same.",
     ["inputs", "configurations"],
     "all sequences of texts (including ones without a token), annotations, tokenizers, compressors and spill sizes",
     "Tests build a few small collections with default sizes; spills, block and chunk boundaries and nested annotations within one run are not covered.",
     ["src/simple_builder.cc", "src/simple_posting.cc", "src/simple_idx.cc", "src/simple_txt.cc", "src/simple_txt_io.cc", "src/simple_warren.cc"],
     [("sorted runs and their merge", "src/simple_builder.cc build_index"), ("address to byte map", "src/simple_txt.cc load_map/translate_"),
      ("compressed chunks", "src/simple_txt_io.cc"), ("dictionary lookup", "src/simple_idx.cc locate/load_cache")],
     "model-based monitoring of built collections, ASan/UBSan and TSan slices",
     "Held on random collections; with more than one spilled run, annotations of one tag are added in order and without nesting, which the builder requires.")

prop("S02", "Static collections: transactions commit whole, roll back whole, and recover",
     "A transaction on a static collection makes its texts and annotations visible to collections opened after commit, all of them and nothing else, while abort at any point, and any collection opened before the commit, shows the old content; only one transaction runs at a time. If the process is killed at any file operation, recovering backwards restores the old content and, once the transaction had been reported ready, recovering forwards yields the complete new content; recovery can be repeated, and the collection can be extended again.",
     ["crash_points", "histories"],
     "all contents, transaction sequences and kill points",
     "Recovery tests drop an object with everything already flushed at one point; real kill points between and inside file operations are never taken.",
     ["src/simple_appender.cc", "src/simple_annotator.cc", "src/simple_txt_io.cc", "src/simple_warren.cc"],
     [("limits file and restore", "src/simple_txt_io.cc restore/transaction_"), ("token map rewrite", "src/simple_appender.cc"),
      ("posting rewrite", "src/simple_annotator.cc merge_updates")],
     "model-based monitoring plus interposed kills at file operations and recovery",
     "Held on random histories and sampled kill points (process death, not power loss). Opening the directory elsewhere during a transaction may make it refuse to become ready, never lose or mix content.")


prop("I01", "Posting lists and compressed data are read back exactly as written",
     "Whatever is written as a posting list, with or without end addresses and values, is read back identically - from a file, from a memory block, from any cut of a stream of lists - for every compressor and every address including the extremes, and compressing then decompressing gives back every byte. A list cut short is refused and never read past its end.",
     ["inputs", "configurations"],
     "all lists of intervals with values, all byte strings and integer sequences, all compressors",
     "Tests round-trip a few small lists; encodings change form with list shape, address gaps and size.",
     ["src/simple_posting.cc", "src/vbyte_compressor.cc", "src/post_compressor.cc", "src/zlib_compressor.cc", "src/tfdf_compressor.cc", "src/compressor.cc"],
     [("list encoding", "src/simple_posting.cc write/posting_from_file"), ("address coding", "src/vbyte.h"), ("compressors", "src/*_compressor.cc")],
     "round-trip monitor with ASan/UBSan on exact-size blocks",
     "Held on random and boundary-biased lists and byte strings.")

prop("I02", "Index lists assembled from parts equal the list of the whole",
     "Combining any number of ordered index lists, in any grouping and with any of them empty, gives the same entries as building one list from everything, with only minimal intervals kept and the newest value kept for a repeated interval; erasing intervals removes exactly the covered entries. A list refuses parts that would put it out of order instead of storing them.",
     ["inputs", "programs"],
     "all lists, groupings of the parts and sets of erasures",
     "Tests combine two or three fixed lists; order checks and tie rules only matter for particular shapes.",
     ["src/simple_posting.cc", "src/gcl.cc"],
     [("merging lists", "src/simple_posting.cc append/merge"), ("erasures", "src/simple_posting.cc"), ("minimal intervals", "src/gcl.cc")],
     "model-based monitoring of assembled lists, ASan/UBSan slice",
     "Held on random lists and groupings.")

prop("T01", "Splitting text into words is exact, local and consistent",
     "Splitting any bytes into words always gives the words the tokenizer is documented to give, at increasing addresses and increasing byte ranges inside the text, for every Unicode character and for malformed input. Skipping over words counts the same words at the same places as splitting does, splitting a text in two between words changes nothing, and a word looked up by itself is the word found in the text.",
     ["inputs", "configurations"],
     "all byte strings and every Unicode code point, with each tokenizer",
     "Tests split a few sentences; case folding, character classes and malformed sequences have too many cases.",
     ["src/ascii_tokenizer.cc", "src/utf8_tokenizer.cc", "src/tokenizer.cc"],
     [("ascii and markup splitting", "src/ascii_tokenizer.cc"), ("unicode splitting and folding", "src/utf8_tokenizer.cc")],
     "independent reference splitter compared online, exhaustive over code points one at a time, ASan/UBSan",
     "Every code point alone and between neighbours; random texts otherwise. The reference follows the character classes of Unicode 15.0.")

prop("T02", "Every store gives back its text byte for byte and finds its words",
     "Any bytes added as text, in any number of additions, transactions and sizes, come back unchanged for any range of addresses from any kind of store - in memory, on disk, merged, reopened, or statically built - whatever the tokenizer and compressors. The number of words, the range of addresses and the places where each word is found are those of splitting each text by itself.",
     ["inputs", "histories", "configurations"],
     "all byte strings, partitions into additions and transactions, tokenizers, compressors and kinds of store",
     "Tests store a few ASCII sentences; separators, chunk boundaries and multi-byte characters interact.",
     ["src/fiver.cc", "src/hazel.cc", "src/simple_txt.cc", "src/simple_txt_io.cc", "src/simple_appender.cc", "src/bigwig.cc", "src/core.h"],
     [("text of a shard", "src/fiver.cc"), ("separators between additions", "src/core.h separator"), ("address to byte map", "src/simple_txt.cc"), ("large shards", "src/hazel.cc HazelTxt")],
     "model-based monitoring against the text given, ASan/UBSan slice",
     "Held on random bytes with multi-byte, markup and boundary bias. Text before the first word of a transaction, or of a transaction without words, may belong to either neighbour.")


prop("F01", "Every name maps to one number, and back",
     "A word or tag always gets the same number, whatever memory it sits in, whichever handle asks and however often, equal to the number stored in existing collections; names of up to seven bytes never share one and translate back to themselves, and the translation of any number leads back to that number. Features made through prefixes, structure filters or vocabulary recording differ from the plain ones exactly as those promise, a recorded vocabulary lists every word once with its number of uses, and a featurizer made again from its own description agrees everywhere.",
     ["inputs", "configurations"],
     "all byte strings, all numbers, and nestings of featurizers",
     "Tests check a handful of names; collisions and translations depend on length, zero bytes and literal-looking names.",
     ["src/hashing_featurizer.cc", "src/tagging_featurizer.cc", "src/json_featurizer.cc", "src/vocab_featurizer.cc", "src/wrapping_featurizer.cc", "src/featurizer.cc"],
     [("numbering", "src/hashing_featurizer.cc featurize_/translate_"), ("wrappers", "src/tagging_featurizer.h, src/json_featurizer.cc"), ("vocabulary", "src/vocab_featurizer.cc")],
     "independent reference numbering compared online, ASan/UBSan slice",
     "Held on random and boundary-biased names and numbers.")

prop("P01", "Configuration and parameters are kept exactly, or refused",
     "A parameter set on a store is read back with the same value by every handle, after reopening and from shards written since, whatever characters it holds, or is refused without any effect; setting parameters never changes the content or stops the store from opening. Options change exactly the setting they name and malformed ones are refused without effect; a configuration written out and read again means the same, a damaged or incomplete one is refused, and reopening gives the components the store was made with.",
     ["inputs", "configurations", "histories"],
     "all parameter names and values, nestings of configurations, options and malformed texts",
     "Tests set simple values; quoting, nesting and line ends only matter for particular characters.",
     ["src/recipe.cc", "src/dna.cc", "src/bigwig.cc", "src/simple_warren.cc", "src/hazel.cc", "src/warren.cc"],
     [("reading and writing recipes", "src/recipe.cc cook/freeze"), ("options", "src/recipe.cc interpret_option/extract_option"), ("stored parameters", "src/dna.cc set_parameter_in_dna"), ("parameters in shards", "src/hazel.cc")],
     "round-trip and model-based monitors, ASan/UBSan slice",
     "Values that are themselves configurations come back with the same meaning rather than the same layout.")


prop("J01", "JSON documents are stored, found by path and given back as themselves",
     "Every valid JSON document added to a store, in any way a program may write it, is held at the addresses reported; each path and each member name lists exactly the places and values of what the document holds there, its words are found, its structure is not a word, and the text of any value, translated, is JSON equal to that value. Anything that is not JSON is refused without a trace, and loading files of one document per line, or of plain text, takes every line of every file up to the first that fails and nothing of that one.",
     ["inputs", "histories", "configurations"],
     "all JSON values and spellings of them, damaged texts, files and transactions, in static, in-memory and durable stores",
     "Tests store one or two small documents; escapes, characters near those that mark structure, number ranges and line ends only matter in particular documents.",
     ["src/json.cc", "src/json_featurizer.cc", "src/json_txt.cc", "src/scribe.cc", "src/utf8_tokenizer.cc", "src/simple_builder.cc"],
     [("storing", "src/json.cc json_scribe"), ("giving back", "src/json.cc json_translate, src/json_txt.cc"), ("loading files", "src/scribe.cc scribe_files/scribe_jsonl")],
     "model-based monitoring of every value against the document generated, ASan/UBSan slice",
     "Numbers come back to the six decimals kept in text, exactly as values of their annotations; runs of spaces and line ends in strings come back as one space; at most five levels deep in generated documents.")

prop("R01", "Rankings are what scoring every item would give",
     "For every query, collection, depth and parameters, a ranking holds the best items by the published formula (BM25 over term weights, passages scored by the shortest spans that hold all the terms), in order of score, none missing, none twice and none beyond the depth asked for, each with its own place, container and name. Splitting the work over threads, pipelines of steps and batches of topics give the same results as one query at a time.",
     ["inputs", "configurations", "schedules"],
     "all collections, queries, parameters, depths and thread counts",
     "Tests rank one small collection; skipping items that cannot reach the top only goes wrong for particular score ties, depths and term distributions.",
     ["src/ranking.cc", "src/ranker.cc", "src/stats.cc", "src/tf_hopper.cc", "src/parameters.h"],
     [("term weights and skipping", "src/ranking.cc product_ranking/tiered_ranking"), ("passages", "src/ranking.cc ssr_ranking/parallel_ssr_ranking"), ("pipelines", "src/ranker.cc"), ("topics", "src/ranking.cc trec")],
     "differential monitoring against exhaustive scoring, ThreadSanitizer and ASan/UBSan slices",
     "Held on random collections of up to some hundreds of items; scores are compared to nine digits, and items of equal score may come in either order.")

prop("R02", "Collection statistics are what counting would give",
     "The statistics a collection reports, for every term: in how many items it occurs, how often in each, its weights, the number of items and their average length, equal those counted from the text of the items themselves. This holds for every way of recording them (by term frequency, with or without weights, by field), every stemmer, items next to gaps or nested in containers, and static, in-memory and durable stores, reopened or not.",
     ["inputs", "configurations"],
     "all collections, items, fields, stemmers, kinds of statistics and stores",
     "Tests check one statistic of one collection; batches, gaps between items and stores without a directory never occur in them.",
     ["src/ranking.cc", "src/stats.cc", "src/idf_stats.cc", "src/df_stats.cc", "src/field_stats.cc", "src/tf_hopper.cc"],
     [("recording", "src/ranking.cc tf_annotations/tf_df_annotations/tf_idf_annotations/tf_field_annotations"), ("reporting", "src/df_stats.cc, src/idf_stats.cc, src/field_stats.cc")],
     "model-based monitoring against counting over the text, ASan/UBSan slice",
     "Items do not overlap, as the statistics assume.")

prop("R03", "Evaluation measures follow their definitions",
     "For every ranking and set of judgements, the measures reported (precision, recall, average precision, reciprocal rank, gain-based and effectiveness measures, and their means) equal their published definitions, are finite and lie in their ranges; judgements read from a file are those written in it, for every spelling of lines, grades and topics.",
     ["inputs"],
     "all rankings, judgements, grades and judgement files",
     "Tests contain no check of any measure.",
     ["src/eval.cc", "src/eval.h"],
     [("measures", "src/eval.cc trec_eval/eval"), ("judgements", "src/eval.cc load_trec_qrels"), ("means", "src/eval.cc mean")],
     "reference implementation compared online, ASan/UBSan",
     "Held on random rankings and judgements, with biased sizes around each cut-off.")

prop("L01", "Files are loaded whole or not at all, and exactly once",
     "Loading a file of records or of documents into a collection adds every line of it exactly once, at the addresses and under the file, record and field names that belong to it, however many threads share the work and whichever other files load at the same time. A file that is refused, that fails part way, or whose loading is ended by a crash leaves nothing behind, not even its name, so that it can be loaded again; a file that was reported as loaded is recorded under exactly its own name and found complete after reopening.",
     ["inputs", "schedules", "crash_points", "fault_sequences"],
     "all files, separators, thread counts, concurrent loads, and failures at every file operation",
     "Tests load one small file with one thread and no failure.",
     ["meadowlark/meadowlark.cc", "src/scribe.cc", "src/bigwig.cc", "src/warren.cc"],
     [("records", "meadowlark/meadowlark.cc append_tsv"), ("documents", "meadowlark/meadowlark.cc append_jsonl"), ("recording names", "meadowlark/meadowlark.cc append_path/already_appended"), ("committing together", "src/bigwig.cc Bigwig::commit_all")],
     "model-based monitoring of all records, injected crashes and write failures, ThreadSanitizer and ASan/UBSan slices",
     "Crashes end the process, not the machine: nothing is synced. A reader may see the shares of several threads appear one after another.")

prop("L02", "Statistics foraged from a collection describe what was foraged",
     "After foraging, the statistics and rankings of a tag equal those counted over exactly the items its query matches, with the stemmer and tokenizer chosen, whether the items were foraged at once or in successive ranges, by one thread or several, before or after other files were added, and after reopening. What was asked for is recorded and read back unchanged; a request that makes no sense is refused with a reason and leaves nothing behind.",
     ["inputs", "configurations", "schedules"],
     "all collections, queries, tags, parameters, ranges and thread counts",
     "Tests forage one file once, with one thread, and only read the label back.",
     ["meadowlark/meadowlark.cc", "meadowlark/forager.cc", "meadowlark/tf-idf_forager.cc", "meadowlark/tf-idf_stats.cc", "src/tf_hopper.cc"],
     [("foraging", "meadowlark/meadowlark.cc forage, meadowlark/tf-idf_forager.cc"), ("labels", "meadowlark/forager.cc forager2json/json2forager"), ("statistics", "meadowlark/tf-idf_stats.cc")],
     "model-based monitoring against counting over the text, ThreadSanitizer and ASan/UBSan slices",
     "Foraging the same items twice counts them twice, as documented.")

prop("S03", "Readers of one static collection never disturb each other",
     "Any number of threads that read one static collection at the same time, through copies of a handle, copies of copies or one handle shared by all, get exactly the answers a single reader gets: text, address ranges, counts, index entries and query results. Reading never races on memory, whether lists are in memory, being fetched or preloaded, and a table of identifiers kept for quick reading changes no answer.",
     ["schedules", "configurations", "inputs"],
     "all collections, numbers of readers, ways of sharing and schedules, with and without identifier table and preloading",
     "Tests read a static collection from one thread, and their identifiers are short words without unusual bytes.",
     ["src/simple_idx.cc", "src/simple_txt.cc", "src/simple_warren.cc", "src/fastid_txt.cc", "src/simple_txt_io.cc"],
     [("shared list cache", "src/simple_idx.cc load_cache/decompress_cache/count_"), ("text reader", "src/simple_txt.cc translate_/tokens_/clone_"), ("identifier table", "src/fastid_txt.cc fastid/make/translate_")],
     "model-based monitoring of concurrent readers, ThreadSanitizer, ASan/UBSan",
     "Schedules are those the scheduler produced, races those ThreadSanitizer saw.")

prop("S04", "A failing write never spoils a static collection unnoticed",
     "When a write or the creation of a file fails while a static collection is built or extended, once or from then on, the operation reports the failure, or the program ends, or nothing is missing: a collection that was reported as built, and a transaction that was reported as ready and then committed, hold everything. A transaction that reported a failure and was aborted, or in which the program ended and that was then rolled back, leaves exactly the collection there was before, which can be extended again once writing works.",
     ["fault_sequences", "inputs", "configurations"],
     "all contents, configurations, and failing operations before a commit, single or lasting, without room or with I/O errors",
     "Tests never let a write fail.",
     ["src/simple_builder.cc", "src/simple_appender.cc", "src/simple_annotator.cc", "src/simple_txt_io.cc", "src/dna.cc"],
     [("building", "src/simple_builder.cc finalize_/build_index"), ("extending", "src/simple_annotator.cc ready_/merge_updates, src/simple_appender.cc ready_"), ("text", "src/simple_txt_io.cc transaction_/ready_/abort_")],
     "model-based monitoring under injected write failures, in builds with and without assertions",
     "Failures of renaming, linking and removing files are not injected, nor failures during commit or abort. With assertions enabled the code may stop instead of reporting.")

prop("N01", "The search server answers every request and survives any client",
     "For every query, the search server lists the matching documents of all its collections one by one, in order of score, each once, with the document's own name and a snippet around its best passage, and then says that there are no more; a document asked for by name is returned with exactly its text or fields, and an unknown or ambiguous name is refused. Every line sent gets exactly one answer, anything that is not a request is refused with a reason, and whatever a client sends, and whenever it leaves, the server keeps running and keeps the queries of its other clients.",
     ["inputs", "histories", "fault_sequences"],
     "all collections, sequences of requests, broken requests and moments at which clients leave",
     "No test starts the server.",
     ["apps/ssr-server.cc", "src/ranking.cc", "src/eval.cc"],
     [("requests", "apps/ssr-server.cc Server::handle/query/next/document"), ("snippets", "apps/ssr-server.cc snippet/highlighted"), ("connection", "apps/ssr-server.cc read_line/write_all/send_record")],
     "online monitor: a client checking each answer of the real server against a model, with ASan/UBSan slice",
     "Names of documents are single words; where one name contains another, the server takes both for the document meant. Fewer than 1000 matches per collection.")


def emit():
    from plan import PLAN
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p, t, n in PROPS:
            f.write(json.dumps(p) + "\n")
    checks, na = [], []
    for p, t, n in PROPS:
        i = p["id"]
        if i in PLAN:
            checks.append(dict(property=i, quick_cmd="python3 tools/check.py " + i,
                               thorough_cmd="VERIF_TIER=thorough python3 tools/check.py " + i,
                               evidence_file="evidence/%s.json" % i, technique=t, level=PLAN[i]["level"], level_note=n))
        else:
            na.append(dict(property=i, reason="no check yet"))
    m = dict(version=1, setup_cmd="python3 tools/build.py all", checks=checks, not_applicable=na,
             notes="Checks rebuild from /repo's working tree into /verif/build (ignored by git). No hooks in /repo are needed.")
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    emit()
