#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a generator so the list stays reviewable)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

p("C01","A concurrent query batch answers every query exactly once",
"Submitting a batch of queries with distinct identifiers to a search engine with any number of worker threads returns, across all the per-thread outputs together, exactly one result for every non-empty query: none is lost, none is answered twice, and no result carries an identifier or query text that was not submitted. Blank entries in the batch do not prevent the others from being answered. The call returns only when every query has been answered.",
["schedules","inputs","histories"],
"every interleaving of 1..N worker threads over the shared query list, every batch size (including fewer queries than threads, empty batches and blank entries) and every preceding use of the engine",
"The unit tests never start the search engine's workers; the one multi-threaded path is exercised by hand with whatever schedule the OS picks.",
["anytime/JASS_anytime_query.h","anytime/JASS_anytime_api.cpp","anytime/JASS_anytime_thread_result.h"],
[("claiming a query from the shared list","anytime/JASS_anytime_query.h get_next_query()"),("worker loop, spawning and joining","anytime/JASS_anytime_api.cpp search(), anytime()")],
[("taken","the query has been claimed by a worker","anytime/JASS_anytime_query.h")],["results map of each JASS_anytime_thread_result"])

p("C02","Concurrency and history never change a query's answer",
"The ranked list, the scores and the number of postings processed reported for a query are the same whether it runs alone on a fresh engine or among other queries on any number of threads, under any thread schedule, in any position of a batch, and after any earlier searches on the same engine.",
["schedules","histories"],
"every interleaving of worker threads, every position in a batch, every history of earlier batches and single searches with the same settings on the same engine",
"Leaks of per-query state between queries or threads only appear for particular schedules or histories; the tests never run two queries through one engine.",
["anytime/JASS_anytime_api.cpp","source/query_heap_clean.h","source/query.h","source/query_heap.h","source/accumulator_2d.h"],
[("per-thread query object","anytime/JASS_anytime_api.cpp get_thread_local_data()"),("accumulator and heap reset between queries","source/query_heap.h rewind(), source/accumulator_2d.h rewind()")],
None,["JASS_anytime_result.results_list, postings_processed"])

p("C03","An unrestricted search returns the true top-k by summed impact",
"With no early-termination limit, the result of a query is exactly the k documents with the highest sum of term impacts (or all matching documents when fewer than k match), ordered by descending score and then by descending document number, each reported with its primary key and its exact score when the query's maximum possible score fits the accumulators. Documents that match no query term are never returned, repeated query terms count once per repetition, and unknown terms contribute nothing. This holds for every query in any sequence of searches, single-threaded or concurrent, over the same engine.",
["inputs","histories","schedules"],
"every index, k, accumulator width, query and sequence of earlier queries on the engine, and every schedule of the workers",
"The tests drive the query object directly with a few hand-written postings; stale accumulators, a wrong heap update or a wrongly decoded segment depend on the combination of index, k and what ran before.",
["source/query_heap_clean.h","source/query_heap.h","source/accumulator_2d.h","source/heap.h","source/deserialised_jass_v1.cpp","source/deserialised_jass_v2.cpp","anytime/JASS_anytime_api.cpp"],
[("accumulator array with lazily cleared pages","source/accumulator_2d.h"),("top-k heap maintenance","source/query_heap.h add_rsv(), source/heap.h"),("impact-ordered segment processing","anytime/JASS_anytime_api.cpp anytime()")])

p("C04","Anytime limits are honoured per query and only by that query",
"A search never processes more postings than the maximum it was given, whether set as a count, as a percentage of the collection or as a percentage of the query's own postings; it processes whole highest-impact segments first and stops only when the next segment would exceed the limit. An early stop allowed by a known k-th score never happens before the configured minimum number of postings. With a known k-th score and no other limit the answer is a true top k (up to ties) when the supplied score is at least the real k-th score, and otherwise k documents whose real scores reach the supplied one. The limit applied to one query does not depend on any other query, thread or schedule.",
["histories","schedules","configurations"],
"every combination of maximum, minimum, percentage and oracle settings, every history of earlier queries, every schedule of the workers",
"No test sets a limit and runs more than one query; a limit leaking from one query to the next, or racing between threads, is invisible to them.",
["anytime/JASS_anytime_api.cpp","anytime/JASS_anytime_api.h","source/top_k_limit.h","source/top_k_limit.cpp","source/query_heap_clean.h"],
[("posting budget","anytime/JASS_anytime_api.cpp anytime() and set_postings_to_process*()"),("oracle cut-off","source/top_k_limit.h, source/query_heap.h")])

p("C05","Concurrent search is free of data races",
"Running a batch of queries on several worker threads performs no unsynchronised conflicting access to memory: any two accesses to the same location from different threads, at least one a write, are ordered by synchronisation. This includes the engine's shared index, settings, oracle scores, per-thread state and the results.",
["schedules","configurations"],
"every schedule of the workers, every combination of engine settings (oracle, limits, parser, accumulator width, index version)",
"A data race is a property of all schedules; the tests never run searches concurrently, and a passing execution does not show absence of a race.",
["anytime/JASS_anytime_api.cpp","anytime/JASS_anytime_query.h","source/top_k_limit.h","source/threads.h","source/deserialised_jass_v1.cpp"],
[("one state block per worker","anytime/JASS_anytime_api.cpp get_thread_local_data()"),("shared read-only index","source/deserialised_jass_v1.h"),("thread start and join","source/threads.h")])

p("C06","The engine survives failed loads and misuse with an error, not a crash",
"Loading an index from a directory that is missing, incomplete or unreadable, or whose reading fails at any point, reports an error; the engine is then still unloaded, answers searches with the no-index error and can load a good index successfully afterwards. Searching before loading, loading twice, and changing load-time settings after loading report their documented errors and leave the engine working unchanged. Loading oracle scores from a missing file fails, or changes nothing that later makes a search misbehave.",
["histories","fault_sequences"],
"every sequence of API calls, and every single or repeated failure of opening, sizing, mapping or reading any of the index files",
"The tests only load an index that is present and readable; they do not fail a system call or continue after a failure.",
["anytime/JASS_anytime_api.cpp","source/deserialised_jass_v1.cpp","source/deserialised_jass_v2.cpp","source/file.cpp","source/top_k_limit.cpp"],
[("load error reporting","anytime/JASS_anytime_api.cpp load_index()"),("reading the index files","source/deserialised_jass_v1.cpp read_index(), source/file.cpp file_read_only::open()")])

p("C07","A written index loads back to exactly what was indexed",
"For every collection, an index written in either supported version with any supported combination of compression scheme and alignment loads back with exactly the documents in order with their primary keys, exactly the indexed terms, and for every term exactly the documents and impacts indexed, with no posting lost, duplicated or altered. This holds however the operating system splits the reads and writes.",
["inputs","configurations","fault_sequences"],
"every collection, quantisation range, index version, codec and difference coding, and every sequence of short but successful reads and writes",
"The tests compare checksums of one ten-document collection written in one configuration with undisturbed I/O.",
["source/serialise_jass_v1.cpp","source/serialise_jass_v2.cpp","source/deserialised_jass_v1.cpp","source/deserialised_jass_v2.cpp","source/index_postings.h","source/index_manager_sequential.h","source/compress_integer_all.cpp"],
[("impact-ordered serialisation","source/serialise_jass_v1.cpp, source/index_postings.h impact_order()"),("loading","source/deserialised_jass_v1.cpp read_index() postings_details() get_segment_list()"),("buffered file output","source/file.h")])

p("C08","A failed write is never reported as a successful index or export",
"If any write, flush or close of an output file fails or is cut short while an index, a forward index, a compiled index or any other export is produced, the program or call reports failure. Whenever success is reported, every output file is complete and byte-for-byte what a fault-free run produces.",
["fault_sequences"],
"every position of a failing or short write, a full disk or a failing close, in every output file of every export format",
"The tests never make a write fail.",
["source/file.h","source/file.cpp","source/serialise_jass_v1.cpp","source/serialise_jass_v2.cpp","source/serialise_ci.cpp","source/serialise_forward_index.cpp","source/serialise_integers.cpp","tools/JASS_index.cpp"],
[("buffered writes and flush on destruction","source/file.h write() flush() ~file()"),("whole-file write","source/file.cpp write_entire_file()")])

p("C09","A partially written index is never mistaken for a complete one",
"If indexing is killed at any instant, what it leaves on disk either fails to load with an error or is a complete index (the new one, or the one it was replacing); an engine that loads it never crashes, hangs or reads outside the files, and never returns documents or scores that the complete index would not return.",
["crash_points"],
"every instant at which the indexing process can be killed (every prefix of its sequence of file operations, including a torn last write), with or without an older index in the same place",
"No test interrupts indexing or loads a damaged index.",
["source/serialise_jass_v1.cpp","source/serialise_jass_v1.h","source/serialise_jass_v2.cpp","source/deserialised_jass_v1.cpp","source/deserialised_jass_v2.cpp","source/file.h"],
[("order in which the index files are finished","source/serialise_jass_v1.h members, source/serialise_jass_v1.cpp"),("validation when loading","source/deserialised_jass_v1.cpp read_index()")])

p("C10","Building an index is deterministic",
"Indexing the same input with the same options produces byte-identical output files every time, independent of memory contents and addresses, the clock, and how the input is delivered in pieces by the operating system.",
["configurations","fault_sequences"],
"every initial memory content, address layout, clock reading and split of the input reads and output writes",
"A test compares one run's checksum in one process layout; dependence on uninitialised memory, addresses or read sizes does not show there.",
["tools/JASS_index.cpp","source/index_manager_sequential.h","source/serialise_jass_v1.cpp","source/serialise_jass_v2.cpp","source/hash_table.h","source/dynamic_array.h","source/instream_file.cpp"],
[("ordered vocabulary and postings output","source/index_manager_sequential.h iterate(), source/serialise_jass_v1.cpp")])

p("C11","The memory allocators hand out disjoint, aligned memory to all threads",
"Blocks returned by the library's allocators, to any number of threads calling concurrently, never overlap, honour the requested alignment, are writable for their whole length, and keep their contents until the allocator is rewound or destroyed; the reported amount allocated accounts for every byte handed out. When the underlying memory runs out the program ends with a reported failure; it never continues with memory it does not have. Every block obtained from the system is released when the allocator is rewound or destroyed.",
["schedules","fault_sequences","inputs"],
"every interleaving of threads allocating from one allocator, every sequence of sizes and alignments, every failure of the underlying allocation",
"The allocator tests allocate a few blocks from one thread with memory always available.",
["source/allocator_pool.cpp","source/allocator_pool.h","source/allocator_memory.cpp","source/allocator_memory.h"],
[("lock-free bump allocation in chunks","source/allocator_pool.h malloc(), allocator_pool.cpp add_chunk()")])

p("C12","Concurrent appends to the growing array are never lost",
"When any number of threads append to the same growing array, afterwards it contains every appended element exactly once, each thread's elements in the order that thread appended them, and its length is the number of appends, for every combination of initial size (at least 1) and growth factor (at least 1). Indexing, iterating and exporting the array all show that same sequence, and exporting into a buffer too short for it never writes past the buffer.",
["schedules","inputs"],
"every interleaving of appending threads, every initial size and growth factor",
"The test starts a few real threads and lets the OS pick one interleaving.",
["source/dynamic_array.h"],
[("lock-free slot reservation and block growth","source/dynamic_array.h push_back()")])

p("C13","Concurrent insertions into the term dictionary are never lost or doubled",
"When any number of threads look up and insert keys in the same dictionary, every thread asking for the same key gets the same element, every key inserted by anyone is found afterwards, no key appears twice, and listing the dictionary visits every key exactly once. Listing a tree of keys is in key order. The history of concurrent operations is linearizable.",
["schedules","inputs"],
"every interleaving of threads looking up, inserting and, for the tree, listing keys, with colliding and non-colliding keys",
"The unit tests run one OS-chosen interleaving on a fixed vocabulary.",
["source/hash_table.h","source/binary_tree.h"],
[("lock-free bucket creation","source/hash_table.h operator[]"),("lock-free tree insertion","source/binary_tree.h find_and_add()")])

p("C14","A buffered file behaves like the bytes on disk",
"Reads, writes, seeks and position queries on a file object behave as on a plain array of bytes for every buffer size and every mix of operations: what was written before a seek or a close is what is read back, and the reported position is always the logical one. Whole-file reading returns exactly the file's contents or reports failure, also when the operating system returns fewer bytes than asked or an error; whole-file writing reports success only when all the bytes were written.",
["histories","fault_sequences","inputs"],
"every sequence of operations, every buffer size, every short or failing system call",
"The tests write and read one small file with one buffer size and working I/O.",
["source/file.h","source/file.cpp"],
[("write-behind buffer","source/file.h write() flush() seek() tell()"),("whole-file operations","source/file.cpp read_entire_file() write_entire_file() file_read_only")])

p("C15","Document splitting does not depend on how input arrives",
"For each supported collection format, the sequence of documents (identifier and contents) extracted from a stream depends only on the stream's bytes, not on how they are cut into reads, the internal buffer size, or the lengths of the documents. A stream cut off at any byte yields all the documents that were complete before the cut, ends, and never yields bytes that were not in the input.",
["inputs","fault_sequences"],
"every input, every split of it into reads, every buffer size, and every point of truncation or read error",
"The tests read a small well-formed document set in one piece.",
["source/instream_document_trec.cpp","source/instream_document_fasta.cpp","source/instream_document_unicoil_json.cpp","source/instream_document_warc.cpp"],
[("buffer refill and growth","source/instream_document_*.cpp read()")])

p("C16","Every document of a compressed or multi-file collection is read once",
"Reading a collection from a plain file, a compressed file or a directory of files delivers every byte of every readable file exactly once and in order, whatever order the directory is listed in and however reads are split. An unreadable, empty or truncated file does not lose data from the other files, invent data, or stop the program from finishing.",
["fault_sequences","inputs"],
"every listing order, every split of reads, every position of an open or read failure, empty and truncated files, any number of files",
"The tests read one directory and one file with undisturbed I/O.",
["source/instream_file.cpp","source/instream_file_star.h","source/instream_deflate.cpp","source/instream_directory_iterator.cpp"],
[("file enumeration and hand-over","source/instream_directory_iterator.cpp"),("inflate loop","source/instream_deflate.cpp read()"),("file reading","source/instream_file.cpp read()")])

p("C17","Line input delivers every query line once and always ends",
"Reading queries line by line from a file or standard input yields exactly the lines of the input in order, however the input arrives, including empty lines, very long lines and a last line without a terminator; after the last line the reader reports the end, also when a read fails. What is written to a channel arrives complete and in order.",
["inputs","fault_sequences"],
"every input and every split, interruption or failure of the underlying reads",
"The tests read one small file.",
["source/channel_file.cpp","source/channel_file.h","source/channel.h","source/instream_file_star.h"],
[("gets() over a block reader","source/channel.h, source/channel_file.cpp")])

p("C18","The search program writes one complete run for any thread count",
"Given an index and a query file (a file of queries with distinct identifiers, or a TREC or ClueWeb topic file), the search program's run file contains the results of every query exactly once, and its statistics file describes every query exactly once, identical as a set of per-query result lists for every number of threads and every schedule, and identical to what the engine returns for each query alone with the settings the command line asks for. If the run file cannot be written completely, or the index, the query file or the file of known scores cannot be read, or the settings cannot be used, the program reports it rather than exiting successfully with a partial run.",
["schedules","configurations","fault_sequences"],
"every thread count, schedule, command-line configuration, and every failing read or write",
"The program is never run by the tests.",
["anytime/JASS_anytime.cpp","anytime/JASS_anytime_api.cpp","source/run_export_trec.h","source/channel_file.cpp","source/file.cpp"],
[("query loading, thread start, run assembly and output","anytime/JASS_anytime.cpp")])

p("C19","Threads run their function once and join waits for it",
"A thread started through the library runs its function exactly once with the arguments it was given (copied, or by reference where so requested); when join returns, everything the function did is visible to the joining thread. A thread object may be moved, including into a growing container, before or while the thread runs, without affecting this.",
["schedules"],
"every schedule of parent and children, any number of threads, moves at any point",
"The test starts a handful of threads under one OS schedule and ignores the order of effects.",
["source/threads.h","source/threads.cpp"],
[("ownership of the start arguments and the thread handle","source/threads.h class thread")])

p("C20","Importing an exchange-format index is exact or fails",
"Converting a common-index-file-format collection gives an index with exactly the documents, terms and impacts of the source file, however the operating system splits the reads and writes. If the source file is missing, truncated, inconsistent with itself or cannot be read, or the output cannot be written, the converter fails (or produces nothing that loads) rather than crashing, hanging or succeeding with a different index.",
["inputs","fault_sequences"],
"every source collection, every truncation of the file, every short or failing read and write",
"The converter is never run by the tests.",
["tools/ciff_to_JASS.cpp","tools/ciff_lin.h","tools/protobuf.h","source/serialise_jass_v1.cpp"],
[("protobuf decoding of the source","tools/ciff_lin.h, tools/protobuf.h"),("index writing","tools/ciff_to_JASS.cpp")])

p("C21","Printing an index shows exactly what it holds or fails",
"The program that prints an index (JASSv1_to_human) shows every indexed term once with exactly its documents and impacts, and every primary key in order, for both index versions and every codec, in each of its output forms. If a file of the index is missing or cannot be read, or the text cannot be written completely, it ends with a failure instead of success with a different or shorter text.",
["inputs","fault_sequences"],
"every index, every output form, every missing file and every failing read or write",
"The program is never run by the tests.",
["tools/JASSv1_to_human.cpp","source/deserialised_jass_v1.cpp","source/deserialised_jass_v2.cpp","source/query_heap_clean.h"],
[("walking the dictionary and the postings","tools/JASSv1_to_human.cpp walk_index_v1(), walk_index_v2()")])

p("C22","The evaluation program evaluates all of its input or fails",
"The evaluation program (JASS_eval) scores every query of every run file given, each once, on exactly the result lists and judgements in the files: the counts, precision, recall, F1, reciprocal rank, average precision and rank biased precision printed for each query, and their averages, follow from those lists and do not depend on the order of the judgements, the layout of the files, the order of the runs or how the operating system splits the reads. If a file is missing or cannot be read completely, or the output cannot be written completely, it ends with a failure instead of success with scores computed from part of the input.",
["inputs","fault_sequences"],
"every set of judgements and runs in any order and layout, every failing read or write",
"The tests evaluate one list of five documents with each measure; the program is never run.",
["tools/JASS_eval.cpp","source/evaluate.cpp","source/evaluate.h","source/file.cpp"],
[("loading runs and judgements, per-query evaluation","tools/JASS_eval.cpp load_run(), load_assessments(), evaluate_run()"),("judgement lookup","source/evaluate.h find()")])

p("C23","The other exports of an index hold exactly what was indexed",
"Besides the loadable index, an index can be exported as a dump of integer postings lists, as a forward index and as C++ source. Each holds exactly what was indexed: the integer dump has, for each term and each of its impacts, one list of the documents (counted from 0, ascending) the term has with that impact; the forward index has every document that contains terms once, in order, under its own number, with exactly its terms and impacts; the source has every term, every posting and every primary key in order, and its parts agree with each other. This holds however the documents were added (through the index manager or the indexing program), in whichever combination and order the exports are asked for, whatever older files are in the way and however the operating system splits the writes.",
["inputs","configurations","fault_sequences"],
"every collection, every combination and order of exports, every splitting of the writes",
"The tests compare the checksum of each export of one ten-document collection.",
["source/serialise_integers.cpp","source/serialise_forward_index.cpp","source/serialise_forward_index.h","source/serialise_ci.cpp","source/index_manager_sequential.h","source/quantize.h","tools/JASS_index.cpp"],
[("integer dump","source/serialise_integers.cpp"),("forward index","source/serialise_forward_index.cpp, .h"),("compiled index","source/serialise_ci.cpp")])

p("C24","Topic files and integer dumps are converted completely or the converter fails",
"trec_to_query prints one query for every topic of a TREC topic file, in order, with the topic's own number and exactly the words of its title, whatever the layout of the file; bin_to_human prints every list of an integer dump with exactly its integers, in order. If the input is missing, cut off within a list or cannot be read completely, or the output cannot be written completely, they end with a failure instead of success with part of the output.",
["inputs","fault_sequences"],
"every topic file and dump, every truncation, every short or failing read and write",
"The topic reader is tested on three topics in one layout from memory; neither program is ever run.",
["tools/trec_to_query.cpp","tools/bin_to_human.cpp","source/channel_trec.cpp","source/parser.cpp","source/file.cpp"],
[("topic extraction","source/channel_trec.cpp gets()"),("walking the dump","tools/bin_to_human.cpp main()")])

p("C25","Accumulators carry nothing over and every query processor keeps the exact best",
"For every history of queries, whatever was in the memory before: an accumulator of any strategy (two-dimensional of any width, counters of 8 or 4 bits, interleaved or not) and any element type reads as exactly the sum of what was added to it since the last rewind or initialisation, never something of an earlier query, however many queries came before or passed since it was last touched; and the query processors (query_heap, query_maxblock_heap, query_heap_clean) return exactly the k highest-scoring documents of the current query, ties going to the higher document, with their scores and their own keys, as do the heap and the beap below them after every replacement.",
["histories","inputs","configurations"],
"every sequence of queries, additions, rewinds and re-initialisations, any number of documents, width and k",
"The tests run one query of five additions through each processor and one or two rewinds through each accumulator.",
["source/accumulator_2d.h","source/accumulator_counter.h","source/accumulator_counter_interleaved.h","source/query_heap.h","source/query_maxblock_heap.h","source/query_heap_clean.h","source/heap.h","source/beap.h"],
[("lazy clearing","source/accumulator_2d.h, accumulator_counter.h, accumulator_counter_interleaved.h rewind(), operator[]()"),("top-k maintenance","source/query_heap.h, query_maxblock_heap.h, query_heap_clean.h add_rsv(); heap.h; beap.h")])

# -- stated, but with nothing for a simulator to decide
p("C30","Integer codecs are lossless",
"For every sequence of integers a codec accepts, decoding its output yields the same sequence.",
["inputs"],"every integer sequence for every codec","The tests sample some sequences per codec.",
["source/compress_integer_all.cpp","source/compress_integer_qmx_jass_v1.cpp","source/compress_integer_elias_gamma_simd.cpp"],
[("encode and decode","source/compress_integer_*.cpp")])
p("C31","Evaluation metrics equal their published definitions",
"For every run and every set of judgements each effectiveness metric returns the value its definition gives.",
["inputs"],"every ranked list and judgement set","The tests check a few precomputed values.",
["source/evaluate.cpp","source/evaluate_map.cpp"],[("metric computation","source/evaluate_*.cpp")])
p("C32","Text parsing and normalisation follow the Unicode tables",
"For every document and query text the same token sequence is produced, with tokens split, folded and normalised as the Unicode tables define, at indexing and at query time.",
["inputs"],"every text","The tests parse a few fixed strings.",
["source/parser.cpp","source/parser_query.cpp","source/unicode.h"],[("tokenisation","source/parser.cpp get_next_token()")])
p("C33","Ranking and quantisation preserve score order",
"For every collection the quantised impact of a posting is within range and never reverses the order of two ranking scores.",
["inputs"],"every collection and ranking function parameter","The tests check one tiny collection.",
["source/quantize.h","source/ranking_function_atire_bm25.h"],[("two-pass quantisation","source/quantize.h")])
p("C34","Stemming and hashing are fixed functions of their input",
"For every word the stemmer returns the stem its published algorithm gives, and every hash returns the same value on every platform and instruction set.",
["inputs"],"every byte string","The tests use a fixed vocabulary.",
["source/stem_porter.cpp","source/hash_pearson.cpp"],[("stemmer and hash","source/stem_porter.cpp, source/hash_pearson.cpp")])
p("C35","Command-line options are parsed as documented",
"For every argument vector each option takes the value given on the command line, and an unknown or malformed option is reported.",
["inputs"],"every argument vector","The tests parse a few vectors.",
["source/commandline.h"],[("option parser","source/commandline.h parse()")])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P:
        assert len(x["title"])<=80,x["title"]
        f.write(json.dumps(x)+"\n")
