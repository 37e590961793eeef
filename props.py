"""Per-property budgets and the text that goes into the evidence."""
SHARED_ASSUMPTIONS = [
    "memory is sequentially consistent in the simulation; missing ordering is found by the happens-before detector, not by executing weak-memory behaviours",
    "threads switch only at memory accesses, atomic operations and library calls of instrumented code; uninstrumented code (libstdc++, zlib, the integer codecs) runs between two switch points",
    "the process-kill model is used for crashes: what reached the kernel survives, what was in user-space buffers is lost",
]
TECHNIQUE = "deterministic simulation: "
PROPS = {
    "C19": dict(technique='seeded schedules of real thread code, happens-before detector, argument/effect oracle', note='Sampled schedules; a happens-before detector generalises each run to all schedules with the same synchronisation order.',
                quick_s=25, thorough_s=300, real="JASS::thread (source/threads.h, threads.cpp) over real POSIX threads",
                rule="A run starts 1-10 threads through the library with random functions, argument kinds and container shapes under one seeded schedule; non-trivial when at least two threads exist."),
    "C11": dict(technique='seeded schedules and allocation faults, shadow-map and content oracle', note='Sampled schedules, sizes and failing allocations against a shadow map of live blocks.',
                quick_s=25, thorough_s=600, real="JASS::allocator_pool and JASS::allocator_memory (source/allocator_*.cpp)",
                rule="A run has 1-6 threads request blocks of random sizes and alignments from one allocator under one seeded schedule, in up to three rewind rounds, with system allocation failing in a quarter of the runs; non-trivial when at least two threads exist."),
    "C12": dict(technique='seeded schedules, sequence oracle', note='Sampled schedules and sizes; every element and every order checked after each round.',
                quick_s=25, thorough_s=600, real="JASS::dynamic_array over JASS::allocator_pool",
                rule="A run has 1-6 threads append tagged elements to one or two arrays under one seeded schedule, in up to three rounds; non-trivial when at least two threads exist and two elements are appended."),
    "C13": dict(technique='seeded schedules, map model and linearizability checks', note='Sampled schedules and key sets against a map model.',
                quick_s=25, thorough_s=600, real="JASS::hash_table (256 and 65536 buckets) and JASS::binary_tree over JASS::allocator_pool, keys are JASS::slice",
                rule="A run has 1-6 threads look up and insert overlapping key sets under one seeded schedule; non-trivial when at least two threads exist and two lookups are made."),
    "C01": dict(technique='seeded schedules of the real engine, exactly-once oracle over the recorded answers', note='Sampled schedules, batches and histories over generated indexes.',
                quick_s=25, thorough_s=900, real="JASS_anytime_api, JASS_anytime_query, the parser, the deserialisers, codecs and query processor, over real POSIX threads",
                rule="A run loads one of 24 (thorough: 48) generated indexes and performs up to three operations (batch, threaded_search, single search; 1-8 threads, 0-24 queries, blank entries) under one seeded schedule; non-trivial when a batch of two or more queries runs on two or more threads."),
    "C02": dict(technique='seeded schedules and histories, comparison with the solo answer', note='Sampled schedules and histories; trusts the solo run of the same code as reference (C03 checks that one against a model).',
                quick_s=25, thorough_s=900, real="JASS_anytime_api and everything below it, over real POSIX threads; the reference answer is the same code, one query, one thread, fresh process",
                rule="A run performs up to four operations with fixed settings (limits and known scores included) on one engine and compares every answer with the same query alone in a fresh process; non-trivial when a batch of two or more queries runs on two or more threads."),
    "C03": dict(technique='seeded schedules and histories, reference ranking model', note='Sampled collections, queries, histories and schedules against a direct sum-of-impacts model.',
                quick_s=25, thorough_s=900, real="JASS_anytime_api and everything below it, over real POSIX threads; the reference is a direct sum-of-impacts ranking over the generated collection",
                rule="A run performs up to four unrestricted operations on one engine and compares every answer with the reference ranking; non-trivial when at least one query is answered."),
    "C04": dict(technique='seeded schedules and settings histories, posting-budget model', note='Sampled settings, histories and schedules against a segment-by-segment model.',
                quick_s=25, thorough_s=900, real="JASS_anytime_api and everything below it, over real POSIX threads; the reference is a segment-by-segment model of the posting budget",
                rule="A run performs up to four operations, changing maximum, minimum, percentage and known-score settings between them, and compares postings processed and answers with the model; non-trivial when at least one query is answered."),
    "C05": dict(technique='seeded schedules with a happens-before race detector over every access', note='Sampled schedules; a race is reported whether or not it did harm in that run.',
                quick_s=25, thorough_s=900, real="JASS_anytime_api and everything below it, over real POSIX threads, every access checked by a happens-before race detector",
                rule="A run performs one or two operations, the first a concurrent batch, under one seeded schedule with every memory access checked; non-trivial when a batch of two or more queries runs on two or more threads."),
    "C06": dict(technique='random API histories with failing opens, stats, maps, reads and allocations, engine state model and reference ranking', note='Sampled call sequences and fault positions against a model of the engine state; allocations below 4 kB never fail (libstdc++ itself does not survive those).',
                quick_s=25, thorough_s=600, real="JASS_anytime_api, the deserialisers, file mapping and reading, oracle scores, the query processor",
                rule="A run makes 3-16 API calls on one engine object (loads of good, missing and damaged directories, settings, oracle files, searches) with up to three failing system calls and failing large allocations, and checks each call against a state model and each answer against the reference ranking; non-trivial when a load failed or two searches were answered."),
    "C14": dict(technique='random operation histories with short, failing and disk-full I/O, byte-array model', note='Sampled operation sequences, buffer sizes and fault positions against a byte-array model of the file.',
                quick_s=25, thorough_s=600, real="JASS::file and JASS::file::file_read_only, whole-file reading and writing (source/file.cpp, file.h)",
                rule="A run performs a random sequence of reads, writes, seeks and position queries on one file object, or of whole-file reads and writes, with short transfers and failing operations, against a byte array; non-trivial when at least two operations are checked."),
    "C07": dict(technique='generated collections built by the real serialisers, index manager and JASS_index under short I/O, loaded by the real deserialisers, compared with the generator', note='Sampled collections, configurations and I/O splits; every document, term and posting of each index is compared.',
                quick_s=40, thorough_s=900, real="serialise_jass_v1/v2, index_manager_sequential, quantize, the parsers and document streams, the JASS_index program, deserialised_jass_v1/v2, the integer codecs",
                rule="A run builds one index of a generated collection (serialisers, index manager or the JASS_index program on TREC, FASTA or uniCOIL input) with short reads and writes, loads it in a second process and compares every key, term, posting and impact (quantised BM25 impacts within 1); always non-trivial."),
    "C08": dict(technique='failing, short and disk-full writes at seeded positions, byte comparison with the fault-free output', note='Sampled collections, export formats and fault positions.',
                quick_s=40, thorough_s=900, real="all five export formats, JASS::file, the index manager and the JASS_index program",
                rule="A run exports one collection in one or more formats with a write, flush, close or open failing, or the disk filling up, at a seeded point; reported success is only accepted when every output file is byte-identical to a fault-free run, reported failure only when something failed."),
    "C09": dict(technique='crash images at seeded points of the recorded file operations, loaded by the real engine, answers compared with the complete index', note='Sampled collections and kill points (process-kill model: completed operations survive, the one in progress may be torn).',
                quick_s=40, thorough_s=900, real="serialise_jass_v1/v2, JASS_index, JASS_anytime_api and everything below it",
                rule="A run records the file operations of building one index (sometimes over an older one), derives 5-12 crash images (any prefix of the operations, the last one torn) and loads each with the engine in a fresh process: it must refuse, or answer exactly as a complete index does."),
    "C10": dict(technique='repeated builds with different heap contents and addresses, clocks and I/O splits, byte comparison', note='Sampled inputs and environments.',
                quick_s=40, thorough_s=900, real="all five export formats, the index manager, the parsers and document streams, the JASS_index program",
                rule="A run builds the same input two or three times with different heap contents and placement, clock jumps, and read and write sizes, and compares all the output files byte by byte."),
    "C15": dict(technique='generated collections cut into seeded pieces, failing reads and truncation; document-list model', note='Sampled collections, cuts, buffer sizes and failing reads; irregular input is compared between two deliveries of the same bytes.',
                quick_s=25, thorough_s=600, real="instream_document_trec, _fasta, _unicoil_json and _warc over instream_file, instream_deflate and instream_directory_iterator",
                rule="A run delivers one generated stream (possibly cut off anywhere) to one of the four readers in seeded pieces, through files, compressed files or directories with short or failing reads, and compares the documents with the generator's list, or, for irregular input, with those of another delivery of the same bytes; non-trivial when the stream has two or more documents."),
    "C16": dict(technique='generated directories and compressed files under shuffled listings, short and failing reads; byte-conservation oracle', note='Sampled directories, archives, read splits and fault positions.',
                quick_s=25, thorough_s=600, real="instream_directory_iterator, instream_deflate, instream_file, instream_file_star, zlib",
                rule="A run reads one generated file, compressed file, directory or standard input with seeded read sizes, listing orders, short reads and failing opens and reads, and decomposes what came out into every readable file exactly once (and at most a prefix of an unreadable one); non-trivial when there is more than one byte."),
    "C17": dict(technique='generated line input and output under short, interrupted and failing I/O; line model', note='Sampled inputs, read splits and fault positions.',
                quick_s=25, thorough_s=600, real="channel_file, channel_buffer, instream_file, instream_file_star, channel::gets and the channel's output operators",
                rule="A run reads one generated text line by line (sometimes with block reads between) from a file, standard input or memory, or writes a sequence of values to a file or standard output, with short, interrupted or failing system calls, and compares with the text; non-trivial when there is more than one byte or value."),
    "C18": dict(technique='seeded schedules and failing I/O of the real search program; its run compared with the solo answers of the engine', note='Sampled indexes, query files, command lines, schedules and fault positions; trusts the solo run of the same engine as reference (C03 and C04 check that one against models).',
                quick_s=25, thorough_s=900, real="the JASS_anytime program (main, option parsing, topic reading, thread start, TREC export, statistics) and the engine below it, over real POSIX threads",
                rule="A run executes the search program on a generated index and query file with a random command line under one seeded schedule, sometimes with failing, short or disk-full I/O or an unusable configuration, and compares the run and statistics files with the answer of the engine to each query alone; non-trivial when it answers a query."),
    "C20": dict(technique='generated exchange-format collections under short, failing and truncated I/O; the converted index compared with the generator', note='Sampled collections, truncations, inconsistencies, garbled bytes and fault positions; scaled and BM25 impacts are compared within 1.',
                quick_s=40, thorough_s=900, real="the ciff_to_JASS program, ciff_lin, protobuf, index_manager_sequential, quantize, serialise_jass_v1/v2, and the deserialisers that load the result",
                rule="A run converts one generated collection (good, cut off, inconsistent, garbled, unreadable, or with the output failing) and requires success with exactly the generated documents, terms and impacts, or a reported failure; always non-trivial."),
    "C21": dict(technique='generated indexes printed by the real program under failing reads and writes; the text compared with the generator', note='Sampled indexes, options and fault positions; the text is parsed and compared posting by posting.',
                quick_s=25, thorough_s=300, real="the JASSv1_to_human program, the deserialisers, the codecs and the decoder's writer interface",
                rule="A run prints one generated index (complete, or with files missing, unreadable, or standard output failing) and requires success with exactly the indexed terms, postings and keys, or a reported failure; always non-trivial."),
    "C22": dict(technique='generated judgements and runs evaluated by the real program under failing reads and writes; the printed scores compared with the measures computed from the generator', note='Sampled judgements, runs, options, layouts and fault positions; scores compared to the printed precision. Only binary judgements; the price-based measures are not compared.',
                quick_s=25, thorough_s=300, real="the JASS_eval program, evaluate and the measures below it, file",
                rule="A run evaluates 1-4 generated runs of 1-12 queries (shuffled judgements, varied blanks and line ends; files missing, unreadable, or standard output failing) and requires every query of every run to be printed once with the right scores, or a reported failure; non-trivial with two or more queries."),
    "C23": dict(technique='generated collections exported under short writes, junk memory and stale files; the files decoded and compared with the generator', note='Sampled collections and export combinations; quantised impacts are compared within 1, and the integer dump and impact order only where impacts are exact. Failing disks are C08.',
                quick_s=50, thorough_s=600, real="serialise_integers, serialise_forward_index, serialise_ci, index_manager_sequential, quantize and the JASS_index program",
                rule="A run exports one generated collection in a random combination of the three forms (directly, through the index manager or by JASS_index), decodes every file written and compares it with the generator's documents, terms and impacts; always non-trivial."),
    "C24": dict(technique='generated topic files and integer dumps converted by the real programs under failing reads and writes; every line compared with the generator', note='Sampled topic layouts, dumps, truncations and fault positions. Words are up to 1000 characters (longer ones are truncated by design).',
                quick_s=25, thorough_s=300, real="the trec_to_query and bin_to_human programs, channel_trec, channel_buffer, parser, file",
                rule="A run converts one generated topic file (four layouts) or integer dump (complete, cut off, missing, unreadable, or with standard output failing) and requires success with exactly the generated topics or lists, or a reported failure; always non-trivial."),
    "C25": dict(technique='generated histories of queries, rewinds and re-initialisations over junk memory; the accumulators and rankings compared with a reference model after every step', note='Sampled histories (up to tens of thousands of rewinds); one thread: the schedule here is the history. query_bucket and query_maxblock are not claimed (the first approximates by design, the unit test of the second fixes an order by address).',
                quick_s=25, thorough_s=300, real="accumulator_2d, accumulator_counter, accumulator_counter_interleaved, query_heap, query_maxblock_heap, query_heap_clean, heap, beap",
                rule="A run drives one accumulator or query processor (or a heap and a beap) through one generated history, on memory with junk in it, and compares every value read and every ranking with a reference model; non-trivial with two or more additions."),
}
