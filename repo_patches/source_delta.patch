From 8ce57ee9e6181d24bb849140e1ea596a3a28def6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:35 +0000
Subject: [PATCH 01/55] fix: allocator_pool never terminates when a large
 aligned request does not fit its new chunk

A chunk sized for the bytes asked for has no room for the padding an alignment greater than
malloc()'s own needs, so each retry added another chunk that did not fit either.
---
 source/allocator_pool.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/allocator_pool.cpp b/source/allocator_pool.cpp
index c72e4af..54ecfb9 100644
--- a/source/allocator_pool.cpp
+++ b/source/allocator_pool.cpp
@@ -132,7 +132,7 @@ namespace JASS
 			*/
 			if (chunk == nullptr || top_of_stack + bytes + padding > chunk->chunk_end)
 				{
-				if (add_chunk(bytes) != nullptr)
+				if (add_chunk(bytes + alignment - 1) != nullptr)
 					continue;
 				else
 					{
-- 
2.43.0


From 41cb8272bdd23258c72c3e51f0e4e1f0a474f1fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:35 +0000
Subject: [PATCH 02/55] fix: dynamic_array::serialise() writes past a buffer
 too small for the whole array

The remaining space was reduced by more than was left, wrapped around, and the following blocks were copied in full.
---
 source/dynamic_array.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/source/dynamic_array.h b/source/dynamic_array.h
index 3a0b308..40a63df 100644
--- a/source/dynamic_array.h
+++ b/source/dynamic_array.h
@@ -368,10 +368,11 @@ namespace JASS
 					*/
 					for (node *current = head; current != nullptr; current = current->next)
 						{
-						std::copy(current->data, current->data + (current->used <= size_of_into ? current->used.load() : size_of_into), into);
-						size_of_into -= current->used;
+						size_t take = current->used <= size_of_into ? current->used.load() : size_of_into;
+						std::copy(current->data, current->data + take, into);
+						size_of_into -= take;
 						would_take += current->used;
-						into += current->used;
+						into += take;
 						}
 					}
 				return would_take;
-- 
2.43.0


From 3e12ea1b50211786ccd359602fdd45bcb973f8ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:20 +0000
Subject: [PATCH 03/55] fix: search threads insert into the shared per-thread
 map at the same time

---
 anytime/JASS_anytime_api.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/anytime/JASS_anytime_api.cpp b/anytime/JASS_anytime_api.cpp
index 8b18ae7..5a0cea9 100755
--- a/anytime/JASS_anytime_api.cpp
+++ b/anytime/JASS_anytime_api.cpp
@@ -412,7 +412,13 @@ JASS_ERROR JASS_anytime_api::search(std::vector<JASS_anytime_thread_result> &out
 	else
 		{
 		/*
-			Multiple threads, so start each worker
+			Multiple threads, so create the per-thread data first (workers must not add to the shared map while other workers are using it)
+		*/
+		for (size_t which = 0; which < thread_count ; which++)
+			get_thread_local_data(which);
+
+		/*
+			Start each worker
 		*/
 		for (size_t which = 0; which < thread_count ; which++)
 			thread_pool.push_back(JASS::thread(anytime_bootstrap, this, std::ref(output[which]), std::ref(query_list), which));
-- 
2.43.0


From 1774dedc08c5bb73969251a1c9e9481eb5786551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:20 +0000
Subject: [PATCH 04/55] fix: a relative postings limit overwrites the absolute
 limit shared by all threads

---
 anytime/JASS_anytime_api.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/anytime/JASS_anytime_api.cpp b/anytime/JASS_anytime_api.cpp
index 5a0cea9..256ad9d 100755
--- a/anytime/JASS_anytime_api.cpp
+++ b/anytime/JASS_anytime_api.cpp
@@ -575,8 +575,9 @@ void JASS_anytime_api::anytime(JASS_anytime_thread_result &output, std::vector<J
 		/*
 			Check to see if we've got a rho stopping condition relative to the number of postings in this query.
 		*/
+		size_t postings_to_process_this_query = postings_to_process;
 		if (relative_postings_to_process != 1)
-			postings_to_process = total_postings_for_query * relative_postings_to_process;
+			postings_to_process_this_query = total_postings_for_query * relative_postings_to_process;
 
 		/*
 			Process the segments
@@ -593,7 +594,7 @@ void JASS_anytime_api::anytime(JASS_anytime_thread_result &output, std::vector<J
 				The definition of "enough" is that processing the next segment will exceed postings_to_process so we wil be over
 				the "time limit" so we must not do it.
 			*/
-			if (postings_processed + header->segment_frequency > postings_to_process)
+			if (postings_processed + header->segment_frequency > postings_to_process_this_query)
 				break;
 			postings_processed += header->segment_frequency;
 
-- 
2.43.0


From 6aeeb5adaae7c4eeb65377100b2a4f4019d79726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:20 +0000
Subject: [PATCH 05/55] fix: top_k_limit lookup of an unknown query adds to the
 table shared by all threads

---
 source/top_k_limit.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/top_k_limit.h b/source/top_k_limit.h
index 5bb4866..70bfea6 100644
--- a/source/top_k_limit.h
+++ b/source/top_k_limit.h
@@ -74,7 +74,8 @@ namespace JASS
 			*/
 			uint32_t operator[](std::string query_id)
 				{
-				return table[query_id];
+				auto found = table.find(query_id);
+				return found == table.end() ? 0 : found->second;
 				}
 
 			/*
-- 
2.43.0


From 61079fdb485e35b95348400aeb7e40ee6d1f976a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:20 +0000
Subject: [PATCH 06/55] fix: an empty query stops a search thread from taking
 the queries after it

---
 anytime/JASS_anytime_query.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/anytime/JASS_anytime_query.h b/anytime/JASS_anytime_query.h
index f297e37..961beed 100644
--- a/anytime/JASS_anytime_query.h
+++ b/anytime/JASS_anytime_query.h
@@ -94,7 +94,10 @@ class JASS_anytime_query
 					{
 					uint8_t expected = false;
 					if (list[starting_from].taken.compare_exchange_strong(expected, true))
-						return list[starting_from].query;
+						{
+						if (list[starting_from].query.size() != 0)			/// the empty string means "no more queries" so skip over empty queries
+							return list[starting_from].query;
+						}
 					}
 				starting_from++;
 				}
-- 
2.43.0


From 91c33f6dd903499d148aeb62b9b2e08634a8135e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:20 +0000
Subject: [PATCH 07/55] fix: oracle scores larger than an accumulator are
 truncated

---
 anytime/JASS_anytime_api.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/anytime/JASS_anytime_api.cpp b/anytime/JASS_anytime_api.cpp
index 256ad9d..991a998 100755
--- a/anytime/JASS_anytime_api.cpp
+++ b/anytime/JASS_anytime_api.cpp
@@ -567,6 +567,7 @@ void JASS_anytime_api::anytime(JASS_anytime_thread_result &output, std::vector<J
 			*/
 			smallest_possible_rsv = smallest_possible_rsv == 0 ? 1 : smallest_possible_rsv;
 			}
+		rsv_at_k = JASS::maths::minimum(rsv_at_k, (uint32_t)JASS::query::MAX_RSV);			// no document can score more than this, and it must fit in an accumulator
 		rsv_at_k = rsv_at_k == 0 ? 1 : rsv_at_k;			// rsv_at_k cannot be 0 (because at least one search term must be in the document)
 
 		local.jass_query->rewind(smallest_possible_rsv, rsv_at_k, largest_possible_rsv);
-- 
2.43.0


From 47d157ff2c4a0206e1d01eca816925fe363c6456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:34 +0000
Subject: [PATCH 08/55] fix: the minimum number of postings is not processed
 when the oracle fills the top-k part way through a segment

---
 anytime/JASS_anytime_api.cpp | 1 +
 source/query.h               | 4 +++-
 source/query_heap_clean.h    | 2 +-
 3 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/anytime/JASS_anytime_api.cpp b/anytime/JASS_anytime_api.cpp
index 991a998..21b39f1 100755
--- a/anytime/JASS_anytime_api.cpp
+++ b/anytime/JASS_anytime_api.cpp
@@ -603,6 +603,7 @@ void JASS_anytime_api::anytime(JASS_anytime_thread_result &output, std::vector<J
 				Process the postings
 			*/
 			JASS::query::ACCUMULATOR_TYPE impact = header->impact;
+			local.jass_query->stop_when_full = postings_processed - header->segment_frequency >= postings_to_process_min;
 			local.jass_query->decode_and_process(impact, header->segment_frequency, index->postings() + header->offset, header->end - header->offset);
 
 			/*
diff --git a/source/query.h b/source/query.h
index d05e019..2587f73 100755
--- a/source/query.h
+++ b/source/query.h
@@ -187,6 +187,7 @@ namespace JASS
 
 		public:
 			size_t top_k;																	///< The number of results to track.
+			bool stop_when_full;						///< When using an oracle, can processing stop the moment the top-k is full?
 
 		public:
 			/*
@@ -207,7 +208,8 @@ namespace JASS
 				parser(memory),
 				parsed_query(nullptr),
 				primary_keys(nullptr),
-				top_k(0)
+				top_k(0),
+				stop_when_full(true)
 				{
 				}
 
diff --git a/source/query_heap_clean.h b/source/query_heap_clean.h
index 4b59683..5a95f9a 100755
--- a/source/query_heap_clean.h
+++ b/source/query_heap_clean.h
@@ -320,7 +320,7 @@ namespace JASS
 						if (needed_for_top_k == 0)
 							{
 							top_results.make_heap();
-							if (top_k_lower_bound != 1)
+							if (top_k_lower_bound != 1 && stop_when_full)
 								throw Done(); /* We must be using the Oracle, and we must have filled the top-k and so we can stop processing this query. */
 							top_k_lower_bound = *accumulator_pointers[0]; /* set the new bottom of heap value */
 							}
-- 
2.43.0


From 8688a8694683039b8c8478990a36971769c163e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:28 +0000
Subject: [PATCH 09/55] fix: a file that cannot be mapped is treated as mapped

---
 source/file.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/file.cpp b/source/file.cpp
index 03477a0..921c8a4 100644
--- a/source/file.cpp
+++ b/source/file.cpp
@@ -96,6 +96,8 @@ namespace JASS
 			*/
 			close(reader);
 
+			if (file_contents == MAP_FAILED)
+				file_contents = nullptr;
 			if (file_contents == nullptr)
 				return 0;
 
-- 
2.43.0


From b900cb6cb94493e95e383bba3f761d4e2ffdb987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:28 +0000
Subject: [PATCH 10/55] fix: load_index() reports success, or leaves a half
 loaded index, when the index cannot be read

---
 anytime/JASS_anytime_api.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/anytime/JASS_anytime_api.cpp b/anytime/JASS_anytime_api.cpp
index 21b39f1..258878b 100755
--- a/anytime/JASS_anytime_api.cpp
+++ b/anytime/JASS_anytime_api.cpp
@@ -111,7 +111,12 @@ JASS_ERROR JASS_anytime_api::load_index(size_t index_version, const std::string
 				return JASS_ERROR_BAD_INDEX_VERSION;
 			}
 
-		index->read_index(directory);
+		if (index->read_index(directory) == 0)
+			{
+			delete index;
+			index = nullptr;
+			return JASS_ERROR_FAIL;
+			}
 
 		if (index->document_count() > JASS::query::MAX_DOCUMENTS)
 			{
@@ -129,6 +134,9 @@ JASS_ERROR JASS_anytime_api::load_index(size_t index_version, const std::string
 		}
 	catch (...)
 		{
+		thread_local_data.clear();
+		delete index;
+		index = nullptr;
 		return JASS_ERROR_FAIL;
 		}
 	}
-- 
2.43.0


From 5d1b5ec93216c9d04833a329d66cea5b6b160dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:28 +0000
Subject: [PATCH 11/55] fix: load_oracle_scores() leaves a dangling table when
 loading fails

---
 anytime/JASS_anytime_api.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/anytime/JASS_anytime_api.cpp b/anytime/JASS_anytime_api.cpp
index 258878b..214b01b 100755
--- a/anytime/JASS_anytime_api.cpp
+++ b/anytime/JASS_anytime_api.cpp
@@ -149,8 +149,9 @@ JASS_ERROR JASS_anytime_api::load_oracle_scores(std::string filename)
 	{
 	try
 		{
+		JASS::top_k_limit *scores = new JASS::top_k_limit(filename);
 		delete precomputed_minimum_rsv_table;
-		precomputed_minimum_rsv_table = new JASS::top_k_limit(filename);
+		precomputed_minimum_rsv_table = scores;
 		}
 	catch(...)
 		{
-- 
2.43.0


From f8e7ba245ceefc5b338e9318e3547b203d5f9484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:28 +0000
Subject: [PATCH 12/55] fix: an oracle score line without a score crashes the
 search engine

---
 source/top_k_limit.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/top_k_limit.cpp b/source/top_k_limit.cpp
index dc921e7..1fc52dd 100644
--- a/source/top_k_limit.cpp
+++ b/source/top_k_limit.cpp
@@ -44,6 +44,8 @@ namespace JASS
 				Then has a space
 			*/
 			uint8_t *rsv_position = (uint8_t *)strchr((char *)query_id, ' ');
+			if (rsv_position == nullptr)
+				continue;
 			*rsv_position++ = '\0';
 			while (isspace(*rsv_position))
 				rsv_position++;
-- 
2.43.0


From 1c25733baa5675b811aeabc66b96779e7424be1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:28 +0000
Subject: [PATCH 13/55] fix: searching for an empty query dereferences the end
 of the results

---
 anytime/JASS_anytime_api.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/anytime/JASS_anytime_api.cpp b/anytime/JASS_anytime_api.cpp
index 214b01b..afdddb9 100755
--- a/anytime/JASS_anytime_api.cpp
+++ b/anytime/JASS_anytime_api.cpp
@@ -374,7 +374,7 @@ JASS_anytime_result JASS_anytime_api::search(const std::string &query)
 	query_list.push_back(query);
 	anytime(output, query_list, 0);
 
-	return output.results.begin()->second;
+	return output.results.empty() ? JASS_anytime_result() : output.results.begin()->second;
 	}
 
 /*
-- 
2.43.0


From 167d50bea5b8a6685f0a46fdfe493d490f1aabb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:42 +0000
Subject: [PATCH 14/55] fix: a query is deleted twice when memory runs out
 while it is being reset

---
 source/query.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/query.h b/source/query.h
index 2587f73..f084180 100755
--- a/source/query.h
+++ b/source/query.h
@@ -286,6 +286,7 @@ namespace JASS
 			virtual void rewind(ACCUMULATOR_TYPE smallest_possible_rsv = 0, ACCUMULATOR_TYPE top_k_lower_bound = 0, ACCUMULATOR_TYPE largest_possible_rsv = 0)
 				{
 				delete parsed_query;
+				parsed_query = nullptr;
 				parsed_query = new query_term_list;
 				d1_cumulative_sum = 0;
 				impact = 0;
-- 
2.43.0


From 9fb65c96437a90b9188f5ffd64a0d1aa35ed8707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:22 +0000
Subject: [PATCH 15/55] fix: failed writes to a file are ignored

---
 source/file.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/source/file.h b/source/file.h
index c477629..53947a4 100755
--- a/source/file.h
+++ b/source/file.h
@@ -15,6 +15,7 @@
 #pragma once
 
 #include <stdio.h>
+#include <stdlib.h>
 #include <errno.h>
 #include <stddef.h>
 #include <string.h>
@@ -201,7 +202,8 @@ namespace JASS
 				{
 				flush();
 				if (fp != nullptr && fp != stdin && fp != stdout && fp != stderr)
-					fclose(fp);
+					if (fclose(fp) != 0 && bytes_written != 0)
+						exit(printf("Cannot write to file\n"));
 				}
 
 			/*
@@ -240,7 +242,8 @@ namespace JASS
 						done with blocking I/O then this causes a bottleneck as we wait for the OS
 						to write to disk.
 					*/
-					::fwrite(buffer.get(), 1, buffer_used, fp);
+					if (fp == nullptr || ::fwrite(buffer.get(), 1, buffer_used, fp) != buffer_used || ::fflush(fp) != 0)
+						exit(printf("Cannot write to file\n"));
 					buffer_used = 0;
 					}
 				}
-- 
2.43.0


From 12642bcf077605e5c05d04e18109e5e32d2c3c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:22 +0000
Subject: [PATCH 16/55] fix: the position in a file is wrong after reading
 fewer bytes than asked for

---
 source/file.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/source/file.h b/source/file.h
index 53947a4..5f5c2c0 100755
--- a/source/file.h
+++ b/source/file.h
@@ -271,14 +271,16 @@ namespace JASS
 				flush();
 
 				/*
-					Take note of the new file position (at the end of the read)
+					And now perform the read
 				*/
-				file_position += size;		// this is where we'll be at the end of the read
+				size_t got = ::fread(data, 1, size, fp);
 
 				/*
-					And now perform the read
+					Take note of the new file position (at the end of the read)
 				*/
-				return ::fread(data, 1, size, fp);
+				file_position += got;
+
+				return got;
 				}
 
 			/*
-- 
2.43.0


From e49fedf12414314cb4857b06426ffaacad677da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:22 +0000
Subject: [PATCH 17/55] fix: read_entire_file() reports the length of a file it
 could not read

---
 source/file.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/file.cpp b/source/file.cpp
index 921c8a4..6542df1 100644
--- a/source/file.cpp
+++ b/source/file.cpp
@@ -146,6 +146,7 @@ namespace JASS
 #endif
 		size_t file_length = 0;			// length of the file in bytes
 
+		into.resize(0);
 		/*
 			Fopen() the file then fstat() it.  The alternative is to stat() then fopen() - but that is wrong because the file might change between the two calls.
 		*/
@@ -160,7 +161,7 @@ namespace JASS
 					{
 					into.resize(file_length);
 					if (fread(&into[0], details.st_size, 1, fp) != 1)
-						into.resize(0);				// LCOV_EXCL_LINE	// happens when reading the file_size buyes failes (i.e. disk or file failure).
+						into.resize(file_length = 0);				// LCOV_EXCL_LINE	// happens when reading the file_size buyes failes (i.e. disk or file failure).
 					}
 			fclose(fp);
 			}
-- 
2.43.0


From 3c40c337ebe52bb1193e76db874c8638e31b2a08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:22 +0000
Subject: [PATCH 18/55] fix: write_entire_file() reports success when closing
 the file fails

---
 source/file.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/source/file.cpp b/source/file.cpp
index 6542df1..975ab33 100644
--- a/source/file.cpp
+++ b/source/file.cpp
@@ -183,11 +183,12 @@ namespace JASS
 		if ((fp = fopen(filename.c_str(), "wb")) == nullptr)
 			return false;
 
-		size_t success = fwrite(&buffer[0], buffer.size(), 1, fp);
+		size_t success = fwrite(&buffer[0], 1, buffer.size(), fp);
 
-		fclose(fp);
+		if (fclose(fp) != 0)
+			return false;
 
-		return success == 1 ? true : false;
+		return success == buffer.size() ? true : false;
 		}
 
 	/*
-- 
2.43.0


From 4c585078c28ed0b29c8c73e90edd741156abf73a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:49 +0000
Subject: [PATCH 19/55] fix: an index whose writing was interrupted can look
 complete

---
 source/serialise_jass_v1.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/serialise_jass_v1.h b/source/serialise_jass_v1.h
index b941e78..c9a35a9 100644
--- a/source/serialise_jass_v1.h
+++ b/source/serialise_jass_v1.h
@@ -143,10 +143,10 @@ namespace JASS
 				};
 
 		protected:
+			file primary_keys;									///< The list of external identifiers (document primary keys).  This must be the first member so that the file is the first to be emptied and the last to be completed, because without it the index does not load.
 			file vocabulary_strings;							///< The concatination of UTS-8 encoded unique tokens in the collection.
 			file vocabulary;										///< Details about the term (including a pointer to the term, a pointer to the postings, and the quantum count.
 			file postings;											///< The postings lists.
-			file primary_keys;									///< The list of external identifiers (document primary keys).
 			std::vector<vocab_tripple> index_key;			///< The entry point into the JASS v1 index is CIvocab.bin, the index key.
 			std::vector<uint64_t> primary_key_offsets;	///< A list of locations (on disk) of each primary key.
 			allocator_pool memory;								///< Memory used to store the impact-ordered postings list.
@@ -188,10 +188,10 @@ namespace JASS
 			*/
 			serialise_jass_v1(size_t documents, jass_v1_codex codex = jass_v1_codex::elias_gamma_simd, int8_t alignment = 1) :
 				index_manager::delegate(documents),
+				primary_keys("CIdoclist.bin", "w+b"),
 				vocabulary_strings("CIvocab_terms.bin", "w+b"),
 				vocabulary("CIvocab.bin", "w+b"),
 				postings("CIpostings.bin", "w+b"),
-				primary_keys("CIdoclist.bin", "w+b"),
 				memory(1024 * 1024),								///< The allocation block size is currently 1MB, big enough for most postings lists (but it'll grow for larger ones).
 				impact_ordered(documents, memory),
 				encoder(get_compressor(codex, compressor_name, compressor_d_ness)),
-- 
2.43.0


From 316d6c43f4cd18b9894ee597e02031c86d7dd227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:49 +0000
Subject: [PATCH 20/55] fix: a truncated document list is loaded

---
 source/deserialised_jass_v1.cpp | 26 ++++++++++++++++++++++++--
 source/deserialised_jass_v2.cpp | 12 +++++++++++-
 2 files changed, 35 insertions(+), 3 deletions(-)

diff --git a/source/deserialised_jass_v1.cpp b/source/deserialised_jass_v1.cpp
index 6d32df0..4be5d7d 100755
--- a/source/deserialised_jass_v1.cpp
+++ b/source/deserialised_jass_v1.cpp
@@ -34,7 +34,7 @@ namespace JASS
 			Read the disk file
 		*/
 		auto bytes = file::read_entire_file(filename, primary_key_memory);
-		if (bytes == 0)
+		if (bytes < sizeof(uint64_t))
 			return 0;					// failed to read the file.
 
 		/*
@@ -43,6 +43,11 @@ namespace JASS
 		const uint8_t *memory = nullptr;
 		primary_key_memory.read_entire_file(memory);
 		documents = *reinterpret_cast<const uint64_t *>(&memory[bytes] - sizeof(uint64_t));
+		if (documents > bytes / sizeof(uint64_t) - 1)
+			{
+			documents = 0;
+			return 0;					// the file is not complete
+			}
 		primary_key_list.reserve(documents);
 
 		/*
@@ -53,8 +58,25 @@ namespace JASS
 		/*
 			Now work through each primary key adding it to the list of primary keys
 		*/
+		const uint8_t *end_of_keys = (const uint8_t *)offset_base;
+		const uint8_t *expected = memory;			// each key starts after the previous one has ended
 		for (size_t id = 0; id < documents; id++)
-			primary_key_list.push_back(reinterpret_cast<const char *>(memory + offset_base[id]));
+			{
+			const uint8_t *key = memory + offset_base[id];
+			const void *terminator = offset_base[id] < (size_t)(end_of_keys - memory) ? memchr(key, '\0', end_of_keys - key) : nullptr;
+			if (terminator == nullptr || key < expected)
+				{
+				documents = 0;
+				return 0;					// the file is not complete
+				}
+			primary_key_list.push_back(reinterpret_cast<const char *>(key));
+			expected = (const uint8_t *)terminator + 1;
+			}
+		if (documents == 0 || *(end_of_keys - 1) != '\0')
+			{
+			documents = 0;
+			return 0;					// the file is not complete
+			}
 
 		/*
 			This can take some time so make some noise when we're finished
diff --git a/source/deserialised_jass_v2.cpp b/source/deserialised_jass_v2.cpp
index a8cbf54..5339708 100755
--- a/source/deserialised_jass_v2.cpp
+++ b/source/deserialised_jass_v2.cpp
@@ -94,7 +94,7 @@ namespace JASS
 			Read the disk file
 		*/
 		auto bytes = file::read_entire_file(filename, primary_key_memory);
-		if (bytes == 0)
+		if (bytes <= sizeof(uint64_t))
 			return 0;					// failed to read the file.
 
 		/*
@@ -104,6 +104,11 @@ namespace JASS
 		primary_key_memory.read_entire_file(memory);
 		const uint8_t *end_of_file = memory + bytes - sizeof(uint64_t);
 		documents = *(uint64_t *)end_of_file;
+		if (documents > bytes)
+			{
+			documents = 0;
+			return 0;					// the file is not complete
+			}
 		primary_key_list.reserve(documents);
 
 		/*
@@ -115,6 +120,11 @@ namespace JASS
 		for (const uint8_t *from = memory; from < (end_of_file - 1); from++)
 			if (*from == '\0')
 				primary_key_list.push_back((const char *)from + 1);
+		if (primary_key_list.size() != documents || *(end_of_file - 1) != '\0')
+			{
+			documents = 0;
+			return 0;					// the file is not complete
+			}
 
 		/*
 			This can take some time so make some noise when we're finished
-- 
2.43.0


From 0c27ce46de1055919722d8f655c279f772a460e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:34 +0000
Subject: [PATCH 21/55] fix: instream_file reports bytes it did not read, and
 never reports the end of a stream

---
 source/instream_file.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/source/instream_file.cpp b/source/instream_file.cpp
index 0b27723..b751a7d 100644
--- a/source/instream_file.cpp
+++ b/source/instream_file.cpp
@@ -62,10 +62,11 @@ namespace JASS
 		document.contents.resize(file_length - bytes_read);
 
 	/*
-		Do the read and note how many bytes we're read.
+		Do the read and note how many bytes we're read (which is fewer than asked for at EOF or if the read fails).
 	*/
-	if (disk_file.read(&document.contents[0], document.contents.size()) > 0)
-		bytes_read += document.contents.size();
+	size_t got = disk_file.read(&document.contents[0], document.contents.size());
+	document.contents.resize(got);
+	bytes_read += got;
 	}
 	
 	/*
-- 
2.43.0


From 2071417dce53ae1918735d5c57fb66b05ff59af7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:34 +0000
Subject: [PATCH 22/55] fix: instream_deflate loses data after the first
 compressed member and before damage

---
 source/instream_deflate.cpp | 39 ++++++++++++++++---------------------
 1 file changed, 17 insertions(+), 22 deletions(-)

diff --git a/source/instream_deflate.cpp b/source/instream_deflate.cpp
index 200b12b..155485c 100644
--- a/source/instream_deflate.cpp
+++ b/source/instream_deflate.cpp
@@ -35,8 +35,7 @@ namespace JASS
 	*/
 	void instream_deflate::read(document &document)
 	{
-	size_t got;
-	int state;
+	int state = Z_OK;
 
 	if (buffer == NULL)
 		{
@@ -55,35 +54,31 @@ namespace JASS
 		{
 		if (stream.avail_in <= 0)
 			{
-			if ((got = source->fetch(buffer, buffer_length)) < 0)
+			stream.avail_in = (uInt)source->fetch(buffer, buffer_length);
+			stream.next_in = buffer;
+			if (stream.avail_in == 0)
 				{
-				document.contents = slice();
-				return;										// error, deflateInit2() failed!
+				if (stream.total_in != 0)
+					state = Z_BUF_ERROR;						// at EOF, but part way through the compressed data
+				break;
 				}
-			stream.avail_in = (uInt)got;
-			stream.next_in = buffer;
 			}
 
 		state = inflate(&stream, Z_NO_FLUSH);
 
 		if (state == Z_STREAM_END)
-			{
-			got = document.contents.size() - stream.avail_out;		// number of bytes that were decompressed
-			document.contents.resize(got);
-			bytes_read += got;
-			return;										// at EOF
-			}
-
-		if (stream.avail_out == 0)
-			{
-			bytes_read += document.contents.size();
-			return;			// filled the output buffer and so return bytes read
-			}
+			state = inflateReset(&stream);				// a compressed file can be several compressed files joined together
 		}
-	while (state == Z_OK);
+	while (state == Z_OK && stream.avail_out != 0);
+
+	if (state != Z_OK)
+		printf("JASS::instream_deflate::read failure trying to decompress (zlib reports:%d)\n", state);
 
-	printf("JASS::instream_deflate::read failure trying to decompress (zlib reports:%d)\n", state);
-	document.contents = slice();
+	/*
+		Return what was decompressed, which is less than was asked for at the end of the source (or if the source is damaged)
+	*/
+	document.contents.resize(document.contents.size() - stream.avail_out);
+	bytes_read += document.contents.size();
 	}
 
 	/*
-- 
2.43.0


From 272ad4ddae44a2fe885693d5a105b5b952878474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:25 +0000
Subject: [PATCH 23/55] fix: instream_deflate never frees its buffers, so a
 directory of compressed files exhausts memory

---
 source/instream_deflate.cpp | 2 ++
 source/instream_deflate.h   | 6 +++++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/source/instream_deflate.cpp b/source/instream_deflate.cpp
index 155485c..ba444d2 100644
--- a/source/instream_deflate.cpp
+++ b/source/instream_deflate.cpp
@@ -42,6 +42,8 @@ namespace JASS
 		buffer = new uint8_t [buffer_length];
 		if (inflateInit2(&stream, 15 + 32) != Z_OK)		// 2^15 window with zlib/gzip header detection
 			{
+			delete [] buffer;
+			buffer = NULL;
 			document.contents = slice();
 			return;										// error, deflateInit2() failed!
 			}
diff --git a/source/instream_deflate.h b/source/instream_deflate.h
index ffa8da6..abf8fa2 100644
--- a/source/instream_deflate.h
+++ b/source/instream_deflate.h
@@ -52,7 +52,11 @@ namespace JASS
 			*/
 			virtual ~instream_deflate()
 				{
-				/* Nothing */
+				if (buffer != NULL)
+					{
+					inflateEnd(&stream);
+					delete [] buffer;
+					}
 				}
 
 			/*
-- 
2.43.0


From 9dd5712fcbe8cda72434b9efa965b377efb7ca25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:25 +0000
Subject: [PATCH 24/55] fix: reading an empty directory dereferences a null
 pointer, and a short read skips to the next file

---
 source/instream_directory_iterator.cpp | 52 +++++++++-----------------
 1 file changed, 17 insertions(+), 35 deletions(-)

diff --git a/source/instream_directory_iterator.cpp b/source/instream_directory_iterator.cpp
index 98a07cd..2cca807 100644
--- a/source/instream_directory_iterator.cpp
+++ b/source/instream_directory_iterator.cpp
@@ -31,53 +31,35 @@ namespace JASS
 	*/
 	void instream_directory_iterator::read(document &document)
 		{
-		/*
-			Is this the first time this method is called?
-		*/
-		if (reader == nullptr)
-			if (current != last)
-				{
-//puts(current->path().string().c_str());
-				reader = std::shared_ptr<instream>(new instream_file(current->path().string()));
-				if (current->path().string().rfind(".gz") != std::string::npos)
-					reader = std::shared_ptr<JASS::instream>(new instream_deflate(reader));
-				current++;
-				}
-
-		/*
-			Now we can get data from the reader and return it, after making sure we're not at EOF.
-		*/
 		size_t amount_to_read = document.contents.size();
-		void *read_into = document.contents.address();
+		uint8_t *read_into = reinterpret_cast<uint8_t *>(document.contents.address());
 
-		do
+		while (amount_to_read != 0)
 			{
-			size_t bytes_read = reader->fetch(read_into, amount_to_read);
-			amount_to_read -= bytes_read;
-
-			if (amount_to_read == 0)
-				return;
-
-			read_into = ((uint8_t *)read_into) + bytes_read;
-
 			/*
-				We're at EOF so move on to the next disk file
+				Move on to the next disk file, unless we've read past the last file so there is no more data to read
 			*/
-			if (current != last)
+			if (reader == nullptr)
 				{
-//puts(current->path().string().c_str());
+				if (current == last)
+					break;
 				reader = std::shared_ptr<instream>(new instream_file(current->path().string()));
 				if (current->path().string().rfind(".gz") != std::string::npos)
 					reader = std::shared_ptr<JASS::instream>(new instream_deflate(reader));
 				current++;
 				}
-			else
-				{
-				document.contents.resize(document.contents.size() - amount_to_read);
-				return;				// because we're read past the last file so there is no more data to read
-				}
+
+			/*
+				Get data from the reader, which is finished when there is none
+			*/
+			size_t bytes_read = reader->fetch(read_into, amount_to_read);
+			if (bytes_read == 0)
+				reader = nullptr;
+			amount_to_read -= bytes_read;
+			read_into += bytes_read;
 			}
-		while (amount_to_read != 0);
+
+		document.contents.resize(document.contents.size() - amount_to_read);
 		}
 
 	/*
-- 
2.43.0


From baed42cee53b5b602b2c0e69dc2c66eec1bad77d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:25 +0000
Subject: [PATCH 25/55] fix: uncompressed files in a directory whose name
 contains .gz are decompressed

---
 source/instream_directory_iterator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/instream_directory_iterator.cpp b/source/instream_directory_iterator.cpp
index 2cca807..04d9331 100644
--- a/source/instream_directory_iterator.cpp
+++ b/source/instream_directory_iterator.cpp
@@ -44,7 +44,7 @@ namespace JASS
 				if (current == last)
 					break;
 				reader = std::shared_ptr<instream>(new instream_file(current->path().string()));
-				if (current->path().string().rfind(".gz") != std::string::npos)
+				if (current->path().extension() == ".gz")
 					reader = std::shared_ptr<JASS::instream>(new instream_deflate(reader));
 				current++;
 				}
-- 
2.43.0


From efd603e6596027dd080393336993d75cf97d0f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:26 +0000
Subject: [PATCH 26/55] fix: a blank document identifier crashes the TREC
 reader

---
 source/instream_document_trec.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/instream_document_trec.cpp b/source/instream_document_trec.cpp
index ac36af1..44f314b 100644
--- a/source/instream_document_trec.cpp
+++ b/source/instream_document_trec.cpp
@@ -151,9 +151,9 @@ namespace JASS
 			/*
 				Trim whitespace from the start and end of the primary key.
 			*/
-			while (isspace(*document_id_start) && document_id_start < document_end)			// trim early whitespace
+			while (document_id_start < document_id_end && isspace(*document_id_start))			// trim early whitespace
 				document_id_start++;
-			while (isspace(*(document_id_end - 1)) && document_id_end > document_start)				// trip trailing whitespace
+			while (document_id_end > document_id_start && isspace(*(document_id_end - 1)))				// trip trailing whitespace
 				document_id_end--;
 			}
 
-- 
2.43.0


From 4dd454658451b2d9bfe135f025add9daaf87ece1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:26 +0000
Subject: [PATCH 27/55] fix: the TREC reader stops at a document larger than
 its buffer, or when its source returns less than asked for

---
 source/instream_document_trec.cpp | 58 ++++++++++++++++++++-----------
 source/instream_document_trec.h   | 11 ++++++
 2 files changed, 49 insertions(+), 20 deletions(-)

diff --git a/source/instream_document_trec.cpp b/source/instream_document_trec.cpp
index 44f314b..891a4bc 100644
--- a/source/instream_document_trec.cpp
+++ b/source/instream_document_trec.cpp
@@ -76,6 +76,33 @@ namespace JASS
 		primary_key_end_tag = "</" + primary_key_tag + ">";
 		}
 		
+	/*
+		INSTREAM_DOCUMENT_TREC::REFILL()
+		--------------------------------
+	*/
+	bool instream_document_trec::refill(uint8_t *from)
+		{
+		size_t unread = buffer_end - from;
+
+		if (unread < buffer_size)
+			memmove(buffer, from, unread);
+		else
+			{
+			/*
+				The buffer is full so make it larger
+			*/
+			uint8_t *larger = new uint8_t[buffer_size * 2 + 1];
+			memcpy(larger, from, unread);
+			delete [] buffer;
+			buffer = larger;
+			buffer_size *= 2;
+			}
+		buffer_used = 0;
+		fetch(buffer + unread, buffer_size - unread);
+
+		return buffer_end != buffer + unread;
+		}
+
 	/*
 		INSTREAM_DOCUMENT_TREC::READ()
 		------------------------------
@@ -88,52 +115,43 @@ namespace JASS
 			Find the start tag
 		*/
 		uint8_t *document_start;
-		if ((document_start = std::search(unread_data, buffer_end, document_start_tag.c_str(), document_start_tag.c_str() + document_start_tag.size())) == buffer_end)
+		while ((document_start = std::search(unread_data, buffer_end, document_start_tag.c_str(), document_start_tag.c_str() + document_start_tag.size())) == buffer_end)
 			{
 			/*
-				We might be at the end of a buffer and half-way through a tag so we copy the remainder of the file to the
-				start of the buffer and fill the remainder.
+				We might be at the end of a buffer and half-way through a tag so we keep what might be the start of a tag.
 			*/
-			memmove(buffer, unread_data, buffer_size - buffer_used);
-			buffer_end -= buffer_used;
-			buffer_used = 0;
-			
-			fetch(buffer_end, buffer + buffer_size - buffer_end);
-			unread_data = buffer;
-		
-			if ((document_start = std::search(unread_data, buffer_end, document_start_tag.c_str(), document_start_tag.c_str() + document_start_tag.size())) == buffer_end)
+			if ((size_t)(buffer_end - unread_data) >= document_start_tag.size())
+				unread_data = buffer_end - (document_start_tag.size() - 1);
+			if (!refill(unread_data))
 				{
 				/*
-					Most probably end of file.
+					End of file.
 				*/
 				object.primary_key = object.contents = slice();
 				return;
 				}
-			buffer_used = document_start_tag.size();
+			unread_data = buffer;
 			}
 
 		/*
 			Find the end tag
 		*/
 		uint8_t *document_end;
-		if ((document_end = std::search(document_start, buffer_end, document_end_tag.c_str(), document_end_tag.c_str() + document_end_tag.size())) == buffer_end)
+		while ((document_end = std::search(document_start, buffer_end, document_end_tag.c_str(), document_end_tag.c_str() + document_end_tag.size())) == buffer_end)
 			{
 			/*
 				This happens when we move find the start tag in the buffer, but the end tag is not in memory.  We play the 
 				same game as above and shift the start tag to the start of the buffer.
 			*/
-			memmove(buffer, document_start, (buffer_end - buffer) - (document_start - buffer));
-			buffer_end -= document_start - buffer;
-			fetch(buffer_end, buffer_size - (buffer_end - buffer));
-			document_start = buffer;
-			if ((document_end = std::search(document_start, buffer_end, document_end_tag.c_str(), document_end_tag.c_str() + document_end_tag.size())) == buffer_end)
+			if (!refill(document_start))
 				{
 				/*
-					We are either at end of file of have a document that is too large to index (so pretend EOF)
+					We are at end of file
 				*/
 				object.primary_key = object.contents = slice();
 				return;
 				}
+			document_start = buffer;
 			}
 		document_end += document_end_tag.size();
 		buffer_used = document_end - buffer;		// skip to end of end tag
diff --git a/source/instream_document_trec.h b/source/instream_document_trec.h
index 71430e3..02e5d48 100644
--- a/source/instream_document_trec.h
+++ b/source/instream_document_trec.h
@@ -86,6 +86,17 @@ namespace JASS
 				buffer_end = (uint8_t *)buffer + source->fetch(buffer, bytes);
 				}
 
+			/*
+				INSTREAM_DOCUMENT_TREC::REFILL()
+				--------------------------------
+			*/
+			/*!
+				@brief Keep the unread part of the buffer, and read more of the source after it.  If the buffer is full then it is made larger.
+				@param from [in] The start of the unread part of the buffer, which moves to the start of the buffer.
+				@return true if there was more to read, false at end of file.
+			*/
+			bool refill(uint8_t *from);
+
 		public:
 			/*
 				INSTREAM_DOCUMENT_TREC::INSTREAM_DOCUMENT_TREC()
-- 
2.43.0


From 258e43d2a140967e1c7007aad21bf8be906cf687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:26 +0000
Subject: [PATCH 28/55] fix: the FASTA reader splits sequences larger than its
 buffer, and never ends on a file ending in >

---
 source/instream_document_fasta.cpp | 66 +++++++++++++++++++-----------
 source/instream_document_fasta.h   | 11 +++++
 2 files changed, 53 insertions(+), 24 deletions(-)

diff --git a/source/instream_document_fasta.cpp b/source/instream_document_fasta.cpp
index ff8990f..05dde23 100644
--- a/source/instream_document_fasta.cpp
+++ b/source/instream_document_fasta.cpp
@@ -55,6 +55,33 @@ namespace JASS
 		delete [] buffer;
 		}
 
+	/*
+		INSTREAM_DOCUMENT_FASTA::REFILL()
+		---------------------------------
+	*/
+	bool instream_document_fasta::refill(uint8_t *from)
+		{
+		size_t unread = buffer_end - from;
+
+		if (unread < buffer_size)
+			memmove(buffer, from, unread);
+		else
+			{
+			/*
+				The buffer is full so make it larger
+			*/
+			uint8_t *larger = new uint8_t[buffer_size * 2 + 1];
+			memcpy(larger, from, unread);
+			delete [] buffer;
+			buffer = larger;
+			buffer_size *= 2;
+			}
+		buffer_used = 0;
+		fetch(buffer + unread, buffer_size - unread);
+
+		return buffer_end != buffer + unread;
+		}
+
 	/*
 		INSTREAM_DOCUMENT_FASTA::READ()
 		-------------------------------
@@ -67,28 +94,20 @@ namespace JASS
 			Find the start of the document
 		*/
 		uint8_t *document_start;
-		if ((document_start = std::find(unread_data, buffer_end, '>')) == buffer_end)
+		while ((document_start = std::find(unread_data, buffer_end, '>')) == buffer_end)
 			{
 			/*
-				We might be at the end of a buffer and half-way through a tag so we copy the remainder of the file to the
-				start of the buffer and fill the remainder.
+				There is no document in the buffer so replace it all.
 			*/
-			memmove(buffer, unread_data, buffer_size - buffer_used);
-			buffer_end -= buffer_used;
-			buffer_used = 0;
-			
-			fetch(buffer_end, buffer + buffer_size - buffer_end);
-			unread_data = buffer;
-		
-			if ((document_start = std::find(unread_data, buffer_end, '>')) == buffer_end)
+			if (!refill(buffer_end))
 				{
 				/*
-					Most probably end of file.
+					End of file.
 				*/
 				object.primary_key = object.contents = slice();
 				return;
 				}
-			buffer_used = 1;
+			unread_data = buffer;
 			}
 
 		/*
@@ -96,23 +115,22 @@ namespace JASS
 		*/
 		uint8_t *document_end;
 		static const char *end_of_document_marker = "\n>";
-		if ((document_end = std::search(document_start + 1, buffer_end, end_of_document_marker, end_of_document_marker + 2)) == buffer_end)
+		while ((document_end = std::search(document_start + 1, buffer_end, end_of_document_marker, end_of_document_marker + 2)) == buffer_end)
 			{
 			/*
-				This happens when we move find the start tag in the buffer, but the end tag is not in memory.  We play the 
-				same game as above and shift the start tag to the start of the buffer.
+				This happens when we move find the start tag in the buffer, but the end tag is not in memory.  We 
+				shift the start tag to the start of the buffer and read more after it.
 			*/
-			memmove(buffer, document_start, (buffer_end - buffer) - (document_start - buffer));
-			buffer_end -= document_start - buffer;
-			fetch(buffer_end, buffer_size - (buffer_end - buffer));
+			bool more = refill(document_start);
 			document_start = buffer;
-			document_end = std::search(document_start + 1, buffer_end, end_of_document_marker, end_of_document_marker + 2);
-			if (document_end == buffer_end)
-				document_end--;
+			if (!more)
+				{
+				document_end = buffer_end - 1;		// the last document ends at the end of the file
+				break;
+				}
 			}
-
-		buffer_used = document_end - buffer;		// skip to end of the document
 		document_end++;		// because the end of line marker matters (believe it or not!).
+		buffer_used = document_end - buffer;		// skip to end of the document
 
 		/*
 			Extract the document's primary key.
diff --git a/source/instream_document_fasta.h b/source/instream_document_fasta.h
index 01a975e..bf1fac2 100644
--- a/source/instream_document_fasta.h
+++ b/source/instream_document_fasta.h
@@ -66,6 +66,17 @@ namespace JASS
 				buffer_end = (uint8_t *)buffer + source->fetch(buffer, bytes);
 				}
 
+			/*
+				INSTREAM_DOCUMENT_FASTA::REFILL()
+				---------------------------------
+			*/
+			/*!
+				@brief Keep the unread part of the buffer, and read more of the source after it.  If the buffer is full then it is made larger.
+				@param from [in] The start of the unread part of the buffer, which moves to the start of the buffer.
+				@return true if there was more to read, false at end of file.
+			*/
+			bool refill(uint8_t *from);
+
 		public:
 			/*
 				INSTREAM_DOCUMENT_FASTA::INSTREAM_DOCUMENT_FASTA()
-- 
2.43.0


From 3efc88899a9647a4568bf95ab504964a75257598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:26 +0000
Subject: [PATCH 29/55] fix: the identifier of a FASTA sequence without a line
 end includes a byte from after the file

---
 source/instream_document_fasta.cpp | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/source/instream_document_fasta.cpp b/source/instream_document_fasta.cpp
index 05dde23..066454a 100644
--- a/source/instream_document_fasta.cpp
+++ b/source/instream_document_fasta.cpp
@@ -139,13 +139,11 @@ namespace JASS
 		uint8_t *document_id_start = std::find(document_start, document_end, '>');
 		if (document_id_start != document_end)
 			{
-			document_id_end = std::find(document_id_start + 1, document_end, '\n') + 1;
+			document_id_end = std::find(document_id_start + 1, document_end, '\n');
 			/*
 				Trim whitespace from the start and end of the primary key.
 			*/
-			while (isspace(*document_id_start) && document_id_start < document_end)			// trim early whitespace
-				document_id_start++;
-			while (isspace(*(document_id_end - 1)) && document_id_end > document_start)				// trip trailing whitespace
+			while (isspace(*(document_id_end - 1)) && document_id_end > document_id_start)				// trip trailing whitespace
 				document_id_end--;
 			}
 
@@ -153,10 +151,7 @@ namespace JASS
 			Copy the id into the document object and get the document
 		*/
 		object.contents = slice(object.contents_allocator, document_start, document_end);
-		if (document_id_end == document_end)
-			object.primary_key = slice(object.primary_key_allocator, "Unknown");
-		else
-			object.primary_key = slice(object.primary_key_allocator, document_id_start, document_id_end);
+		object.primary_key = slice(object.primary_key_allocator, document_id_start, document_id_end);
 		}
 
 	/*
-- 
2.43.0


From 0b0f85311a4476448b5d0721fa366d872fc8fd53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:49 +0000
Subject: [PATCH 30/55] fix: the uniCOIL reader overflows its buffer on a
 document larger than it

---
 source/instream_document_unicoil_json.cpp | 100 +++++++---------------
 1 file changed, 33 insertions(+), 67 deletions(-)

diff --git a/source/instream_document_unicoil_json.cpp b/source/instream_document_unicoil_json.cpp
index d6f29d3..869fa09 100644
--- a/source/instream_document_unicoil_json.cpp
+++ b/source/instream_document_unicoil_json.cpp
@@ -41,79 +41,45 @@ namespace JASS
 		/*
 			Get the document start and end
 		*/
-		do
+		for (;;)
 			{
 			doc_start = std::search(buffer_start, buffer_end, start_of_document, start_of_document + 6);
-			doc_end = std::search(buffer_start, buffer_end, end_of_document, end_of_document + 3);
+			doc_end = std::search(doc_start, buffer_end, end_of_document, end_of_document + 3);
+			if (doc_end != buffer_end)
+				break;
+
+			/*
+				Move the remaining data to the start of the buffer, and if the buffer is too small then double its size
+			*/
+			size_t bytes_in_use = buffer_end - buffer_start;
+			size_t gap = doc_start - buffer_start;
+			memmove(&buffer[0], buffer_start, bytes_in_use);
+			if (bytes_in_use == buffer_size)
+				{
+				buffer_size += buffer_size;
+				buffer.resize(buffer_size);		// create space and move the old contents into the new space
+				}
 
-			if (doc_end == buffer_end)
+			/*
+				Now fill the remainder of the buffer
+			*/
+			size_t bytes = source->fetch(&buffer[bytes_in_use], buffer_size - bytes_in_use);
+			buffer_start = &buffer[0];
+			doc_start = &buffer[0] + gap;
+			doc_end = buffer_end = &buffer[0] + bytes_in_use + bytes;
+
+			/*
+				At EOF
+			*/
+			if (bytes == 0)
 				{
-				/*
-					Two possibilities, one is that the buffer is too small, the other is that we've reached the end of the buffer and so need to read more.
-				*/
-				if (buffer_start == &buffer[0])
-					{
-					/*
-						The buffer is too small so extend it
-					*/
-					size_t bytes_in_use = buffer_end - buffer_start;
-					size_t bytes_remaining = buffer_size - bytes_in_use;
-
-					if (bytes_in_use != 0)
-						{
-						/*
-							Double the size of the buffer if its got data in it - because its too small.
-						*/
-						size_t gap = doc_start - buffer_start;
-						buffer_size += buffer_size;
-						buffer.resize(buffer_size);		// create space and move the old contents into the new space
-						buffer_start = &buffer[0];
-						buffer_end = &buffer[0] + bytes_in_use;
-						doc_start = &buffer[0] + gap;
-
-						bytes_remaining += buffer_size;
-						}
-
-					size_t bytes = source->fetch((void *)buffer_end, bytes_remaining);
-					doc_end = buffer_end += bytes;
-
-					/*
-						At EOF
-					*/
-					if (bytes == 0)
-						{
-						if (doc_start != nullptr)
-							{
-							doc_end = buffer_end;			// the last document might not end in a '\n'.
-							if (doc_end != doc_start)
-								break;							// the last document isn't empty
-							}
-
-						object.primary_key = object.contents = slice();
-						return;
-						}
-					}
-				else
-					{
-					/*
-						We're not at the start of the buffer so move the remaining data and go to the start of the buffer
-					*/
-					doc_start -= buffer_start - &buffer[0];
-					memmove(&buffer[0], buffer_start, buffer_end - buffer_start);
-					size_t bytes_in_use = buffer_end - buffer_start;
-					size_t bytes_remaining = buffer_size - bytes_in_use;
-					buffer_start = &buffer[0];
-					doc_end = buffer_end = buffer_start + bytes_in_use;
-
-					/*
-						Now fill the remainder of the buffer
-					*/
-					size_t bytes = source->fetch((void *)buffer_end, bytes_remaining);
-					doc_end = buffer_end += bytes;
-					}
+				if (doc_end != doc_start)
+					break;							// the last document might not end in a '\n'.
+
+				object.primary_key = object.contents = slice();
+				return;
 				}
 			}
-		while (doc_end == buffer_end);
 
 		/*
 			Get the document primary key
-- 
2.43.0


From 8896c466c33a2da892af49ff9b69ffe598dd5f7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:49 +0000
Subject: [PATCH 31/55] fix: a uniCOIL document without an identifier or a
 vector is read from outside the document

---
 source/instream_document_unicoil_json.cpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/source/instream_document_unicoil_json.cpp b/source/instream_document_unicoil_json.cpp
index 869fa09..20effa0 100644
--- a/source/instream_document_unicoil_json.cpp
+++ b/source/instream_document_unicoil_json.cpp
@@ -85,11 +85,14 @@ namespace JASS
 			Get the document primary key
 		*/
 		docid_start = std::search(doc_start, doc_end, document_id_marker, document_id_marker + 7);
-		if (docid_start != nullptr)
-			if ((docid_start = strchr(docid_start + 6, '"')) != nullptr)
-				docid_end = strchr(++docid_start, '"');
+		docid_end = doc_end;
+		if (docid_start != doc_end)
+			{
+			docid_start += 7;
+			docid_end = std::find(docid_start, doc_end, '"');
+			}
 
-		if (docid_end == buffer_end)
+		if (docid_end == doc_end)
 			{
 			static const char *none = "AnonymousDocument";
 			object.primary_key = slice(object.primary_key_allocator, none, none + strlen(none));
@@ -100,7 +103,9 @@ namespace JASS
 		/*
 			Get and store the document. In this case we're only looking for the data marked "vector"
 		*/
-		doc_start = std::search(doc_start, doc_end, vector_marker, vector_marker + 11) + 11;
+		doc_start = std::search(doc_start, doc_end, vector_marker, vector_marker + 11);
+		if (doc_start != doc_end)
+			doc_start += 11;
 		object.contents = slice(object.contents_allocator, doc_start, doc_end);
 		
 		buffer_start = doc_end +2;
-- 
2.43.0


From e361109aa4563a0e3e98cba45887dbca19969ef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:49 +0000
Subject: [PATCH 32/55] fix: the WARC reader loses the line after one that just
 fits its buffer

---
 source/instream_document_warc.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/instream_document_warc.cpp b/source/instream_document_warc.cpp
index c2606d7..973b342 100644
--- a/source/instream_document_warc.cpp
+++ b/source/instream_document_warc.cpp
@@ -40,6 +40,7 @@ namespace JASS
 						return nullptr;		// at EOF
 					}
 				while (*into != '\n' && into < end);
+				bool overflow = *into != '\n';
 				*into = '\0';
 
 				/*
@@ -48,7 +49,7 @@ namespace JASS
 					in documents such as clueweb09-en0000-05-10880 which as a 1486 character WARC-Target-URI!  It also won't
 					affect the string comparison because we're only comparing to the start of the string.
 				*/
-				if (into == end)
+				if (overflow)
 					{
 					do
 						if (source->fetch(into, 1) != 1)
-- 
2.43.0


From 5c69f0f6eeb9ba5c55a6067a2d86ed69f788f729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:14 +0000
Subject: [PATCH 33/55] fix: the WARC reader returns uninitialised memory for
 the missing part of a truncated document

---
 source/instream_document_warc.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/source/instream_document_warc.cpp b/source/instream_document_warc.cpp
index 973b342..7638ff4 100644
--- a/source/instream_document_warc.cpp
+++ b/source/instream_document_warc.cpp
@@ -101,7 +101,14 @@ namespace JASS
 				size_t length = atoll(file_length);
 				char *document = reinterpret_cast<char *>(object.contents_allocator.malloc(length + 1));
 
-				source->fetch(document, length);
+				/*
+					Read until we have it all, or we run out of file
+				*/
+				size_t used = 0;
+				size_t got;
+				while (used < length && (got = source->fetch(document + used, length - used)) != 0)
+					used += got;
+				length = used;
 				document[length] = '\0';
 				object.contents = slice(document, document + length);
 				}
-- 
2.43.0


From b5b337e729113e2f207a1419f70fe978f14621ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:14 +0000
Subject: [PATCH 34/55] fix: writing to a channel whose file cannot be opened
 crashes

---
 source/channel_file.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/source/channel_file.cpp b/source/channel_file.cpp
index b116412..23b83d8 100644
--- a/source/channel_file.cpp
+++ b/source/channel_file.cpp
@@ -5,6 +5,7 @@
 	Released under the 2-clause BSD license (See:https://en.wikipedia.org/wiki/BSD_licenses)
 */
 #include <stdio.h>
+#include <stdlib.h>
 
 #include "channel_file.h"
 #include "instream_file_star.h"
@@ -58,7 +59,8 @@ namespace JASS
 	*/
 	if (outfile == nullptr)
 		{
-		outfile = ::fopen(filename.c_str(), "a+b");
+		if ((outfile = ::fopen(filename.c_str(), "a+b")) == nullptr)
+			exit(printf("Cannot open %s for writing\n", filename.c_str()));
 		rewind(outfile);
 		}
 	/*
-- 
2.43.0


From 37604dd49130969cf0bc3570ce6041d8783b7f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:14 +0000
Subject: [PATCH 35/55] fix: JASS_index stops indexing at a document without
 contents

---
 tools/JASS_index.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/JASS_index.cpp b/tools/JASS_index.cpp
index 7594427..6769707 100644
--- a/tools/JASS_index.cpp
+++ b/tools/JASS_index.cpp
@@ -279,7 +279,7 @@ int main(int argc, const char *argv[])
 			get the next document
 		*/
 		source->read(document);
-		if (document.isempty())
+		if (document.isempty() && document.primary_key.size() == 0)
 			break;
 
 		total_documents++;
@@ -335,7 +335,7 @@ int main(int argc, const char *argv[])
 		*/
 		index.end_document(document_length + (parameter_atire_similar ? 1 : 0));
 		}
-	while (!document.isempty());
+	while (true);
 
 	auto time_to_end_parse = JASS::timer::stop(timer).nanoseconds();
 
-- 
2.43.0


From 9214ca7afc0c15be3635835eb761881f7ad87754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:07 +0000
Subject: [PATCH 36/55] fix: the number of a TREC topic includes digits left
 over from earlier text

---
 source/channel_trec.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/channel_trec.cpp b/source/channel_trec.cpp
index 2f889dd..022db0c 100644
--- a/source/channel_trec.cpp
+++ b/source/channel_trec.cpp
@@ -87,7 +87,7 @@ namespace JASS
 								digits = parser.get_next_token();
 							while (digits.type != JASS::parser::token::numeric && digits.type != JASS::parser::token::eof);
 							old_number = number;
-							number = atol(reinterpret_cast<char *>(digits.get().address()));
+							number = digits.type == JASS::parser::token::numeric ? atol(std::string(reinterpret_cast<char *>(digits.get().address()), digits.get().size()).c_str()) : 0;	// the token is not '\0' terminated
 
 							if (old_number >= 0)
 								return construct(into, old_number, answer.str());
-- 
2.43.0


From bef2ab8de9124288b8274d45cad25bc62239de0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:07 +0000
Subject: [PATCH 37/55] fix: text on the same line as the start of a later TREC
 topic is lost

---
 source/channel_trec.cpp | 24 +++++++++++++++---------
 source/channel_trec.h   |  2 ++
 2 files changed, 17 insertions(+), 9 deletions(-)

diff --git a/source/channel_trec.cpp b/source/channel_trec.cpp
index 022db0c..5dd2269 100644
--- a/source/channel_trec.cpp
+++ b/source/channel_trec.cpp
@@ -35,7 +35,6 @@ namespace JASS
 		{
 		int64_t old_number;
 		std::ostringstream raw_query;
-		parser parser;
 		std::ostringstream answer;
 
 		if (at_eof)
@@ -52,22 +51,23 @@ namespace JASS
 				in_channel->gets(buffer);
 				if (buffer.size() == 0)
 					break;		// at end of input
+				tokens.set_document(buffer);
 				}
-			parser.set_document(buffer);
+			read = true;			// unless we stop part way through a line, the next thing to do is to read the next line
 
 			bool finished = false;
 			const char *token_start;
 			do
 				{
-				const auto &token = parser.get_next_token();
+				const auto &token = tokens.get_next_token();
 
 				switch (token.type)
 					{
-					case JASS::parser::token::eof:
+					case parser::token::eof:
 						finished = true;
 						break;
-					case JASS::parser::token::alpha:
-					case JASS::parser::token::numeric:
+					case parser::token::alpha:
+					case parser::token::numeric:
 						if (match)
 							{
 							answer.write(reinterpret_cast<char *>(token.get().address()), token.get().size());
@@ -84,13 +84,16 @@ namespace JASS
 							*/
 							parser::token digits;
 							do
-								digits = parser.get_next_token();
-							while (digits.type != JASS::parser::token::numeric && digits.type != JASS::parser::token::eof);
+								digits = tokens.get_next_token();
+							while (digits.type != parser::token::numeric && digits.type != parser::token::eof);
 							old_number = number;
-							number = digits.type == JASS::parser::token::numeric ? atol(std::string(reinterpret_cast<char *>(digits.get().address()), digits.get().size()).c_str()) : 0;	// the token is not '\0' terminated
+							number = digits.type == parser::token::numeric ? atol(std::string(reinterpret_cast<char *>(digits.get().address()), digits.get().size()).c_str()) : 0;	// the token is not '\0' terminated
 
 							if (old_number >= 0)
+								{
+								read = false;			// the rest of this line belongs to the topic we've just found the start of
 								return construct(into, old_number, answer.str());
+								}
 							}
 						else if (token.get().size() == 5 && strncmp(token_start, "topic", 5) == 0)
 							{
@@ -107,7 +110,10 @@ namespace JASS
 									}
 
 							if (old_number >= 0)
+								{
+								read = false;			// the rest of this line belongs to the topic we've just found the start of
 								return construct(into, old_number, answer.str());
+								}
 							}
 						else if (token.get().size() == 5 && (strncmp(token_start, "query", 5) == 0) && (tag.find('q') != std::string::npos))
 								match = true;			// ClueWeb
diff --git a/source/channel_trec.h b/source/channel_trec.h
index 1bdde74..322ce08 100644
--- a/source/channel_trec.h
+++ b/source/channel_trec.h
@@ -15,6 +15,7 @@
 
 #include <sstream>
 
+#include "parser.h"
 #include "channel.h"
 
 namespace JASS
@@ -31,6 +32,7 @@ namespace JASS
 		private:
 			std::unique_ptr<channel> in_channel;	///< The channel this channel reads from
 			std::string buffer;							///< Storage of date read from the in_channel
+			JASS::parser tokens;							///< the parser, part way through buffer if read is false
 			bool read;										///< Do we need to read from the input channel
 			bool at_eof;									///< Are we at end of input?
 			int64_t number;								///< The topic number of the topic being constructed
-- 
2.43.0


From 8ab4d369fb48185414498a8786a6c4146ef5620c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:07 +0000
Subject: [PATCH 38/55] fix: reading TREC topics from a file without any yields
 a query

---
 source/channel_trec.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/source/channel_trec.cpp b/source/channel_trec.cpp
index 5dd2269..0274bcc 100644
--- a/source/channel_trec.cpp
+++ b/source/channel_trec.cpp
@@ -132,6 +132,11 @@ namespace JASS
 			}
 
 		at_eof = true;
+		if (number < 0)
+			{
+			into.clear();		// there are no topics
+			return;
+			}
 		return construct(into, number, answer.str());
 		}
 
-- 
2.43.0


From ff260c04e6cb1c3279c1d06c792fe2fab869a4a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:40 +0000
Subject: [PATCH 39/55] fix: JASS_anytime exits successfully when it cannot
 load the index or use its parameters

---
 anytime/JASS_anytime.cpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/anytime/JASS_anytime.cpp b/anytime/JASS_anytime.cpp
index 6f9afca..63c6e23 100755
--- a/anytime/JASS_anytime.cpp
+++ b/anytime/JASS_anytime.cpp
@@ -156,7 +156,7 @@ static int main_event(int argc, const char *argv[])
 	if (engine.set_top_k(parameter_top_k) != JASS_ERROR_OK)
 		{
 		std::cout << "The top-k specified (" << parameter_top_k << ") is larger than maximum TOP-K (" << engine.get_max_top_k() << ")\n";
-		return 0;
+		return 1;
 		}
 
 	/*
@@ -166,7 +166,7 @@ static int main_event(int argc, const char *argv[])
 		if (engine.set_accumulator_width(accumulator_width) != JASS_ERROR_OK)
 			{
 			std::cout << "Cannot set the accumulator width to " << accumulator_width << '\n';
-			return 0;
+			return 1;
 			}
 
 	/*
@@ -176,7 +176,7 @@ static int main_event(int argc, const char *argv[])
 		if (engine.load_oracle_scores(parameter_rsv_scores_filename) != JASS_ERROR_OK)
 			{
 			std::cout << "Cannot load the Oracle top-k scores from file '" << parameter_rsv_scores_filename << "'\n";
-			return 0;
+			return 1;
 			}
 
 	/*
@@ -185,7 +185,7 @@ static int main_event(int argc, const char *argv[])
 	if (engine.load_index(parameter_index_v2 ? 2 : 1, "", true) != JASS_ERROR_OK)
 		{
 		std::cout << "Cannot load the index\n";
-		return 0;
+		return 1;
 		}
 	stats.number_of_documents = engine.get_document_count();
 
@@ -205,31 +205,31 @@ static int main_event(int argc, const char *argv[])
 		if (engine.set_postings_to_process(maximum_number_of_postings_to_process) != JASS_ERROR_OK)
 			{
 			std::cout << "Failure to set the number of postings to process to " << maximum_number_of_postings_to_process << '\n';
-			return 0;
+			return 1;
 			}
 	if (minimum_number_of_postings_to_process != 0)
 		if (engine.set_postings_to_process_minimum(minimum_number_of_postings_to_process) != JASS_ERROR_OK)
 			{
 			std::cout << "Failure to set the minimum number of postings to process to " << minimum_number_of_postings_to_process << '\n';
-			return 0;
+			return 1;
 			}
 	if (rho != 100.0)
 		if (engine.set_postings_to_process_proportion(rho) != JASS_ERROR_OK)
 			{
 			std::cout << "Failure to set the proportion of postings to process\n";
-			return 0;
+			return 1;
 			}
 	if (rho_min != 0)
 		if (engine.set_postings_to_process_proportion_minimum(rho_min) != JASS_ERROR_OK)
 			{
 			std::cout << "Failure to set the minimum proportion of postings to process\n";
-			return 0;
+			return 1;
 			}
 	if (parameter_relative_rho != 100)
 		if (engine.set_postings_to_process_relative(parameter_relative_rho) != JASS_ERROR_OK)
 			{
 			std::cout << "Failure to set the relative postings stopping condition\n";
-			return 0;
+			return 1;
 			}
 
 	/*
-- 
2.43.0


From b0a2ffdf0e80823fe9b7e4b262b6ad8ab517d5e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:40 +0000
Subject: [PATCH 40/55] fix: JASS_anytime exits successfully when it cannot
 write the run

---
 anytime/JASS_anytime.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/anytime/JASS_anytime.cpp b/anytime/JASS_anytime.cpp
index 63c6e23..bb3cd37 100755
--- a/anytime/JASS_anytime.cpp
+++ b/anytime/JASS_anytime.cpp
@@ -285,8 +285,11 @@ static int main_event(int argc, const char *argv[])
 			}
 	stats_file << "</JASSv2stats>\n";
 
-	JASS::file::write_entire_file("ranking.txt", TREC_file.str());
-	JASS::file::write_entire_file("JASSv2Stats.txt", stats_file.str());
+	if (!JASS::file::write_entire_file("ranking.txt", TREC_file.str()) || !JASS::file::write_entire_file("JASSv2Stats.txt", stats_file.str()))
+		{
+		std::cout << "Cannot write the results\n";
+		return 1;
+		}
 
 	/*
 		Finally, output how we did.
-- 
2.43.0


From 0e465ae13377aa7857acdcd9c09f48138af01d83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:40 +0000
Subject: [PATCH 41/55] fix: JASS_anytime exits successfully when it cannot
 read the queries

---
 anytime/JASS_anytime.cpp | 33 +++++++++++++++++++++++----------
 1 file changed, 23 insertions(+), 10 deletions(-)

diff --git a/anytime/JASS_anytime.cpp b/anytime/JASS_anytime.cpp
index bb3cd37..3a40cc2 100755
--- a/anytime/JASS_anytime.cpp
+++ b/anytime/JASS_anytime.cpp
@@ -5,14 +5,15 @@
 	Released under the 2-clause BSD license (See:https://en.wikipedia.org/wiki/BSD_licenses)
 */
 #include <stdlib.h>
+#include <string.h>
 
 #include <string>
 
 #include "timer.h"
 #include "version.h"
 #include "commandline.h"
-#include "channel_file.h"
 #include "channel_trec.h"
+#include "channel_buffer.h"
 #include "JASS_anytime_api.h"
 #include "JASS_anytime_query.h"
 
@@ -59,31 +60,38 @@ static auto parameters = std::make_tuple							///< The  command line parameter
 JASS::channel *make_input_channel(std::string filename)
 	{
 	std::string file;
-	JASS::file::read_entire_file(filename, file);
-	
+	if (JASS::file::read_entire_file(filename, file) == 0)
+		return nullptr;
+
+	/*
+		The queries come from what has just been read, not from a second read of the file (which might fail part way through).
+	*/
+	std::shared_ptr<char> contents(new char [file.size() + 1], [](char *pointer) {delete [] pointer;});
+	memcpy(contents.get(), file.c_str(), file.size() + 1);
+	std::unique_ptr<JASS::channel> source(new JASS::channel_buffer(contents));
+
 	/*
 		If the start of the file is a digit then we think we have a JASS topic file.
 		If the start is not a digit then we're expecting to see a TREC topic file.
 	*/
 	if (::isdigit(file[0]))
-		return new JASS::channel_file(filename);				// JASS topic file
+		return source.release();				// JASS topic file
 	else
-		{
-		std::unique_ptr<JASS::channel> source(new JASS::channel_file(filename));
 		return new JASS::channel_trec(source, "tq");		// TREC topic file
-		}
 	}
 
 /*
 	LOAD_QUERIES()
 	--------------
 */
-void load_queries(std::vector<JASS_anytime_query> &query_list, const std::string filename)
+bool load_queries(std::vector<JASS_anytime_query> &query_list, const std::string filename)
 	{
 	/*
 		Read from the query file into a list of queries array.
 	*/
-	JASS::channel *input = make_input_channel(parameter_queryfilename);		// read from here
+	JASS::channel *input = make_input_channel(filename);		// read from here
+	if (input == nullptr)
+		return false;
 	std::string query;												// the channel read goes into memory managed by this object
 
 	/*
@@ -111,6 +119,7 @@ void load_queries(std::vector<JASS_anytime_query> &query_list, const std::string
 		}
 		
 	delete input;
+	return true;
 	}
 
 /*
@@ -252,7 +261,11 @@ static int main_event(int argc, const char *argv[])
 		Load the queries
 	*/
 	std::vector<JASS_anytime_query> query_list;
-	load_queries(query_list, parameter_queryfilename);
+	if (!load_queries(query_list, parameter_queryfilename))
+		{
+		std::cout << "Cannot read any queries from '" << parameter_queryfilename << "'\n";
+		return 1;
+		}
 	stats.number_of_queries = query_list.size();
 	
 	/*
-- 
2.43.0


From da07ed868e16520e144e232a4fa650a626cd25b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:40 +0000
Subject: [PATCH 42/55] fix: JASS_anytime ignores the queries after a blank
 line

---
 anytime/JASS_anytime.cpp | 17 ++++-------------
 1 file changed, 4 insertions(+), 13 deletions(-)

diff --git a/anytime/JASS_anytime.cpp b/anytime/JASS_anytime.cpp
index 3a40cc2..e55b3eb 100755
--- a/anytime/JASS_anytime.cpp
+++ b/anytime/JASS_anytime.cpp
@@ -97,25 +97,16 @@ bool load_queries(std::vector<JASS_anytime_query> &query_list, const std::string
 	/*
 		Read the query set and bung it into a vector
 	*/
-	input->gets(query);
-
-	std::size_t found = query.find_last_not_of(" \t\f\v\n\r");
-	if (found != std::string::npos)
-	  query.erase(found + 1);
-	else
-	  query.clear();            // str is all whitespace
-
-	while (query.size() != 0)
+	for (input->gets(query); query.size() != 0; input->gets(query))		// gets() returns an empty string at the end of the input, and a blank line includes its '\n'
 		{
-		query_list.push_back(query);
-
-		input->gets(query);
-
 		std::size_t found = query.find_last_not_of(" \t\f\v\n\r");
 		if (found != std::string::npos)
 		  query.erase(found + 1);
 		else
 		  query.clear();            // str is all whitespace
+
+		if (query.size() != 0)
+			query_list.push_back(query);
 		}
 		
 	delete input;
-- 
2.43.0


From 17c40475b32fe35e9b384de240fa30ac04d9c1dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:40 +0000
Subject: [PATCH 43/55] fix: --rho_min and --RHO_min are taken for --rho and
 --RHO

---
 anytime/JASS_anytime.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/anytime/JASS_anytime.cpp b/anytime/JASS_anytime.cpp
index e55b3eb..da21568 100755
--- a/anytime/JASS_anytime.cpp
+++ b/anytime/JASS_anytime.cpp
@@ -44,10 +44,10 @@ static auto parameters = std::make_tuple							///< The  command line parameter
 	JASS::commandline::parameter("-k",   "--top-k",        "<top-k>           Number of results to return to the user (top-k value) [default = -k10]", parameter_top_k),
 	JASS::commandline::parameter("-q",   "--queryfile",    "<filename>        Name of file containing a list of queries (1 per line, each line prefixed with query-id)", parameter_queryfilename),
 	JASS::commandline::parameter("-Q",   "--queryrsvfile", "<filename>        Name of file containing a list of the minimum rsv value for a document to be found (1 per line: <query_id> <rsv>)", parameter_rsv_scores_filename),
-	JASS::commandline::parameter("-r",   "--rho",          "<integer_percent> Percent of the collection size to use as max number of postings to process [default = -r100] (overrides -R)", rho),
 	JASS::commandline::parameter("-⌊r⌋", "--rho_min",      "<integer_percent> Percent of the collection size to use as minimum number of postings to process [default is 0] (overrides -R)", rho_min),
-	JASS::commandline::parameter("-R",   "--RHO",          "<integer_max>     Max number of postings to process [default is all]", maximum_number_of_postings_to_process),
+	JASS::commandline::parameter("-r",   "--rho",          "<integer_percent> Percent of the collection size to use as max number of postings to process [default = -r100] (overrides -R)", rho),
 	JASS::commandline::parameter("-⌊R⌋", "--RHO_min",      "<integer_min>     Minimum number of postings to process [default is 0]", minimum_number_of_postings_to_process),
+	JASS::commandline::parameter("-R",   "--RHO",          "<integer_max>     Max number of postings to process [default is all]", maximum_number_of_postings_to_process),
 	JASS::commandline::parameter("-ℝ",   "--Relative_RHO", "<integer_percent> Percent of this queries postings to use as max number of postings to process [default = -ℝ100] (overrides -R and -r)", parameter_relative_rho),
 	JASS::commandline::parameter("-t",   "--threads",      "<threadcount>     Number of threads to use (one query per thread) [default = -t1]", parameter_threads),
 	JASS::commandline::parameter("-w",   "--width",        "<2^w>             The width of the 2D accumulator array (2^w is used)", accumulator_width)
-- 
2.43.0


From 4d83bbb1ccfbeecd32b9d4ba5d458351fd67c7fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:28 +0000
Subject: [PATCH 44/55] fix: JASS_anytime on 0 threads exits successfully
 having answered nothing

---
 anytime/JASS_anytime.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/anytime/JASS_anytime.cpp b/anytime/JASS_anytime.cpp
index da21568..b4f089e 100755
--- a/anytime/JASS_anytime.cpp
+++ b/anytime/JASS_anytime.cpp
@@ -148,6 +148,11 @@ static int main_event(int argc, const char *argv[])
 	if (parameter_help)
 		exit(usage(argv[0]));
 
+	if (parameter_threads == 0)
+		{
+		std::cout << "Cannot search with 0 threads\n";
+		return 1;
+		}
 	stats.threads = parameter_threads;
 
 	/*
-- 
2.43.0


From 6bb88a91586b433c4a1b4b8dd0709d9b8d436a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:29 +0000
Subject: [PATCH 45/55] fix: oracle scores that cannot be read are taken to be
 no scores

---
 source/top_k_limit.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/source/top_k_limit.cpp b/source/top_k_limit.cpp
index 1fc52dd..9d30ece 100644
--- a/source/top_k_limit.cpp
+++ b/source/top_k_limit.cpp
@@ -7,6 +7,9 @@
 #include <stdlib.h>
 #include <string.h>
 
+#include <filesystem>
+#include <stdexcept>
+
 #include "file.h"
 #include "top_k_limit.h"
 
@@ -30,7 +33,12 @@ namespace JASS
 		/*
 			Read the file and break it into lines
 		*/
-		file::read_entire_file(filename, file_contents);
+		if (file::read_entire_file(filename, file_contents) == 0)
+			{
+			std::error_code error;
+			if (std::filesystem::file_size(filename, error) != 0)		// an error is not 0
+				throw std::runtime_error("cannot read " + filename);
+			}
 		file::buffer_to_list(line_list, file_contents);
 
 		for (auto &line : line_list)
-- 
2.43.0


From 9df9d6e93c118902e75686f5b7784df6540fb69b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:04 +0000
Subject: [PATCH 46/55] fix: ciff_to_JASS reads outside a truncated source and
 converts what it finds there

---
 tools/ciff_lin.h       | 146 ++++++++++++++++++++++++++++-------------
 tools/ciff_to_JASS.cpp |  23 +++++--
 tools/protobuf.h       | 104 ++++++++++++++++++-----------
 3 files changed, 186 insertions(+), 87 deletions(-)

diff --git a/tools/ciff_lin.h b/tools/ciff_lin.h
index d2b2f17..deaa5d3 100644
--- a/tools/ciff_lin.h
+++ b/tools/ciff_lin.h
@@ -229,11 +229,15 @@ namespace JASS
 						while (stream < stream_end)
 							{
 							protobuf::wire_type type;
-							uint8_t field = protobuf::get_type_and_field(type, stream);
+							uint8_t field;
+							if (!protobuf::get_type_and_field(field, type, stream, stream_end))
+								return FAIL;
 
 							if (type == protobuf::VARINT)
 								{
-								uint64_t value = protobuf::get_uint64_t(stream);
+								uint64_t value;
+								if (!protobuf::get_uint64_t(value, stream, stream_end))
+									return FAIL;
 								if (field == 1)
 									into.docid = static_cast<uint32_t>(value);
 								else if (field == 2)
@@ -264,11 +268,15 @@ namespace JASS
 						while (stream < stream_end)
 							{
 							protobuf::wire_type type;
-							uint8_t field = protobuf::get_type_and_field(type, stream);
+							uint8_t field;
+							if (!protobuf::get_type_and_field(field, type, stream, stream_end))
+								return FAIL;
 
 							if (type == protobuf::VARINT)
 								{
-								uint64_t value = protobuf::get_uint64_t(stream);
+								uint64_t value;
+								if (!protobuf::get_uint64_t(value, stream, stream_end))
+									return FAIL;
 
 								if (field == 2)
 									into.document_frequency = value;
@@ -279,7 +287,9 @@ namespace JASS
 								}
 							else if (type == protobuf::BLOB)
 								{
-								slice term = protobuf::get_blob(stream);
+								slice term;
+								if (!protobuf::get_blob(term, stream, stream_end))
+									return FAIL;
 
 								if (field == 1)
 									into.term = term;
@@ -364,19 +374,21 @@ namespace JASS
 					/*!
 						@brief Get the next doc record from the stream
 					*/
-					static error_code get_next(doc_record &into, const uint8_t *&stream)
+					static error_code get_next(doc_record &into, const uint8_t *&stream, const uint8_t *stream_end)
 						{
-						size_t length = protobuf::get_uint64_t(stream);
-						const uint8_t *stream_end = stream + length;
 
 						while (stream < stream_end)
 							{
 							protobuf::wire_type type;
-							uint8_t field = protobuf::get_type_and_field(type, stream);
+							uint8_t field;
+							if (!protobuf::get_type_and_field(field, type, stream, stream_end))
+								return FAIL;
 
 							if (type == protobuf::VARINT)
 								{
-								uint64_t value = protobuf::get_uint64_t(stream);
+								uint64_t value;
+								if (!protobuf::get_uint64_t(value, stream, stream_end))
+									return FAIL;
 
 								if (field == 1)
 									into.docid = value;
@@ -387,7 +399,9 @@ namespace JASS
 								}
 							else if (type == protobuf::BLOB)
 								{
-								slice term = protobuf::get_blob(stream);
+								slice term;
+								if (!protobuf::get_blob(term, stream, stream_end))
+									return FAIL;
 								if (field == 2)
 									into.collection_docid = term;
 								else
@@ -445,6 +459,25 @@ namespace JASS
 					postings_list_iterator &operator++()
 						{
 						which++;
+						postings.clear();
+
+						/*
+							Step over the message, marking the stream as bad if it isn't all there
+						*/
+						slice message;
+						if (which <= static_cast<size_t>(source.ciff_header.num_postings_lists))
+							{
+							if (!protobuf::get_blob(message, stream, source.source_end))
+								source.status = FAIL;
+							else
+								{
+								const uint8_t *from = reinterpret_cast<const uint8_t *>(message.address());
+								if (postings_list::get_next_postings(postings, from, from + message.size()) == FAIL)
+									source.status = FAIL;
+								}
+							}
+
+						source.stream = stream;
 						return *this;
 						}
 
@@ -458,18 +491,6 @@ namespace JASS
 					*/
 					postings_list &operator*()
 						{
-						int64_t postings_list_length = protobuf::get_uint64_t(stream);
-
-						postings.clear();
-						if (postings_list::get_next_postings(postings, stream, stream + postings_list_length) == FAIL)
-							{
-							/*
-								On error move to the end of the stream and mark the stream as bad
-							*/
-							which = (std::numeric_limits<decltype(which)>::max)();
-							source.status = FAIL;
-							}
-
 						return postings;
 						}
 
@@ -479,13 +500,11 @@ namespace JASS
 					*/
 					/*!
 						@brief Compare two iterators.
-						@return True if the iterators are different
+						@return True if the iterators are different and the stream is good
 					*/
 					bool operator!=(postings_list_iterator &with)
 						{
-						bool answer = which <= with.which;
-						source.stream = stream;
-						return answer;
+						return source.status == OK && which <= with.which;
 						}
 				};
 
@@ -577,18 +596,26 @@ namespace JASS
 					*/
 					docrecords_iterator &operator++()
 						{
+						which++;
 						current.clear();
 
-						if (doc_record::get_next(current, stream) == FAIL)
+						/*
+							Step over the message, marking the stream as bad if it isn't all there
+						*/
+						slice message;
+						if (which <= static_cast<size_t>(source.ciff_header.num_docs))
 							{
-							/*
-								On error move to the end of the stream and mark the stream as bad
-							*/
-							which = (std::numeric_limits<decltype(which)>::max)();
-							source.status = FAIL;
+							if (!protobuf::get_blob(message, stream, source.source_end))
+								source.status = FAIL;
+							else
+								{
+								const uint8_t *from = reinterpret_cast<const uint8_t *>(message.address());
+								if (doc_record::get_next(current, from, from + message.size()) == FAIL)
+									source.status = FAIL;
+								}
 							}
 
-						which++;
+						source.stream = stream;
 						return *this;
 						}
 
@@ -611,11 +638,11 @@ namespace JASS
 					*/
 					/*!
 						@brief Compare two iterators.
-						@return True if the iterators are different
+						@return True if the iterators are different and the stream is good
 					*/
 					bool operator!=(docrecords_iterator &with)
 						{
-						return which <= with.which;
+						return source.status == OK && which <= with.which;
 						}
 				};
 
@@ -665,6 +692,7 @@ namespace JASS
 
 		private:
 			const uint8_t *source_file;				///< The CIFF file in memory
+			const uint8_t *source_end;					///< The end of the CIFF file in memory
 			const uint8_t *stream;						///< Where in the CIFF we currently are
 			header ciff_header;							///< The header from the CIFF file
 			
@@ -683,18 +711,25 @@ namespace JASS
 			*/
 			error_code read_header(header &header)
 				{
-				stream = source_file;
-				size_t length = protobuf::get_uint64_t(stream);
-				const uint8_t *stream_end = stream + length;
+				slice message;
+				if (!protobuf::get_blob(message, stream, source_end))
+					return FAIL;
+
+				const uint8_t *stream_end = stream;
+				stream = reinterpret_cast<const uint8_t *>(message.address());
 
 				while (stream < stream_end)
 					{
 					protobuf::wire_type type;
-					uint8_t field = protobuf::get_type_and_field(type, stream);
+					uint8_t field;
+					if (!protobuf::get_type_and_field(field, type, stream, stream_end))
+						return FAIL;
 
 					if (type == protobuf::VARINT)
 						{
-						uint64_t value = protobuf::get_uint64_t(stream);
+						uint64_t value;
+						if (!protobuf::get_uint64_t(value, stream, stream_end))
+							return FAIL;
 
 						if (field == 1)
 							header.version = value;
@@ -713,7 +748,9 @@ namespace JASS
 						}
 					else if (type == protobuf::SIXTY_FOUR_BIT)
 						{
-						double value = protobuf::get_double(stream);
+						double value;
+						if (!protobuf::get_double(value, stream, stream_end))
+							return FAIL;
 						if (field == 7)
 							header.average_doclength = value;
 						else
@@ -721,7 +758,9 @@ namespace JASS
 						}
 					else if (type == protobuf::BLOB)
 						{
-						slice term = protobuf::get_blob(stream);
+						slice term;
+						if (!protobuf::get_blob(term, stream, stream_end))
+							return FAIL;
 
 						if (field == 8)
 							header.description = std::string(reinterpret_cast<char *>(term.address()), term.size());
@@ -731,7 +770,8 @@ namespace JASS
 					else
 						return FAIL;
 					}
-				return OK;
+
+				return header.num_postings_lists < 0 || header.num_docs < 0 ? FAIL : OK;
 				}
 
 		public:
@@ -744,15 +784,29 @@ namespace JASS
 				@param source_file [in] a Pointer to the protobuf file once already read into memory.
 				@param source_file_length [in] The length (in bytes) of the source file once in memory.
 			*/
-			ciff_lin(const uint8_t *source_file) :
+			ciff_lin(const uint8_t *source_file, size_t source_file_length) :
 				source_file(source_file),
+				source_end(source_file + source_file_length),
 				stream(source_file),
 				status(OK)
 				{
-				read_header(ciff_header);
+				status = read_header(ciff_header);
 				ciff_header.text_render();
 				}
 
+			/*
+				CIFF_LIN::AT_END()
+				------------------
+			*/
+			/*!
+				@brief Has everything in the file been read?
+				@return true if there is nothing left to read
+			*/
+			bool at_end(void) const
+				{
+				return stream == source_end;
+				}
+
 			/*
 				CIFF_LIN::POSTINGS()
 				--------------------
diff --git a/tools/ciff_to_JASS.cpp b/tools/ciff_to_JASS.cpp
index e29ccc5..317b092 100644
--- a/tools/ciff_to_JASS.cpp
+++ b/tools/ciff_to_JASS.cpp
@@ -161,12 +161,15 @@ int main(int argc, const char *argv[])
 	*/
 	std::cout << "READ THE CIFF INTO MEMORY\n";
 	if (JASS::file::read_entire_file(argv[1], file) == 0)
-		exit(printf("Can't read file:%s\n", argv[1]));
+		{
+		printf("Can't read file:%s\n", argv[1]);
+		exit(1);
+		}
 
 	/*
 		set up the protobuf reader
 	*/
-	JASS::ciff_lin source((uint8_t *)&file[0]);
+	JASS::ciff_lin source((uint8_t *)&file[0], file.size());
 
 	/*
 		go list at a time, adding each one to the index
@@ -201,7 +204,10 @@ int main(int argc, const char *argv[])
 		check that we got to the end
 	*/
 	if (source.status == JASS::ciff_lin::FAIL)
-		exit(printf("File is not in the correct format\n"));
+		{
+		printf("File is not in the correct format\n");
+		exit(1);
+		}
 
 	/*
 		Generate the length vector and the public key vector
@@ -219,11 +225,20 @@ int main(int argc, const char *argv[])
 		if (last_docid != static_cast<JASS::compress_integer::integer>(docid.docid))
 			{
 			std::cout << "Document IDs must be ordered\n";
-			exit(0);
+			exit(1);
 			}
 		last_docid = docid.docid + 1;
 		}
 
+	/*
+		check that we got to the end, and that it is the end
+	*/
+	if (source.status == JASS::ciff_lin::FAIL || !source.at_end())
+		{
+		printf("File is not in the correct format\n");
+		exit(1);
+		}
+
 	/*
 		set the length vector and the primary key vector
 	*/
diff --git a/tools/protobuf.h b/tools/protobuf.h
index 88b0765..459e014 100644
--- a/tools/protobuf.h
+++ b/tools/protobuf.h
@@ -80,29 +80,23 @@ namespace JASS
 				"Each byte in a varint, except the last byte, has the most significant bit (msb) set - this indicates
 				that there are further bytes to come. The lower 7 bits of each byte are used to store the two's complement
 				representation of the number in groups of 7 bits, least significant group first."
+				@param into [out] The decoded integer.
 				@param stream [in, out] A reference to a pointer to the start of the value, points to the next byte on return.
-				@return The decoded integer
+				@param end [in] The end of the stream, nothing is read from there on.
+				@return true on success, false if the stream ends before the value does or the value does not fit in 64 bits
 			*/
-			uint64_t static get_uint64_t(const uint8_t *&stream)
+			inline static bool get_uint64_t(uint64_t &into, const uint8_t *&stream, const uint8_t *end)
 				{
-				uint64_t got;
-				uint64_t next;
-				uint8_t shift = 0;
-
-				if (((got = *stream++) & 0x80) == 0)
-					return got;
-
-				got &= 0x7F;
-
-				while (1)
+				into = 0;
+				for (uint32_t shift = 0; shift < 64 && stream < end; shift += 7)
 					{
-					shift += 7;
-					if (((next = *stream++) & 0x80) == 0)
-						return got | next << shift;
-					got |= (next & 0x7F) << shift;
+					uint64_t next = *stream++;
+					into |= (next & 0x7F) << shift;
+					if ((next & 0x80) == 0)
+						return true;
 					}
 
-				return got;
+				return false;
 				}
 
 			/*
@@ -111,12 +105,18 @@ namespace JASS
 			*/
 			/*
 				@brief Read and decode a signed 64-bit VARINT integer.
+				@param into [out] The decoded integer.
 				@param stream [in, out] A reference to a pointer to the start of the value, points to the next byte on return.
-				@return The decoded integer
+				@param end [in] The end of the stream, nothing is read from there on.
+				@return true on success, false if the stream ends before the value does or the value does not fit in 64 bits
 			*/
-			inline static uint64_t get_int64_t(const uint8_t *&stream)
+			inline static bool get_int64_t(int64_t &into, const uint8_t *&stream, const uint8_t *end)
 				{
-				return un_zigzag(get_uint64_t(stream));
+				uint64_t value;
+
+				bool success = get_uint64_t(value, stream, end);
+				into = un_zigzag(value);
+				return success;
 				}
 
 			/*
@@ -125,12 +125,18 @@ namespace JASS
 			*/
 			/*
 				@brief Read and decode an unsigned 32-bit VARINT integer.
+				@param into [out] The decoded integer.
 				@param stream [in, out] A reference to a pointer to the start of the value, points to the next byte on return.
-				@return The decoded integer
+				@param end [in] The end of the stream, nothing is read from there on.
+				@return true on success, false if the stream ends before the value does or the value does not fit in 64 bits
 			*/
-			inline static uint32_t get_uint32_t(const uint8_t *&stream)
+			inline static bool get_uint32_t(uint32_t &into, const uint8_t *&stream, const uint8_t *end)
 				{
-				return static_cast<uint32_t>(un_zigzag(get_uint64_t(stream)));
+				uint64_t value;
+
+				bool success = get_uint64_t(value, stream, end);
+				into = static_cast<uint32_t>(un_zigzag(value));
+				return success;
 				}
 
 			/*
@@ -139,12 +145,18 @@ namespace JASS
 			*/
 			/*
 				@brief Read and decode a signed 32-bit VARINT integer.
+				@param into [out] The decoded integer.
 				@param stream [in, out] A reference to a pointer to the start of the value, points to the next byte on return.
-				@return The decoded integer
+				@param end [in] The end of the stream, nothing is read from there on.
+				@return true on success, false if the stream ends before the value does or the value does not fit in 64 bits
 			*/
-			inline static int32_t get_int32_t(const uint8_t *&stream)
+			inline static bool get_int32_t(int32_t &into, const uint8_t *&stream, const uint8_t *end)
 				{
-				return static_cast<int32_t>(un_zigzag(get_uint64_t(stream)));
+				uint64_t value;
+
+				bool success = get_uint64_t(value, stream, end);
+				into = static_cast<int32_t>(un_zigzag(value));
+				return success;
 				}
 
 			/*
@@ -155,16 +167,22 @@ namespace JASS
 				@brief Read and decode a blob or string.
 				@details The spec (https://developers.google.com/protocol-buffers/docs/encoding) states:
 				"The value is a varint encoded length followed by the specified number of bytes of data."
+				@param into [out] A slice of stream containing the blob.
 				@param stream [in,out] A reference to a pointer to the start of the value, points to the next byte on return.
-				@return A slice of stream containing the blob
+				@param end [in] The end of the stream, nothing is read from there on.
+				@return true on success, false if the stream ends before the blob does
 			*/
-			inline static slice get_blob(const uint8_t *&stream)
+			inline static bool get_blob(slice &into, const uint8_t *&stream, const uint8_t *end)
 				{
-				size_t length = get_uint64_t(stream);
-				const uint8_t *at = &stream[0];
+				uint64_t length;
+
+				if (!get_uint64_t(length, stream, end) || length > static_cast<uint64_t>(end - stream))
+					return false;
+
+				into = slice(const_cast<uint8_t *>(stream), length);
 				stream += length;
 
-				return slice(const_cast<uint8_t *>(at), length);
+				return true;
 				}
 
 			/*
@@ -228,10 +246,12 @@ namespace JASS
 				@details The spec (https://developers.google.com/protocol-buffers/docs/encoding) states:
 				"Non-varint numeric types are simple – double and fixed64 have wire type 1, which tells the parser to expect a fixed 64-bit lump of data"
 				and "the values are stored in little-endian byte order."
+				@param into [out] The decoded number.
 				@param stream [in, out] A reference to a pointer to the start of the value, points to the next byte on return.
-				@return The decoded integer
+				@param end [in] The end of the stream, nothing is read from there on.
+				@return true on success, false if the stream ends before the number does
 			*/
-			inline static double get_double(const uint8_t *&stream)
+			inline static bool get_double(double &into, const uint8_t *&stream, const uint8_t *end)
 			{
 			union
 				{
@@ -239,8 +259,12 @@ namespace JASS
 				double number;
 				} answer;
 
+			if (end - stream < 8)
+				return false;
+
 			answer.byte_sequence = get_64_t(stream);
-			return answer.number;
+			into = answer.number;
+			return true;
 			}
 
 			/*
@@ -252,17 +276,23 @@ namespace JASS
 				@details The spec (https://developers.google.com/protocol-buffers/docs/encoding) states:
 				"Each key in the streamed message is a varint with the value (field_number << 3) | wire_type" ...
 				"in other words, the last three bits of the number store the wire type.".
+				@param field [out] The number of the field
 				@param type [out] The type of the field
 				@param stream [in, out] A reference to a pointer to the start of the value, points to the next byte on return.
-				@return The number of the field
+				@param end [in] The end of the stream, nothing is read from there on.
+				@return true on success, false at the end of the stream
 			*/
-			static uint8_t get_type_and_field(wire_type &type, const uint8_t *&stream)
+			static bool get_type_and_field(uint8_t &field, wire_type &type, const uint8_t *&stream, const uint8_t *end)
 				{
+				if (stream >= end)
+					return false;
+
 				uint8_t encoding = *stream++;
 
 				type = static_cast<wire_type>(encoding & 0x07);
+				field = encoding >> 3;
 
-				return encoding >> 3;
+				return true;
 				}
 		} ;
 	}
-- 
2.43.0


From c3797794e0eca1360160dd7471305ca1dbdc38d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:04 +0000
Subject: [PATCH 47/55] fix: ciff_to_JASS converts lists that are empty,
 repeated, or not of increasing documents of the collection

---
 tools/ciff_to_JASS.cpp | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/tools/ciff_to_JASS.cpp b/tools/ciff_to_JASS.cpp
index 317b092..255f53f 100644
--- a/tools/ciff_to_JASS.cpp
+++ b/tools/ciff_to_JASS.cpp
@@ -25,6 +25,8 @@
 
 #include <iostream>
 #include <string.h>
+#include <string_view>
+#include <unordered_set>
 
 #include "file.h"
 #include "maths.h"
@@ -176,6 +178,7 @@ int main(int argc, const char *argv[])
 	*/
 	std::cout << "PROCESS THE POSTINGS LISTS\n";
 	size_t term_count = 0;
+	std::unordered_set<std::string_view> vocabulary;
 	size_t total_terms = source.get_header().num_postings_lists;
 	size_t total_documents = source.get_header().total_docs;
 	size_t percent_threshold = JASS::maths::maximum(total_terms / 100, (size_t)1);
@@ -189,6 +192,23 @@ int main(int argc, const char *argv[])
 			std::cout << " " << posting.document_frequency << " " << posting.collection_frequency << ":\n";
 			}
 
+		/*
+			Each term has one list, of one or more increasing document ids, all of which are in the collection
+		*/
+		bool valid = posting.postings.size() != 0 && vocabulary.insert(std::string_view(reinterpret_cast<char *>(posting.term.address()), posting.term.size())).second;
+		uint64_t docid = 0;
+		for (size_t which = 0; which < posting.postings.size(); which++)
+			{
+			docid += posting.postings[which].docid;
+			if (docid >= static_cast<uint64_t>(source.get_header().num_docs) || (which != 0 && posting.postings[which].docid == 0))
+				valid = false;
+			}
+		if (!valid)
+			{
+			source.status = JASS::ciff_lin::FAIL;
+			break;
+			}
+
 		/*
 			CIFF counts from documentID = 0, but JASS indexing counts from documentID = 1,
 			so we increment the first docid (as the others are d-gaps).
-- 
2.43.0


From 94452f3f822e96ef1a19739dd372b982bda0d84d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:32 +0000
Subject: [PATCH 48/55] fix: a uniCOIL weight above 65535 is stored as the
 weight of the previous term

---
 source/parser_unicoil_json.h | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/source/parser_unicoil_json.h b/source/parser_unicoil_json.h
index da19741..d86adf6 100644
--- a/source/parser_unicoil_json.h
+++ b/source/parser_unicoil_json.h
@@ -145,14 +145,17 @@ namespace JASS
 				*/
 				current_token.lexeme = slice((void *)current_token.buffer, (void *)buffer_pos);
 				current_token.type = token::alpha;
-				std::from_chars((char *)count_start, (char *)count_finish, current_token.count);
+				size_t count = 0;
+				if (std::from_chars((char *)count_start, (char *)count_finish, count).ec == std::errc::result_out_of_range)
+					count = (std::numeric_limits<decltype(count)>::max)();
 
-				if (current_token.count > index_postings_impact::largest_impact)
+				if (count > index_postings_impact::largest_impact)
 					{
 					std::cout << current_token.lexeme;
-					std::cout << " " << current_token.count << "\n";
-					current_token.count = index_postings_impact::largest_impact;
+					std::cout << " " << count << "\n";
+					count = index_postings_impact::largest_impact;
 					}
+				current_token.count = static_cast<index_postings_impact::impact_type>(count);
 
 				return current_token.count > 0 ? current_token : get_next_token();
 				}
-- 
2.43.0


From 04a41bb9fe7f635fd132fa54d042db8557aa95e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:33 +0000
Subject: [PATCH 49/55] fix: a query of more than 254 distinct terms returned
 documents twice with meaningless scores

---
 anytime/JASS_anytime_api.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/anytime/JASS_anytime_api.cpp b/anytime/JASS_anytime_api.cpp
index afdddb9..dd44339 100755
--- a/anytime/JASS_anytime_api.cpp
+++ b/anytime/JASS_anytime_api.cpp
@@ -495,7 +495,7 @@ void JASS_anytime_api::anytime(JASS_anytime_thread_result &output, std::vector<J
 		uint32_t largest_possible_rsv = (std::numeric_limits<decltype(largest_possible_rsv)>::min)();
 		uint32_t largest_possible_rsv_with_overflow;
 		uint32_t smallest_possible_rsv = (std::numeric_limits<decltype(smallest_possible_rsv)>::max)();
-		uint32_t query_terms_count = local.jass_query->terms().size();
+		uint32_t query_terms_count = 0;						// the number of query terms that are in the index
 		uint64_t total_postings_for_query = 0;
 //std::cout << "\n";
 		for (const auto &term : local.jass_query->terms())
@@ -522,6 +522,7 @@ void JASS_anytime_api::anytime(JASS_anytime_thread_result &output, std::vector<J
 				Compute the largest and smallest possible rsv values
 			*/
 			largest_possible_rsv += term_largest_impact;
+			query_terms_count++;
 			smallest_possible_rsv = JASS::maths::minimum(smallest_possible_rsv, (decltype(smallest_possible_rsv))term_smallest_impact);
 			}
 
@@ -596,7 +597,13 @@ void JASS_anytime_api::anytime(JASS_anytime_thread_result &output, std::vector<J
 		for (auto *header = local.segment_order.get(); header < current_segment; header++)
 			{
 			if (scale_rsv_scores)
-				header->impact = (JASS::query::ACCUMULATOR_TYPE)((double)header->impact / (double)largest_possible_rsv_with_overflow * ((double)JASS::query::MAX_RSV - query_terms_count) + 1);
+				{
+				double proportion = (double)header->impact / (double)largest_possible_rsv_with_overflow;
+				if (query_terms_count < JASS::query::MAX_RSV)
+					header->impact = (JASS::query::ACCUMULATOR_TYPE)(proportion * ((double)JASS::query::MAX_RSV - query_terms_count) + 1);
+				else
+					header->impact = (JASS::query::ACCUMULATOR_TYPE)(proportion * (double)JASS::query::MAX_RSV);		// too many terms for each to count for at least 1
+				}
 
 //std::cout << "Process Segment->(" << header->impact << ":" << header->segment_frequency << ")\n";
 			/*
@@ -607,6 +614,8 @@ void JASS_anytime_api::anytime(JASS_anytime_thread_result &output, std::vector<J
 			if (postings_processed + header->segment_frequency > postings_to_process_this_query)
 				break;
 			postings_processed += header->segment_frequency;
+			if (header->impact == 0)
+				continue;				// scaled down to nothing
 
 			/*
 				Process the postings
-- 
2.43.0


From 25efee0c63bd0ee207b385e8ba8be4634d24a380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:33 +0000
Subject: [PATCH 50/55] fix: JASSv1_to_human carried on, and reported success,
 when the index could not be read

The return value of read_index() was ignored: without an index it printed an
empty listing, terms without names or postings, and exited with 0.
---
 tools/JASSv1_to_human.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tools/JASSv1_to_human.cpp b/tools/JASSv1_to_human.cpp
index c6167c7..38304e3 100755
--- a/tools/JASSv1_to_human.cpp
+++ b/tools/JASSv1_to_human.cpp
@@ -251,7 +251,8 @@ int main(int argc, const char *argv[])
 		else
 			index = new JASS::deserialised_jass_v1(false);
 
-		index->read_index();
+		if (index->read_index() == 0)
+			exit(printf("Cannot read the index\n"));
 
 		/*
 			Get the encoding scheme and the d-ness of the index
-- 
2.43.0


From a5ba2da3f2ec5ab55a49e01a5a3ef4b4549dc49d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:33 +0000
Subject: [PATCH 51/55] fix: JASSv1_to_human printed impacts above 255 modulo
 256

The decoder keeps the impact in an accumulator (8 bits), so a posting with an
impact of 369 was printed as 113.  Give the printer the impact in the header.
---
 tools/JASSv1_to_human.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/tools/JASSv1_to_human.cpp b/tools/JASSv1_to_human.cpp
index 38304e3..2532a26 100755
--- a/tools/JASSv1_to_human.cpp
+++ b/tools/JASSv1_to_human.cpp
@@ -104,9 +104,9 @@ class printer
 		/*!
 			@brief print the posting
 			@param document [in] The document identifier (docid) used internally.
-			@param impact [in] The impact score of this term in this document.
+			@details The impact is the one given to set_score(), the one the decoder passes has been cut to the width of an accumulator.
 		*/
-		void add_rsv(uint64_t document, uint64_t impact)
+		void add_rsv(uint64_t document, uint64_t)
 			{
 			std::cout << '<' << document << ',' << impact << '>';
 			}
@@ -145,6 +145,7 @@ void walk_index_v1(JASS::deserialised_jass_v1 &index, JASS::compress_integer &de
 				const JASS::deserialised_jass_v1::segment_header_on_disk &header = *reinterpret_cast<const JASS::deserialised_jass_v1::segment_header_on_disk *>(index.postings() + *postings);
 
 				decompressor.set_impact(header.impact);
+				out_stream.set_score(header.impact);
 				decompressor.decode_with_writer(out_stream, header.segment_frequency, index.postings() + header.offset, header.end - header.offset);
 				}
 			}
@@ -198,6 +199,7 @@ void walk_index_v2(JASS::deserialised_jass_v1 &index, JASS::compress_integer &de
 //std::cout << "\n";
 
 				decompressor.set_impact(header.impact);
+				out_stream.set_score(header.impact);
 				decompressor.decode_with_writer(out_stream, header.segment_frequency, segment_header_pointer + header.offset, header.end);
 				}
 			}
-- 
2.43.0


From d8f9c2fa2facf0d096ee9442dc30226aab04d71a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:33 +0000
Subject: [PATCH 52/55] fix: JASSv1_to_human and JASS_eval reported success
 when their output could not be written

---
 tools/JASS_eval.cpp       | 5 +++++
 tools/JASSv1_to_human.cpp | 6 ++++++
 2 files changed, 11 insertions(+)

diff --git a/tools/JASS_eval.cpp b/tools/JASS_eval.cpp
index 4ce053d..97b1886 100644
--- a/tools/JASS_eval.cpp
+++ b/tools/JASS_eval.cpp
@@ -1184,5 +1184,10 @@ int main(int argc, const char *argv[])
 	/*
 		Done.
 	*/
+	if (!std::cout.flush())
+		{
+		std::cerr << "Cannot write the output\n";
+		return 1;
+		}
 	return 0;
 	}
diff --git a/tools/JASSv1_to_human.cpp b/tools/JASSv1_to_human.cpp
index 2532a26..ddf9bb8 100755
--- a/tools/JASSv1_to_human.cpp
+++ b/tools/JASSv1_to_human.cpp
@@ -295,5 +295,11 @@ int main(int argc, const char *argv[])
 		std::cout << "Unknown exception\n";
 		return 1;
 		}
+
+	if (!std::cout.flush())
+		{
+		std::cerr << "Cannot write the output\n";
+		return 1;
+		}
 	return 0;
 	}
-- 
2.43.0


From d049c57fc61d44653c01e7f6355a835f84947d7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:33 +0000
Subject: [PATCH 53/55] fix: JASS_eval printed the average precision as the
 rank biased precision

---
 tools/JASS_eval.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/JASS_eval.cpp b/tools/JASS_eval.cpp
index 97b1886..25a065d 100644
--- a/tools/JASS_eval.cpp
+++ b/tools/JASS_eval.cpp
@@ -833,7 +833,7 @@ metric_set evaluate_query(const std::string &run_id, const std::string &query_id
 	double map = evaluate_map_computer.compute(query_id, results_list, depth);
 
 	JASS::evaluate_rank_biased_precision evaluate_rbp_computer(parameter_probability, gold_standard_assessments);
-	double rbp = evaluate_map_computer.compute(query_id, results_list, depth);
+	double rbp = evaluate_rbp_computer.compute(query_id, results_list, depth);
 
 	size_t number_of_relvant_assessments = evaluate_map_computer.relevance_count(query_id);
 
-- 
2.43.0


From 539509b673b71b0421292e9c8be410d4ff784d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:58 +0000
Subject: [PATCH 54/55] fix: trec_to_query took a topic file it could not read
 for an empty one and ignored output errors

---
 tools/trec_to_query.cpp | 29 +++++++++++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/tools/trec_to_query.cpp b/tools/trec_to_query.cpp
index 11fa787..3e19e6b 100755
--- a/tools/trec_to_query.cpp
+++ b/tools/trec_to_query.cpp
@@ -7,8 +7,15 @@
 	Read a TREC topic file and turn into a JASS query file.
 */
 
-#include "channel_file.h"
+#include <string.h>
+
+#include <memory>
+#include <string>
+#include <iostream>
+
+#include "file.h"
 #include "channel_trec.h"
+#include "channel_buffer.h"
 /*
 	USAGE()
 	-------
@@ -30,7 +37,19 @@ int main(int argc, char *argv[])
 		if (argc != 2)
 			exit(usage(argv[0]));
 
-		std::unique_ptr<JASS::channel> source(new JASS::channel_file(argv[1]));
+		/*
+			Read the whole topic file first so that not being able to read it (or only part of it) isn't mistaken for the end of the topics.
+		*/
+		std::string file;
+		if (JASS::file::read_entire_file(argv[1], file) == 0)
+			{
+			std::cerr << "Cannot read " << argv[1] << '\n';
+			return 1;
+			}
+		std::shared_ptr<char> contents(new char [file.size() + 1], [](char *pointer) {delete [] pointer;});
+		memcpy(contents.get(), file.c_str(), file.size() + 1);
+
+		std::unique_ptr<JASS::channel> source(new JASS::channel_buffer(contents));
 		JASS::channel_trec infile(source, "t");
 
 		std::string query;
@@ -40,6 +59,12 @@ int main(int argc, char *argv[])
 			std::cout << query << '\n';
 			}
 		while (query.size() != 0);
+
+		if (!std::cout.flush())
+			{
+			std::cerr << "Cannot write the queries\n";
+			return 1;
+			}
 		}
 	catch (...)
 		{
-- 
2.43.0


From d08a7edcf9c391f8e01c0a2ee8d44911324ce0e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:58 +0000
Subject: [PATCH 55/55] fix: bin_to_human took a cut off or unreadable dump for
 a complete one and ignored output errors

---
 tools/bin_to_human.cpp | 40 ++++++++++++++++++++++++++++++++++------
 1 file changed, 34 insertions(+), 6 deletions(-)

diff --git a/tools/bin_to_human.cpp b/tools/bin_to_human.cpp
index 1987614..10df81b 100644
--- a/tools/bin_to_human.cpp
+++ b/tools/bin_to_human.cpp
@@ -35,7 +35,10 @@ int main(int argc, char *argv[])
 	if (argc == 2)
 		filename = argv[1];											// else the first parameter is the filename to use
 	else
-		exit(printf("Usage::%s <binfile>", argv[0]));
+		{
+		printf("Usage::%s <binfile>", argv[0]);
+		return 1;
+		}
 
 	/*
 		Initialise by setting the count buffers to 0
@@ -48,22 +51,32 @@ int main(int argc, char *argv[])
 	printf("Using:%s\n", filename);
 	FILE *fp;
 	if ((fp = fopen(filename, "rb")) == NULL)
-		exit(printf("Cannot open %s\n", filename));
+		{
+		fprintf(stderr, "Cannot open %s\n", filename);
+		return 1;
+		}
 
 	/*
 		Iterate through each postings list in the file
 	*/
 	uint32_t length;
-	while (fread(&length, sizeof(length), 1, fp)  == 1)
+	size_t bytes;
+	while ((bytes = fread(&length, 1, sizeof(length), fp)) == sizeof(length))
 		{
-		if (length > NUMBER_OF_DOCUMENTS * sizeof(*postings_list))
-			exit(printf("Too big"));
+		if (length > NUMBER_OF_DOCUMENTS)
+			{
+			fprintf(stderr, "Too big\n");
+			return 1;
+			}
 			
 		/*
 			Read one postings list (and make sure we did so successfully)
 		*/
 		if (fread(postings_list, sizeof(*postings_list), length, fp) != length)
-			exit(printf("i/o error\n"));
+			{
+			fprintf(stderr, "i/o error\n");
+			return 1;
+			}
 
 		printf("%u:", (unsigned)length);
 		for (uint32_t *where = postings_list; where < postings_list + length; where++)
@@ -71,7 +84,22 @@ int main(int argc, char *argv[])
 		printf("\n");
 		}
 
+	/*
+		Part of a length (or an error) is not the end of the file.
+	*/
+	if (bytes != 0 || ferror(fp))
+		{
+		fprintf(stderr, "i/o error\n");
+		return 1;
+		}
+
 	fclose(fp);
 
+	if (fflush(stdout) != 0 || ferror(stdout))
+		{
+		fprintf(stderr, "Cannot write the postings lists\n");
+		return 1;
+		}
+
 	return 0;
 	}
-- 
2.43.0

