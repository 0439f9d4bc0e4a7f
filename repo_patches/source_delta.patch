From 27c092a12acba16344c1494b8cbc12410c124621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:46 +0000
Subject: [PATCH 01/45] fix: rbuf_read_to_end is negative when a full buffer
 spans the 16-bit counter wrap

---
 src/core/read_buffer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/read_buffer.cpp b/src/core/read_buffer.cpp
index b381b1e..b06849d 100644
--- a/src/core/read_buffer.cpp
+++ b/src/core/read_buffer.cpp
@@ -159,7 +159,7 @@ int rbuf_read_to_end(struct read_buffer* buffer) {
 
 	uint16_t to_end = (buffer->read_position & (BUFFER_SIZE - 1));
 	if (to_end <= (buffer->write_position & (BUFFER_SIZE - 1))) {
-		return buffer->write_position - buffer->read_position;
+		return RBUF_READLENPTR(buffer);
 	}
 	else{
 		return BUFFER_SIZE - to_end;
-- 
2.43.0


From b13bd2c8bb35f3e070d1568dc43de43f4df37542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:05 +0000
Subject: [PATCH 02/45] fix: ring buffer readers run past the end of a full,
 wrapped buffer

---
 src/core/http_parse.cpp       |  2 +-
 src/core/http_parse_cache.cpp |  2 +-
 src/core/read_buffer.cpp      | 12 ++++++++----
 src/core/read_buffer.h        |  9 ++++++++-
 4 files changed, 18 insertions(+), 7 deletions(-)

diff --git a/src/core/http_parse.cpp b/src/core/http_parse.cpp
index c86f097..a0fa38a 100644
--- a/src/core/http_parse.cpp
+++ b/src/core/http_parse.cpp
@@ -28,7 +28,7 @@
 
 void skip_over_newlines(struct read_buffer* rb) {
 	char* buffer;
-	int end = rbuf_read_to_end(rb);
+	int end = rbuf_read_contiguous(rb);
 
 	//Nothing to skip
 	if (end == 0) {
diff --git a/src/core/http_parse_cache.cpp b/src/core/http_parse_cache.cpp
index 2edf4be..92e8a07 100644
--- a/src/core/http_parse_cache.cpp
+++ b/src/core/http_parse_cache.cpp
@@ -671,7 +671,7 @@ state_action http_cache_handle_headers(scache_connection* connection) {
 
 state_action http_cache_handle_request_body(scache_connection* connection) {
 	DEBUG("[#%d] Handling STATE_REQUESTBODY\n", connection->client_sock);
-	int max_write = rbuf_read_to_end(&connection->input);
+	int max_write = rbuf_read_contiguous(&connection->input);
 	assert(max_write >= 0);
 	int to_write = connection->cache.target.key.end_position - connection->cache.target.key.position;
 	assert(to_write >= 0);
diff --git a/src/core/read_buffer.cpp b/src/core/read_buffer.cpp
index b06849d..42a88ad 100644
--- a/src/core/read_buffer.cpp
+++ b/src/core/read_buffer.cpp
@@ -13,7 +13,7 @@ int rbuf_copyn(struct read_buffer* buffer, char* dest, int n) {
 	assert(dest != NULL);
 	rbuf_debug_check(buffer);
 	assert(n <= BUFFER_SIZE);
-	int to_end = rbuf_read_to_end(buffer);
+	int to_end = rbuf_read_contiguous(buffer);
 
 	if (n == 0) {
 		//No bytes to be read
@@ -40,7 +40,6 @@ int rbuf_copyn(struct read_buffer* buffer, char* dest, int n) {
 	to_end = rbuf_read_remaining(buffer) - to_end;
 	if (to_end != 0) {
 		//Dont read more than needed
-		assert(to_end <= n);
 		if (to_end > n) {
 			to_end = n;
 		}
@@ -72,7 +71,7 @@ int rbuf_cmpn(struct read_buffer* buffer, const char* with, int n) {
 	}
 
 	//Read the maximum we can / want
-	to_end = rbuf_read_to_end(buffer);
+	to_end = rbuf_read_contiguous(buffer);
 	if (n < to_end) {
 		to_end = n;
 	}
@@ -97,7 +96,7 @@ bool rbuf_strntol(struct read_buffer* buffer, int* output, int max)
 {
 	rbuf_debug_check(buffer);
 	int result = 0;
-	int n = rbuf_read_to_end(buffer);
+	int n = rbuf_read_contiguous(buffer);
 	if (max != -1 && max < n) {
 		n = max;
 		max -= n;
@@ -165,6 +164,11 @@ int rbuf_read_to_end(struct read_buffer* buffer) {
 		return BUFFER_SIZE - to_end;
 	}
 }
+int rbuf_read_contiguous(struct read_buffer* buffer) {
+	int to_end = rbuf_read_to_end(buffer);
+	int to_wrap = BUFFER_SIZE - (buffer->read_position & (BUFFER_SIZE - 1));
+	return to_end < to_wrap ? to_end : to_wrap;
+}
 int rbuf_write_remaining(struct read_buffer* buffer) {
 	rbuf_debug_check(buffer);
 	return RBUF_WRITELENPTR(buffer);
diff --git a/src/core/read_buffer.h b/src/core/read_buffer.h
index bf9e09c..810bd47 100644
--- a/src/core/read_buffer.h
+++ b/src/core/read_buffer.h
@@ -51,6 +51,13 @@ until the end (highest index)
 */
 int rbuf_read_to_end(struct read_buffer* buffer);
 
+/*
+Get the number of bytes that can be read before the buffer wraps
+around. Unlike rbuf_read_to_end this never exceeds the distance to
+the highest index, also if the buffer is full.
+*/
+int rbuf_read_contiguous(struct read_buffer* buffer);
+
 /*
 Get the number of bytes that can be written until maximum
 capacity.
@@ -132,7 +139,7 @@ Move the write offset
 Helper to Iterate over circular buffer
 */
 #define RBUF_ITERATE(rb,n,buffer,end,ret,inner) do { \
-	end = rbuf_read_to_end(&rb); \
+	end = rbuf_read_contiguous(&rb); \
 	n = 0; \
 	if (end != 0) { \
 		buffer = RBUF_READ(rb); \
-- 
2.43.0


From afae891410b08a85273916d2d33c8e2497355fb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:05 +0000
Subject: [PATCH 03/45] fix: rbuf_strntol misparses numbers that wrap around,
 overflow or are empty

---
 src/core/read_buffer.cpp | 31 +++++++++++++++++++++++--------
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/src/core/read_buffer.cpp b/src/core/read_buffer.cpp
index 42a88ad..94ae037 100644
--- a/src/core/read_buffer.cpp
+++ b/src/core/read_buffer.cpp
@@ -1,4 +1,5 @@
 #include <assert.h>
+#include <limits.h>
 #include <string.h>
 #include "read_buffer.h"
 #include "debug.h"
@@ -97,42 +98,56 @@ bool rbuf_strntol(struct read_buffer* buffer, int* output, int max)
 	rbuf_debug_check(buffer);
 	int result = 0;
 	int n = rbuf_read_contiguous(buffer);
-	if (max != -1 && max < n) {
+	if (max == -1 || max > rbuf_read_remaining(buffer)) {
+		max = rbuf_read_remaining(buffer);
+	}
+	if (max <= 0) {
+		return false;
+	}
+	if (max < n) {
 		n = max;
-		max -= n;
 	}
+	max -= n;
 
 	char* buf = RBUF_READPTR(buffer);
 
 	//Handle forward
 	while (n--)
 	{
-		result *= 10;
 		int number = (*buf++) - '0';
 
 		if (number > 9 || number < 0) {
 			DEBUG("Expected number got char %c\n", (unsigned char)(*(buf - 1)));
 			return false;
 		}
+		if (result > (INT_MAX - number) / 10) {
+			DEBUG("Number out of range\n");
+			return false;
+		}
+		result *= 10;
 		result += number;
 	}
 
 	if (max != 0) {
 		//How many after roll over?
-		n = rbuf_read_remaining(buffer) - n;
+		n = max;
 		buf = RBUF_STARTPTR(buffer);
 
 		//Handle rollover
 		while (n--)
 		{
-			result *= 10;
-			int n = (*buf++) - '0';
+			int number = (*buf++) - '0';
 
-			if (n > 9 || n < 0) {
+			if (number > 9 || number < 0) {
 				DEBUG("Expected number got char %c\n", (unsigned char)(*(buf - 1)));
 				return false;
 			}
-			result += n;
+			if (result > (INT_MAX - number) / 10) {
+				DEBUG("Number out of range\n");
+				return false;
+			}
+			result *= 10;
+			result += number;
 		}
 	}
 
-- 
2.43.0


From 12173c75b915382969fa0f5bb1edd189648ab698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:51 +0000
Subject: [PATCH 04/45] fix: destroying a deleted table removes a newer table
 of the same name

---
 src/core/db.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/db.cpp b/src/core/db.cpp
index 3a01b23..a76c2cf 100644
--- a/src/core/db.cpp
+++ b/src/core/db.cpp
@@ -261,7 +261,7 @@ void db_table_actually_delete(db_table* entry) {
 
 	//Remove table from database
 	khiter_t k = kh_get(table, db.tables, entry->hash);
-	if (k != kh_end(db.tables)) {
+	if (k != kh_end(db.tables) && kh_value(db.tables, k) == entry) {
 		kh_del(table, db.tables, k);
 	}
 
-- 
2.43.0


From 8739aabb1e8910911cc6afc65f838a5964127f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:51 +0000
Subject: [PATCH 05/45] fix: deleting a table uses entries after they are freed
 and miscounts the keys

---
 src/core/db.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/core/db.cpp b/src/core/db.cpp
index a76c2cf..792f385 100644
--- a/src/core/db.cpp
+++ b/src/core/db.cpp
@@ -1222,8 +1222,10 @@ void db_table_handle_delete(db_table* table, khiter_t k) {
 		if (kh_exist(table->cache_hash_set, ke)) {
 			cache_entry* ce = kh_val(table->cache_hash_set, ke);
 			if (!ce->deleted) {
+				//May free the entry
 				db_entry_handle_softdelete(ce, ke);
-				db_entry_cleanup(ce);
+				assert(db.db_keys != 0);
+				db.db_keys--;
 			}
 		}
 	}
-- 
2.43.0


From bfd86d648fd813b0ff9376a711aca4babe20cc79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:51 +0000
Subject: [PATCH 06/45] fix: two connections deleting the same key or table
 delete it twice

---
 src/core/db.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/core/db.cpp b/src/core/db.cpp
index 792f385..628fce8 100644
--- a/src/core/db.cpp
+++ b/src/core/db.cpp
@@ -1192,6 +1192,9 @@ static void db_entry_cleanup(cache_entry* entry) {
 }
 
 bool db_entry_handle_delete(cache_entry* entry) {
+	//Already deleted by another connection
+	if (entry->deleted) return false;
+
 	khiter_t k = kh_get(entry, entry->table->cache_hash_set, entry->hash);
 
 	return db_entry_handle_delete(entry, k);
@@ -1235,6 +1238,9 @@ void db_table_handle_delete(db_table* table, khiter_t k) {
 
 
 void db_table_handle_delete(db_table* table) {
+	//Already deleted by another connection
+	if (table->deleted) return;
+
 	khiter_t k = kh_get(table, db.tables, table->hash);
 
 	return db_table_handle_delete(table, k);
-- 
2.43.0


From eb86af07e80befd0ef0d329e9902f53e09d8f783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:51 +0000
Subject: [PATCH 07/45] fix: requests on a table deleted by another connection
 use its released key set

---
 src/core/db.cpp | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/core/db.cpp b/src/core/db.cpp
index 628fce8..7f0efc0 100644
--- a/src/core/db.cpp
+++ b/src/core/db.cpp
@@ -866,6 +866,12 @@ void db_table_close(db_table* table) {
 }
 
 cache_entry* db_entry_get_read(struct db_table* table, char* key, size_t length) {
+	//Deleted by another connection since it was looked up
+	if (table->deleted) {
+		free(key);
+		return NULL;
+	}
+
 	uint32_t hash = hash_string(key, length);
 
 	khiter_t k = kh_get(entry, table->cache_hash_set, hash);
@@ -1054,6 +1060,12 @@ Get a Cache Entry to write
 cache_entry* db_entry_get_write(struct db_table* table, char* key, size_t length) {
 	assert(table->refs >= 1); //If not, it wouldnt be existing
 
+	//Deleted by another connection since it was looked up
+	if (table->deleted) {
+		free(key);
+		return NULL;
+	}
+
 	uint32_t hash = hash_string(key, length);
 	khiter_t k = kh_get(entry, table->cache_hash_set, hash);
 	cache_entry* entry = k == kh_end(table->cache_hash_set) ? NULL : kh_value(table->cache_hash_set, k);
@@ -1121,6 +1133,12 @@ cache_entry* db_entry_get_write(struct db_table* table, char* key, size_t length
 Get a Cache Entry to delete
 */
 cache_entry* db_entry_get_delete(struct db_table* table, char* key, size_t length) {
+	//Deleted by another connection since it was looked up
+	if (table->deleted) {
+		free(key);
+		return NULL;
+	}
+
 	uint32_t hash = hash_string(key, length);
 	khiter_t k = kh_get(entry, table->cache_hash_set, hash);
 	cache_entry* entry = k == kh_end(table->cache_hash_set) ? NULL : kh_value(table->cache_hash_set, k);
@@ -1203,6 +1221,7 @@ bool db_entry_handle_delete(cache_entry* entry) {
 void db_delete_table_entry(db_table* table, khiter_t k, bool actually_delete = true) {
 	// Clear key hash table
 	kh_destroy(entry, table->cache_hash_set);
+	table->cache_hash_set = NULL;
 
 	// If not fully de-refed remove now, not later
 	if (table->refs != 0) {
-- 
2.43.0


From c67edef971da19b53124d3552db1d6c13b155190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:51 +0000
Subject: [PATCH 08/45] fix: deleting a table that never held an entry releases
 a reference it does not own

---
 src/core/db.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/core/db.cpp b/src/core/db.cpp
index 7f0efc0..c8b4e50 100644
--- a/src/core/db.cpp
+++ b/src/core/db.cpp
@@ -1218,7 +1218,7 @@ bool db_entry_handle_delete(cache_entry* entry) {
 	return db_entry_handle_delete(entry, k);
 }
 
-void db_delete_table_entry(db_table* table, khiter_t k, bool actually_delete = true) {
+void db_delete_table_entry(db_table* table, khiter_t k, bool had_entries = true, bool actually_delete = true) {
 	// Clear key hash table
 	kh_destroy(entry, table->cache_hash_set);
 	table->cache_hash_set = NULL;
@@ -1230,7 +1230,9 @@ void db_delete_table_entry(db_table* table, khiter_t k, bool actually_delete = t
 	}
 
 	//Remove reference holding table open
-	db_table_deref(table, actually_delete);
+	if (had_entries) {
+		db_table_deref(table, actually_delete);
+	}
 }
 
 
@@ -1239,6 +1241,9 @@ void db_table_handle_delete(db_table* table, khiter_t k) {
 	assert(!table->deleted);
 	table->deleted = true;
 
+	//Only a table with entries holds itself open
+	bool had_entries = kh_size(table->cache_hash_set) != 0;
+
 	//Delete keys from table
 	for (khiter_t ke = kh_begin(table->cache_hash_set); ke != kh_end(table->cache_hash_set); ++ke) {
 		if (kh_exist(table->cache_hash_set, ke)) {
@@ -1252,7 +1257,7 @@ void db_table_handle_delete(db_table* table, khiter_t k) {
 		}
 	}
 	
-	db_delete_table_entry(table, k);
+	db_delete_table_entry(table, k, had_entries);
 }
 
 
@@ -1296,7 +1301,7 @@ bool db_entry_handle_delete(cache_entry* entry, khiter_t k) {
 		entry->table->deleted = true;
 		k = kh_get(table, db.tables, entry->table->hash);
 		assert (k != kh_end(db.tables));
-		db_delete_table_entry(entry->table, k, true);
+		db_delete_table_entry(entry->table, k);
 		entry->table = NULL;
 		return true;
 	}
-- 
2.43.0


From 93cfc5608a0c8a248d5c5b9bb917e92ef1c08f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:51 +0000
Subject: [PATCH 09/45] fix: deleting the last key of a table leaks the table
 reference of the connection

---
 src/core/db.cpp               | 1 -
 src/core/http_parse_cache.cpp | 5 +----
 2 files changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/core/db.cpp b/src/core/db.cpp
index c8b4e50..729e705 100644
--- a/src/core/db.cpp
+++ b/src/core/db.cpp
@@ -1302,7 +1302,6 @@ bool db_entry_handle_delete(cache_entry* entry, khiter_t k) {
 		k = kh_get(table, db.tables, entry->table->hash);
 		assert (k != kh_end(db.tables));
 		db_delete_table_entry(entry->table, k);
-		entry->table = NULL;
 		return true;
 	}
 	return false;
diff --git a/src/core/http_parse_cache.cpp b/src/core/http_parse_cache.cpp
index 92e8a07..4315d37 100644
--- a/src/core/http_parse_cache.cpp
+++ b/src/core/http_parse_cache.cpp
@@ -546,10 +546,7 @@ static state_action http_read_header_extraction(scache_connection* connection, c
 				rbuf_copyn(&connection->input, key, length);
 				cache_entry* entry = db_entry_get_delete(connection->cache.target.table.table, key, length);
 				if (entry != NULL) {
-					if (db_entry_handle_delete(entry))
-					{
-						connection->cache.target.table.table = NULL;
-					}
+					db_entry_handle_delete(entry);
 					db_entry_deref(entry, false);
 				}
 			}
-- 
2.43.0


From 13be6c4bed18f7fd9509f69a2f56fdd9829fc2e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:51 +0000
Subject: [PATCH 10/45] fix: a table without entries stays behind when its last
 user is gone

---
 src/core/db.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/core/db.cpp b/src/core/db.cpp
index 729e705..b20fc0c 100644
--- a/src/core/db.cpp
+++ b/src/core/db.cpp
@@ -265,6 +265,11 @@ void db_table_actually_delete(db_table* entry) {
 		kh_del(table, db.tables, k);
 	}
 
+	//Never held an entry (otherwise released when it was deleted)
+	if (entry->cache_hash_set != NULL) {
+		kh_destroy(entry, entry->cache_hash_set);
+	}
+
 	//Free key
 	free(entry->key);
 	free(entry);
@@ -862,7 +867,7 @@ void db_target_entry_close(cache_target* target) {
 }
 
 void db_table_close(db_table* table) {
-	db_table_deref(table);
+	db_table_deref(table, true);
 }
 
 cache_entry* db_entry_get_read(struct db_table* table, char* key, size_t length) {
-- 
2.43.0


From 80a9d9c51406e1878e3125a63a7691770dceafd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:51 +0000
Subject: [PATCH 11/45] fix: entries restored from the index are never released

---
 src/core/db.cpp | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/core/db.cpp b/src/core/db.cpp
index b20fc0c..4ed7b38 100644
--- a/src/core/db.cpp
+++ b/src/core/db.cpp
@@ -573,9 +573,6 @@ static void db_load_from_save_insert(db_table* table, cache_entry* entry){
 	k = kh_put(entry, table->cache_hash_set, entry->hash, &ret);
 	kh_value(table->cache_hash_set, k) = entry;
 
-	//Refs
-	db_entry_incref(entry, false);
-
 	assert(!entry->deleted);
 	db.db_size_bytes += entry->data_length;
 }
-- 
2.43.0


From 2855c96c704ad938c41aa4bc1c32f5a371f7e065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:51 +0000
Subject: [PATCH 12/45] fix: block file size is computed in 32 bit

---
 src/core/db.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/db.cpp b/src/core/db.cpp
index 4ed7b38..a595c3b 100644
--- a/src/core/db.cpp
+++ b/src/core/db.cpp
@@ -183,7 +183,7 @@ void db_lru_hit(cache_entry* entry) {
 }
 
 static void db_block_size() {
-	if (ftruncate(db.fd_blockfile, db.blocks_exist*BLOCK_LENGTH) < 0) {
+	if (ftruncate(db.fd_blockfile, (off64_t)db.blocks_exist*BLOCK_LENGTH) < 0) {
 		PWARN("File truncation failed (length: %d)", db.blocks_exist);
 	}
 }
-- 
2.43.0


From dc0ab6348bce589000fa8e5914be9c6260eb189a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:51 +0000
Subject: [PATCH 13/45] fix: blanking a block file with a partial last block
 frees a block that does not exist

---
 src/core/db.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/db.cpp b/src/core/db.cpp
index a595c3b..70bd2e8 100644
--- a/src/core/db.cpp
+++ b/src/core/db.cpp
@@ -774,6 +774,7 @@ bool db_open(const char* path) {
 			if(ftruncate(db.fd_blockfile, (size / BLOCK_LENGTH) * BLOCK_LENGTH) == -1){
 				PFATAL("Failed to truncate blockfile %s", db.path_blockfile);
 			}
+			size = (size / BLOCK_LENGTH) * BLOCK_LENGTH;
 		}
 		for (off64_t i = 0; i < size; i += BLOCK_LENGTH) {
 			db_block_free((uint32_t)(i / BLOCK_LENGTH));
-- 
2.43.0


From e7f56b024788f442771a5618a7317fd20790357b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:51 +0000
Subject: [PATCH 14/45] fix: LRU collection of more than 2GB overflows

---
 src/core/db.cpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/core/db.cpp b/src/core/db.cpp
index 70bd2e8..f727985 100644
--- a/src/core/db.cpp
+++ b/src/core/db.cpp
@@ -314,8 +314,8 @@ void db_entry_incref(cache_entry* entry, bool table = true) {
 		db_table_incref(entry->table);
 }
 
-void db_lru_cleanup_percent(int* bytes_to_remove) {
-	int debug_bytes = *bytes_to_remove;
+void db_lru_cleanup_percent(int64_t* bytes_to_remove) {
+	int64_t debug_bytes = *bytes_to_remove;
 	while (db.lru_head != NULL && *bytes_to_remove > 0) {
 		cache_entry* l = db.lru_head;
 
@@ -336,7 +336,7 @@ void db_lru_cleanup_percent(int* bytes_to_remove) {
 		}
 	}
 	
-	DEBUG("[#] LRU attempted to remove %d bytes, %d bytes remaining\n", debug_bytes, *bytes_to_remove);
+	DEBUG("[#] LRU attempted to remove %lld bytes, %lld bytes remaining\n", (long long)debug_bytes, (long long)*bytes_to_remove);
 }
 
 static void force_link(const char* fileThatExists, const char* fileThatDoesNotExist){
@@ -448,20 +448,19 @@ void db_lru_gc() {
 	DEBUG("Starting %s\n", do_lru?"LRU GC":"Expiration Cursor");
 	if (do_lru)
 	{
-		int bytes_to_remove;
+		int64_t bytes_to_remove;
 		bool full_cycle;
 		int i = 0;
 		
 		//Do 5 iterations, or one full cycle of expirations
 		do
 		{
-			bytes_to_remove = (db.db_size_bytes - settings.max_size) + (settings.max_size * settings.db_lru_clear);
 			full_cycle = db_expire_cursor();
 			i++;
 		} while (!full_cycle && i < 5);
 		
 		//Apply LRU
-		bytes_to_remove = (db.db_size_bytes - settings.max_size) + (settings.max_size * settings.db_lru_clear);
+		bytes_to_remove = (int64_t)(db.db_size_bytes - settings.max_size) + (int64_t)(settings.max_size * settings.db_lru_clear);
 		if (bytes_to_remove > 0) {
 			db_lru_cleanup_percent(&bytes_to_remove);
 		}
-- 
2.43.0


From 47bda8b8a6cfa6495a39c1c36101935ac3857050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:51 +0000
Subject: [PATCH 15/45] fix: a smaller repeated Content-Length or one for a
 deleted value corrupts the stored size

---
 src/core/db.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/core/db.cpp b/src/core/db.cpp
index f727985..c234db2 100644
--- a/src/core/db.cpp
+++ b/src/core/db.cpp
@@ -1347,12 +1347,12 @@ void db_target_write_allocate(struct cache_target* target, uint32_t data_length)
 	//Update database counters
 	if (entry->block == -2)
 	{
-		db.db_size_bytes += data_length;
 		entry->block = -1; // must be file
 	}
-	else
+	if (!entry->deleted)
 	{
-		db.db_size_bytes += data_length - entry->data_length;
+		db.db_size_bytes -= entry->data_length;
+		db.db_size_bytes += data_length;
 	}
 	
 	entry->data_length = data_length;
-- 
2.43.0


From 2f9632538672bae1164d32c3d121fcc44bdbaa83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:51 +0000
Subject: [PATCH 16/45] fix: a repeated Content-Length leaks the previous value
 file

---
 src/core/db.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/core/db.cpp b/src/core/db.cpp
index c234db2..9af09d6 100644
--- a/src/core/db.cpp
+++ b/src/core/db.cpp
@@ -1312,6 +1312,12 @@ bool db_entry_handle_delete(cache_entry* entry, khiter_t k) {
 void db_target_write_allocate(struct cache_target* target, uint32_t data_length) {
 	cache_entry* entry = target->entry;
 	DEBUG("[#] Allocating space for entry, block is currently: %d and is single file: %s (was: %s)\n", entry->block, (data_length > BLOCK_LENGTH) ? "yes" : "no", (entry->block == -2?-1:(IS_SINGLE_FILE(entry)))? "yes":"no");
+	if (target->fd >= 0 && target->fd != db.fd_blockfile) {
+		//Content-Length was given before, that file is not needed any more
+		close_fd(target->fd, "file descriptor (cache file)");
+		target->fd = -1;
+		db_entry_delete(entry);
+	}
 	if (entry->block == -2) {
 		//if this is a new entry, with nothing previously allocated.
 		if (data_length <= BLOCK_LENGTH) {
-- 
2.43.0


From c7548e781970f18f7c70b55abdf29da0c0bb0e03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:51 +0000
Subject: [PATCH 17/45] fix: the file of a value deleted before its upload
 started stays behind

---
 src/core/db.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/core/db.cpp b/src/core/db.cpp
index 9af09d6..8fd2d7e 100644
--- a/src/core/db.cpp
+++ b/src/core/db.cpp
@@ -1366,6 +1366,11 @@ void db_target_write_allocate(struct cache_target* target, uint32_t data_length)
 	db_target_open(target, true);
 
 	if (IS_SINGLE_FILE(entry)) {
+		if (entry->deleted) {
+			//Nobody else can find it, and nobody will clean it up later
+			db_entry_delete(entry);
+		}
+
 		//Lengthen file to required size
 		if (ftruncate(target->fd, data_length)<0) {
 			PWARN("File truncation failed (fd: %d, length: %d)", target->fd, data_length);
-- 
2.43.0


From c9d5ef255e22f823c6e32f45121278a2071cc3bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:51 +0000
Subject: [PATCH 18/45] fix: ignored uploads leak the key

---
 src/core/db.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/db.cpp b/src/core/db.cpp
index 8fd2d7e..fa09e73 100644
--- a/src/core/db.cpp
+++ b/src/core/db.cpp
@@ -1085,6 +1085,7 @@ cache_entry* db_entry_get_write(struct db_table* table, char* key, size_t length
 		assert(entry->hash == hash);
 		//If we are currently writing, then it will be mocked
 		if (entry->writing == true) {
+			free(key);
 			return NULL;
 		}
 
-- 
2.43.0


From 618a01dfee3fcb9151b53856c157cd277fb2c1c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:51 +0000
Subject: [PATCH 19/45] fix: keys and table names with embedded NUL bytes are
 confused with each other

---
 src/core/db.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/core/db.cpp b/src/core/db.cpp
index fa09e73..0aba98f 100644
--- a/src/core/db.cpp
+++ b/src/core/db.cpp
@@ -901,14 +901,14 @@ cache_entry* db_entry_get_read(struct db_table* table, char* key, size_t length)
 
 	assert(!entry->deleted);
 
-	if (entry->key_length != length || strncmp(key, entry->key, length) != 0) {
+	if (entry->key_length != length || memcmp(key, entry->key, length) != 0) {
 		DEBUG("[#] Unable to look up key: ");
 
 		if (entry->key_length != length) {
 			DEBUG("DB Key length does not match\n");
 		}
 		else{
-			if (strncmp(key, entry->key, length) != 0) {
+			if (memcmp(key, entry->key, length) != 0) {
 				DEBUG("String Keys dont match\n");
 			}
 		}
@@ -962,7 +962,7 @@ struct db_table* db_table_get_read(char* name, int length) {
 		assert(table->hash == hash);
 		
 		//Check table key, cache key collision handling
-		while_condition = table->key_length != length || strncmp(table->key, name, length) != 0;
+		while_condition = table->key_length != length || memcmp(table->key, name, length) != 0;
 		if (while_condition)
 		{
 			hash++;
@@ -1014,7 +1014,7 @@ struct db_table* db_table_get_write(char* name, int length) {
 		assert(table->hash == hash);
 	
 		//Check table key, cache key collision handling
-		while_condition = table->key_length != length || strncmp(table->key, name, length) != 0;
+		while_condition = table->key_length != length || memcmp(table->key, name, length) != 0;
 		if (while_condition)
 		{
 			hash++;
@@ -1146,7 +1146,7 @@ cache_entry* db_entry_get_delete(struct db_table* table, char* key, size_t lengt
 	khiter_t k = kh_get(entry, table->cache_hash_set, hash);
 	cache_entry* entry = k == kh_end(table->cache_hash_set) ? NULL : kh_value(table->cache_hash_set, k);
 
-	if (entry == NULL || entry->key_length != length || strncmp(key, entry->key, length) != 0) {
+	if (entry == NULL || entry->key_length != length || memcmp(key, entry->key, length) != 0) {
 		DEBUG("[#] Unable to look up key: ");
 
 		if (entry == NULL) {
@@ -1157,7 +1157,7 @@ cache_entry* db_entry_get_delete(struct db_table* table, char* key, size_t lengt
 				DEBUG("DB Key length does not match\n");
 			}
 			else{
-				if (strncmp(key, entry->key, length)) {
+				if (memcmp(key, entry->key, length)) {
 					DEBUG("String Keys dont match\n");
 				}
 			}
-- 
2.43.0


From 07174471509cbbc1a46f7472050bec88f8997890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:13 +0000
Subject: [PATCH 20/45] fix: newlines after the wrap of the input buffer are
 not skipped

---
 src/core/http_parse.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/http_parse.cpp b/src/core/http_parse.cpp
index a0fa38a..7faf9b2 100644
--- a/src/core/http_parse.cpp
+++ b/src/core/http_parse.cpp
@@ -50,7 +50,8 @@ void skip_over_newlines(struct read_buffer* rb) {
 	}
 
 	//Go over anything from the start
-	end = rbuf_read_remaining(rb) - end;
+	end = rbuf_read_remaining(rb);
+	buffer = RBUF_STARTPTR(rb);
 	for (int i = 0; i < end; i++) {
 		if (*buffer != '\r' && *buffer != '\n') {
 			return;
-- 
2.43.0


From 490dd5f6db8557bfbfd236490ad27a5f07d1148f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:13 +0000
Subject: [PATCH 21/45] fix: header values are misread when they contain spaces
 or wrap around, and a missing LF is skipped

---
 src/core/http_parse_cache.cpp | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/src/core/http_parse_cache.cpp b/src/core/http_parse_cache.cpp
index 4315d37..707a287 100644
--- a/src/core/http_parse_cache.cpp
+++ b/src/core/http_parse_cache.cpp
@@ -429,19 +429,15 @@ static state_action http_read_headers(scache_connection* connection, char* buffe
 
 static state_action http_read_header_extraction(scache_connection* connection, char* buffer, int n) {
 	int temporary = 0;
-	if (*buffer == ' ' && !temporary) {
+	if (*buffer == ' ' && buffer == RBUF_READ(connection->input)) {
 		RBUF_READMOVE(connection->input, 1);
 	}
 	else if (*buffer == '\n' || *buffer == '\r') {
-		//We are going to have to skip another char if \r\n
-		if (*buffer == '\r') {
-			temporary = 2;
-		}
-		else{
-			temporary = 1;
-		}
+		//The \n of \r\n might not have been received yet, the headers state handles it
+		temporary = 1;
+		bool is_lf = *buffer == '\n';
 
-		int length = buffer - RBUF_READ(connection->input);
+		int length = (buffer - RBUF_READ(connection->input)) & (BUFFER_SIZE - 1);
 
 		switch (connection->state) {
 		case HEADER_CONTENTLENGTH:
@@ -554,7 +550,7 @@ static state_action http_read_header_extraction(scache_connection* connection, c
 		}
 
 
-		connection->state = 1;
+		connection->state = is_lf ? 1 : 0;
 		CONNECTION_HANDLER(connection,  http_cache_handle_headers);
 		RBUF_READMOVE(connection->input, length + temporary);
 		return needs_more_read;
-- 
2.43.0


From 8c5d4d4240ec79c9761816d502ade41c0ada8efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:13 +0000
Subject: [PATCH 22/45] fix: header names that end at the wrap of a full input
 buffer are misread

---
 src/core/http_parse_cache.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/http_parse_cache.cpp b/src/core/http_parse_cache.cpp
index 707a287..e130630 100644
--- a/src/core/http_parse_cache.cpp
+++ b/src/core/http_parse_cache.cpp
@@ -303,7 +303,7 @@ static state_action http_read_headers(scache_connection* connection, char* buffe
 	if (*buffer == ':') {
 		int bytes = buffer - RBUF_READ(connection->input);
 		if (bytes < 0) {
-			bytes = rbuf_read_to_end(&connection->input) + (buffer - RBUF_START(connection->input));
+			bytes = rbuf_read_contiguous(&connection->input) + (buffer - RBUF_START(connection->input));
 		}
 		DEBUG("[#%d] Found header of length %d\n", connection->client_sock, bytes);
 
-- 
2.43.0


From 8703d6545f85f2e4a8f588881d678bf767762f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:13 +0000
Subject: [PATCH 23/45] fix: a byte too many is consumed after the url of a
 table request

---
 src/core/http_parse_cache.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/core/http_parse_cache.cpp b/src/core/http_parse_cache.cpp
index e130630..4c38023 100644
--- a/src/core/http_parse_cache.cpp
+++ b/src/core/http_parse_cache.cpp
@@ -247,7 +247,7 @@ static inline state_action http_read_requeststarturl1(scache_connection* connect
 					//Stats Command
 					DEBUG("[#%d] Request stats\n", connection->client_sock);
 					free(key);
-					RBUF_READMOVE(connection->input, n + 1);
+					RBUF_READMOVE(connection->input, n);
 					return http_stats_after_eol(connection);
 				}
 
@@ -257,7 +257,7 @@ static inline state_action http_read_requeststarturl1(scache_connection* connect
 				connection->cache.target.table.table = db_table_get_read(key, n - 1);
 				connection->cache.target.table.start = 0;
 				connection->cache.target.table.limit = DEFAULT_LISTING_LIMIT;
-				RBUF_READMOVE(connection->input, n + 1);
+				RBUF_READMOVE(connection->input, n);
 
 				//Else request for table/key
 				CONNECTION_HANDLER(connection, http_cache_handle_headers);
@@ -269,7 +269,7 @@ static inline state_action http_read_requeststarturl1(scache_connection* connect
 				DEBUG("[#%d] Request admin url: \"%s\" (%d)\n", connection->client_sock, key, n);
 				if(n == 3 && strncmp(key, "gc", n	) == 0){
 					free(key);
-					RBUF_READMOVE(connection->input, n + 1);
+					RBUF_READMOVE(connection->input, n);
 					
 					//GC
 					db_lru_gc();
@@ -278,7 +278,7 @@ static inline state_action http_read_requeststarturl1(scache_connection* connect
 			}
 			
 			free(key);
-			RBUF_READMOVE(connection->input, n + 1);
+			RBUF_READMOVE(connection->input, n);
 			return http_write_response_after_eol(connection, HTTPTEMPLATE_FULLINVALIDMETHOD);
 		}
 	}
-- 
2.43.0


From efcb3b969ff3b0a8a8821bd1ee296c030674a99a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:13 +0000
Subject: [PATCH 24/45] fix: a request for a key with an unsupported method
 leaks and its response is sent early

---
 src/core/http_parse_cache.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/core/http_parse_cache.cpp b/src/core/http_parse_cache.cpp
index 4c38023..c4eb430 100644
--- a/src/core/http_parse_cache.cpp
+++ b/src/core/http_parse_cache.cpp
@@ -58,7 +58,7 @@ static state_action http_headers_response_after_eol(scache_connection* connectio
 	return needs_more_read;
 }
 
-static bool http_key_lookup(scache_connection* connection, int n) {
+static state_action http_key_lookup(scache_connection* connection, int n) {
 	//Key request
 	//Copy the key from the buffer
 	char* key = (char*)malloc(sizeof(char)* (n + 1));
@@ -90,6 +90,7 @@ static bool http_key_lookup(scache_connection* connection, int n) {
 	else
 	{
 		DEBUG("[#%d] Has request key but is not GET, HEAD, PUT or DELETE (binary: %x)\n", connection->client_sock, connection->method);
+		free(key);
 		return http_write_response_after_eol(connection, HTTPTEMPLATE_FULLINVALIDMETHOD);
 	}
 
@@ -115,7 +116,7 @@ static bool http_key_lookup(scache_connection* connection, int n) {
 		connection->cache.target.key.fd = -1;
 	}
 
-	return true;
+	return needs_more_read;
 }
 
 static inline state_action http_read_requeststartmethod(scache_connection* connection, char* buffer, int n) {
@@ -289,11 +290,11 @@ static inline state_action http_read_requeststarturl1(scache_connection* connect
 static state_action http_read_requeststarturl2(scache_connection* connection, char* buffer, int n)
 {
 	if (*buffer == ' ') {
-		bool temporary = http_key_lookup(connection, n);
-		RBUF_READMOVE(connection->input, n + 1);
 		connection->state = 0;
+		state_action ret = http_key_lookup(connection, n);
+		RBUF_READMOVE(connection->input, n + 1);
 
-		return temporary ? needs_more_read : registered_write;
+		return ret;
 	}
 
 	return continue_processing;
-- 
2.43.0


From 08bfb3825707d594ab2256bcb055117080b7cd6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:13 +0000
Subject: [PATCH 25/45] fix: an ignored upload without Content-Length discards
 a random number of bytes

---
 src/core/http_parse_cache.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/core/http_parse_cache.cpp b/src/core/http_parse_cache.cpp
index c4eb430..772f349 100644
--- a/src/core/http_parse_cache.cpp
+++ b/src/core/http_parse_cache.cpp
@@ -113,6 +113,8 @@ static state_action http_key_lookup(scache_connection* connection, int n) {
 	else{
 		db_table_close(connection->cache.target.table.table);
 		connection->cache.target.key.entry = NULL;
+		connection->cache.target.key.position = 0;
+		connection->cache.target.key.end_position = 0;
 		connection->cache.target.key.fd = -1;
 	}
 
-- 
2.43.0


From e9a4e7ac67f823b1d1969637e4db8c7c19e6031c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:13 +0000
Subject: [PATCH 26/45] fix: a request without table closes the table of the
 previous request

---
 src/core/http_parse_cache.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/http_parse_cache.cpp b/src/core/http_parse_cache.cpp
index 772f349..dda9543 100644
--- a/src/core/http_parse_cache.cpp
+++ b/src/core/http_parse_cache.cpp
@@ -212,6 +212,7 @@ static inline state_action http_read_requeststarturl1(scache_connection* connect
 		rbuf_copyn(&connection->input, key, n - 1);
 		key[n - 1] = 0;//Null terminate the key
 		int type = connection->method;
+		connection->cache.target.table.table = NULL;
 		connection->method |= REQUEST_CACHE_LEVELTABLE;
 		assert(REQUEST_IS(connection->method, REQUEST_CACHE_LEVELTABLE));
 		assert(REQUEST_IS(connection->method, connection->method));
-- 
2.43.0


From 6f5ae4bb653e27aab1a5efeed66f6f4a3d055fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:13 +0000
Subject: [PATCH 27/45] fix: a url not starting with a slash stops the server

---
 src/core/http_parse_cache.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/core/http_parse_cache.cpp b/src/core/http_parse_cache.cpp
index dda9543..13f4e56 100644
--- a/src/core/http_parse_cache.cpp
+++ b/src/core/http_parse_cache.cpp
@@ -196,8 +196,10 @@ static inline state_action http_read_requeststartmethod(scache_connection* conne
 }
 
 static inline state_action http_read_requeststarturl1(scache_connection* connection, char* buffer, int n) {
-	//Assert: first char is a / (start of URL)
-	assert(n != 0 || *buffer == '/');
+	//First char is a / (start of URL)
+	if (n == 0 && *buffer != '/') {
+		return http_write_response_after_eol(connection, HTTPTEMPLATE_FULLUNKNOWNREQUEST);
+	}
 
 	// search either for / (goto http_read_requeststarturl2) or " " goto next step
 	if (n != 0) {
-- 
2.43.0


From 413b55fa0a26991d33070970e7b1b237faad044b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:13 +0000
Subject: [PATCH 28/45] fix: pipelining a request after a table listing stops
 the server

---
 src/core/http_parse_cache.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/core/http_parse_cache.cpp b/src/core/http_parse_cache.cpp
index 13f4e56..eac59f5 100644
--- a/src/core/http_parse_cache.cpp
+++ b/src/core/http_parse_cache.cpp
@@ -395,8 +395,6 @@ static state_action http_read_headers(scache_connection* connection, char* buffe
 			
 			//Router: Table level
 			if (REQUEST_IS(connection->method, REQUEST_HTTPGET)) {
-				assert(connection->input.read_position == connection->input.write_position);
-
 				if (!connection->cache.target.table.table) {
 					return http_write_response(connection, HTTPTEMPLATE_FULL404);
 				}
-- 
2.43.0


From 90d66c59cd2b3a58362d9dca4f586fc56831a104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:13 +0000
Subject: [PATCH 29/45] fix: failing or partial writes of a request body
 corrupt the input position or stall the upload

---
 src/core/http_parse_cache.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/core/http_parse_cache.cpp b/src/core/http_parse_cache.cpp
index eac59f5..e00eb8e 100644
--- a/src/core/http_parse_cache.cpp
+++ b/src/core/http_parse_cache.cpp
@@ -687,6 +687,13 @@ state_action http_cache_handle_request_body(scache_connection* connection) {
 				return http_write_response(connection, HTTPTEMPLATE_FULL404);				
 			}
 			int read_bytes = write(connection->cache.target.key.fd, RBUF_READ(connection->input), to_write);
+			if (read_bytes < 0) {
+				if (errno == EINTR) {
+					return needs_more_read;
+				}
+				PWARN("[#%d] Failed to write for PUT", connection->client_sock);
+				return http_write_response(connection, HTTPTEMPLATE_FULL404);
+			}
 
 			//Handle the bytes written
 			DEBUG("[#%d] %d bytes to fd %d at position %u\n", connection->client_sock, read_bytes, connection->cache.target.key.fd, connection->cache.target.key.position);
@@ -717,7 +724,7 @@ state_action http_cache_handle_request_body(scache_connection* connection) {
 		return http_write_response(connection, HTTPTEMPLATE_FULL200OK);
 	}
 
-	return continue_processing;
+	return to_write != 0 ? needs_more_read : continue_processing;
 }
 
 void cache_destroy(scache_connection* connection){
-- 
2.43.0


From 0ea494b6017ba3e9776bbf82c747d48f90d44f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:13 +0000
Subject: [PATCH 30/45] fix: partially sent output is sent again from its
 start, and a full socket closes the connection

---
 src/core/http.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/core/http.cpp b/src/core/http.cpp
index d50115a..98f309e 100644
--- a/src/core/http.cpp
+++ b/src/core/http.cpp
@@ -110,9 +110,13 @@ state_action http_write_handle(scache_connection* connection) {
 		//Send data
 		int num = write(connection->client_sock, connection->output_buffer, connection->output_length);
 		if (num < 0) {
-			//TODO: handle error
+			if (errno == EAGAIN || errno == EWOULDBLOCK || errno == EINTR) {
+				//Nothing sent, try again once writable
+				return continue_processing;
+			}
 			return close_connection;
 		}
+		connection->output_buffer += num;
 		connection->output_length -= num;
 
 		//Check if done
-- 
2.43.0


From 01e8986d616c7aef7fcf2045d8c165ea4ba41e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:13 +0000
Subject: [PATCH 31/45] fix: closing a connection leaks its pending output

---
 src/core/connection.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/core/connection.cpp b/src/core/connection.cpp
index b4442a5..0a38942 100644
--- a/src/core/connection.cpp
+++ b/src/core/connection.cpp
@@ -304,6 +304,7 @@ bool connection_remove(scache_connection* conn) {
 		WARN("connection not found");
 	}
 
+	free(conn->output_buffer_free);
 	free(conn);
 	close_socket(fd);
 
@@ -719,6 +720,7 @@ void connection_cleanup_http(scache_connection* connection) {
 	connection->epollout = connection->epollin = false;
 
 	//Free up the connection if dynamically allocated
+	free(connection->output_buffer_free);
 	free(connection);
 }
 
-- 
2.43.0


From 0665953d22e0dcb16c08dd2915b5246037a88ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:13 +0000
Subject: [PATCH 32/45] fix: table listings omit keys, read outside the table
 and use keys after they are released

---
 src/core/http_respond.cpp | 60 ++++++++++++++++-----------------------
 1 file changed, 24 insertions(+), 36 deletions(-)

diff --git a/src/core/http_respond.cpp b/src/core/http_respond.cpp
index bd99f9b..a0128e6 100644
--- a/src/core/http_respond.cpp
+++ b/src/core/http_respond.cpp
@@ -27,7 +27,7 @@
 #include "http_parse.h"
 #include "http_respond.h"
 
-static void copy_to_outputbuffer(scache_connection* connection, char* header, int length) {
+static void copy_to_outputbuffer(scache_connection* connection, const char* header, int length) {
 	connection->output_buffer = connection->output_buffer_free = (char*)malloc(length);
 	memcpy(connection->output_buffer_free, header, length);
 	connection->output_length = length;
@@ -207,43 +207,29 @@ state_action http_respond_close_connection(scache_connection* connection) {
 state_action http_respond_listing(scache_connection* connection) {
 	DEBUG("[#%d] Sending listing response\n", connection->client_sock);
 
-	if (connection->cache.target.table.start > kh_end(connection->cache.target.table.table->cache_hash_set)) {
-		connection->cache.target.table.start = kh_end(connection->cache.target.table.table->cache_hash_set);
-		connection->cache.target.table.limit = 0;
-	}else if ((connection->cache.target.table.limit + connection->cache.target.table.start) > kh_end(connection->cache.target.table.table->cache_hash_set)) {
-		connection->cache.target.table.limit = kh_end(connection->cache.target.table.table->cache_hash_set) - (connection->cache.target.table.start + 1);
-	}
-
-	if (connection->cache.target.table.limit > 0) {
-		cache_entry* entry = NULL;
-		int i = connection->cache.target.table.limit + connection->cache.target.table.start;
-		while (!kh_exist(connection->cache.target.table.table->cache_hash_set, i)) {
-			if (connection->cache.target.table.limit == 0) {
-				return close_connection;
-			}
-			connection->cache.target.table.limit--;
-			i--;
-		}
-		entry = kh_val(connection->cache.target.table.table->cache_hash_set, i);
+	table_target* target = &connection->cache.target.table;
 
-		bool cleanup = false;
-		if (connection->cache.target.table.limit) {
-			connection->cache.target.table.limit--;
-		}
-		else{
-			cleanup = true;
-		}
+	//The table may have been deleted by another connection
+	khash_t(entry)* entries = target->table->cache_hash_set;
+	uint32_t end = entries == NULL ? 0 : kh_end(entries);
 
-		if (entry != NULL) {
-			//Returns the number of chars put into the buffer
-			connection->output_buffer = entry->key;
-			connection->output_length = entry->key_length;
-			CONNECTION_HANDLER(connection,  http_respond_listing_separator);
+	//Limit the window to what exists
+	if (target->start >= end) {
+		target->limit = 0;
+	}
+	else if (target->limit > end - target->start) {
+		target->limit = end - target->start;
+	}
 
-			if (cleanup) {
-				CONNECTION_HANDLER(connection,  http_respond_close_connection);
-			}
+	while (target->limit > 0) {
+		target->limit--;
 
+		khiter_t i = target->start + target->limit;
+		if (kh_exist(entries, i)) {
+			//The entry may be gone before the key is sent
+			cache_entry* entry = kh_val(entries, i);
+			copy_to_outputbuffer(connection, entry->key, entry->key_length);
+			CONNECTION_HANDLER(connection,  http_respond_listing_separator);
 			return continue_processing;
 		}
 	}
@@ -256,8 +242,9 @@ state_action http_respond_listingtotal(scache_connection* connection) {
 
 	if (REQUEST_IS(connection->method, REQUEST_GETTABLE)) {
 		DEBUG("[#%d] Responding with X-Total\n", connection->client_sock);
+		khash_t(entry)* entries = connection->cache.target.table.table->cache_hash_set;
 		//Returns the number of chars put into the buffer
-		int temp = snprintf(header, sizeof(header), "X-Total: %d\r\n", kh_n_buckets(connection->cache.target.table.table->cache_hash_set));
+		int temp = snprintf(header, sizeof(header), "X-Total: %d\r\n", entries == NULL ? 0 : kh_n_buckets(entries));
 
 		copy_to_outputbuffer(connection, header, temp);
 	}
@@ -271,8 +258,9 @@ state_action http_respond_listingentries(scache_connection* connection) {
 
 	if (REQUEST_IS(connection->method, REQUEST_GETTABLE)) {
 		DEBUG("[#%d] Responding with X-Entries\n", connection->client_sock);
+		khash_t(entry)* entries = connection->cache.target.table.table->cache_hash_set;
 		//Returns the number of chars put into the buffer
-		int temp = snprintf(header, sizeof(header), "X-Entries: %d\r\n", kh_size(connection->cache.target.table.table->cache_hash_set));
+		int temp = snprintf(header, sizeof(header), "X-Entries: %d\r\n", entries == NULL ? 0 : kh_size(entries));
 
 		copy_to_outputbuffer(connection, header, temp);
 	}
-- 
2.43.0


From 9726cb9a1c0f951d5c7826f04b4fafdcf0baf228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:47 +0000
Subject: [PATCH 33/45] fix: a monitoring url not starting with a slash stops
 the server, and a byte too many is consumed after it

---
 src/core/http_parse_mon.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/core/http_parse_mon.cpp b/src/core/http_parse_mon.cpp
index 759300f..def1d1c 100644
--- a/src/core/http_parse_mon.cpp
+++ b/src/core/http_parse_mon.cpp
@@ -207,8 +207,10 @@ static inline state_action http_read_requeststartmethod_mon(scache_connection* c
 }
 
 static inline state_action http_mon_read_requeststarturl(scache_connection* connection, char* buffer, int n) {
-	//Assert: first char is a / (start of URL)
-	assert(n != 0 || *buffer == '/');
+	//First char is a / (start of URL)
+	if (n == 0 && *buffer != '/') {
+		return http_write_response_after_eol(connection, HTTPTEMPLATE_FULL404_PATHNOTFOUND);
+	}
 
 	// search either for / (goto http_read_requeststarturl2) or " " goto next step
 	if (n != 0) {
@@ -221,7 +223,7 @@ static inline state_action http_mon_read_requeststarturl(scache_connection* conn
 		char* key = (char*)malloc(sizeof(char) * (n + 1));
 		rbuf_copyn(&connection->input, key, n - 1);
 		key[n - 1] = 0;//Null terminate the key
-		RBUF_READMOVE(connection->input, n + 1);
+		RBUF_READMOVE(connection->input, n);
 
 		if(n == 1){ // URL: "/"
 			free(key);
-- 
2.43.0


From cb1dc5a01c3a294124849074ebe18d4e52340505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:47 +0000
Subject: [PATCH 34/45] fix: a stalled monitoring connection is closed twice
 and used after it is freed

---
 src/core/http_parse_mon.cpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/core/http_parse_mon.cpp b/src/core/http_parse_mon.cpp
index def1d1c..a38ad51 100644
--- a/src/core/http_parse_mon.cpp
+++ b/src/core/http_parse_mon.cpp
@@ -469,21 +469,23 @@ void monitoring_check(){
 		// Not yet time
 		if(timercmp(&conn->monitoring.scheduled, &current_time_copy, >)) break;
 		
-		// move on
-		mon_head = conn->monitoring.next;
-		assert(conn != mon_head);
-		if(mon_head != NULL) mon_head->monitoring.prev = NULL;
-
 		// If buffer wasnt cleared already, then we will need to disconnect
 		if(conn->output_buffer != NULL){
 			fd = conn->client_sock;
 			DEBUG("Failed to output buffer to monitoring connection, will close fd %d\n", fd);
+			// There may be more events for it, the event loop closes and frees it on hangup
 			http_cleanup(conn);
-			connection_remove(conn);
-			close_socket(fd);
+			conn->monitoring.next = conn->monitoring.prev = NULL;
+			conn->is_writing = false;
+			shutdown(fd, SHUT_RDWR);
 			continue;
 		}
 
+		// move on
+		mon_head = conn->monitoring.next;
+		assert(conn != mon_head);
+		if(mon_head != NULL) mon_head->monitoring.prev = NULL;
+
 		// Move to end (tail)
 		if(mon_tail != conn){
 			mon_tail->monitoring.next = conn;
@@ -515,10 +517,8 @@ void monitoring_check(){
 		conn = mon_pending_tail;
 		if(timercmp(&conn->monitoring.scheduled, &current_time_copy, >)) break;
 
-		fd = conn->client_sock;		
 		http_cleanup(conn);
 		connection_remove(conn);
-		close_socket(fd);
 
 		assert(conn != mon_pending_tail);
 	}
-- 
2.43.0


From 5448b404875c5af31f024c80aa09c065eb7d2631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:47 +0000
Subject: [PATCH 35/45] fix: removing the last pending monitoring connection
 corrupts the schedule

---
 src/core/http_parse_mon.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/http_parse_mon.cpp b/src/core/http_parse_mon.cpp
index a38ad51..10db8a2 100644
--- a/src/core/http_parse_mon.cpp
+++ b/src/core/http_parse_mon.cpp
@@ -378,7 +378,7 @@ void monitoring_destroy(scache_connection* connection){
 
 		if(mon_pending_tail == connection){
 			assert(connection->monitoring.next == NULL);
-			mon_tail = connection->monitoring.prev;
+			mon_pending_tail = connection->monitoring.prev;
 			if(mon_pending_head == NULL){
 				assert(mon_pending_tail == NULL);
 				// early exit we remvoed from both ends
-- 
2.43.0


From c88d370fea18df9ee16517acb4b265e7d6b3cbe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:47 +0000
Subject: [PATCH 36/45] fix: a failed accept skips the event of another
 listener

---
 src/core/connection.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/core/connection.cpp b/src/core/connection.cpp
index 0a38942..b2bd546 100644
--- a/src/core/connection.cpp
+++ b/src/core/connection.cpp
@@ -386,7 +386,6 @@ static void* connection_handle_accept(void *arg)
 							WARN("[#] accept() failed on fd %d of type %s. Error: %s", fd, connection_type_string(our_type), strerror(errno));
 						}
 					}
-					n++;
 					continue;
 				}
 				else {
@@ -400,7 +399,6 @@ static void* connection_handle_accept(void *arg)
 					
 					connections_queued* q = (connections_queued*)malloc(sizeof(connections_queued));
 					if(q == NULL){
-						n++;
 						WARN("[#%d] failed to allocate memory for connection. Abandoning incoming connection.", client_sock);
 						close_fd(client_sock, "socket");
 						continue;
-- 
2.43.0


From b19c933298b97b3e25a26e27995dc94fc374a833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:47 +0000
Subject: [PATCH 37/45] fix: a connection that cannot be watched stays behind,
 and new connections start with a wrong file descriptor

---
 src/core/connection.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/connection.cpp b/src/core/connection.cpp
index b2bd546..bd76cf2 100644
--- a/src/core/connection.cpp
+++ b/src/core/connection.cpp
@@ -278,7 +278,7 @@ static scache_connection* connection_add(int fd, connection_ctype client_type) {
 
 	// safe to set first
 	connection->ltype = client_type;
-	if(client_type == cache_listener){
+	if(client_type == cache_connection){
 		connection->cache.target.key.fd = -1;
 	}
 	rbuf_init(&connection->input);
@@ -601,7 +601,7 @@ void connection_event_loop(void (*connection_handler)(scache_connection* connect
 					res = epoll_ctl(epfd, EPOLL_CTL_ADD, client_sock, &ev);
 					if (res != 0) {
 						PWARN("[#%d] epoll_ctl() failed to add %d.", client_sock, errno);
-						close(client_sock);
+						connection_remove(connection);
 						continue;
 					}
 
-- 
2.43.0


From 693eb0e646ac8edda28e7c7f3c38269e48ba0704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:47 +0000
Subject: [PATCH 38/45] fix: a missing index writer process is taken for a
 running one

---
 src/core/db.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/core/db.cpp b/src/core/db.cpp
index 0aba98f..fdc29b3 100644
--- a/src/core/db.cpp
+++ b/src/core/db.cpp
@@ -424,14 +424,14 @@ static bool currently_flushing(int flags){
 	if(current_flush == 0) return false;
 	int status, w;
 	w = waitpid(current_flush, &status, flags);
-	if (w) {
+	if (w == -1) {
+		current_flush = 0;
+		return false;
+	} else if (w) {
 		if (WIFEXITED(status)) {
 			current_flush = 0;
 			return false;
 		}
-	} else if(w == -1) {
-		current_flush = 0;
-		return false;
 	}
 	return true;
 }
-- 
2.43.0


From 01aca458208ba73e94f5f1dad020766529245d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:47 +0000
Subject: [PATCH 39/45] fix: names with line feeds corrupt the saved index

---
 src/core/db.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/db.cpp b/src/core/db.cpp
index fdc29b3..58b41d7 100644
--- a/src/core/db.cpp
+++ b/src/core/db.cpp
@@ -1480,7 +1480,7 @@ static pid_t db_index_flush(bool copyOnWrite){
 		if (kh_exist(db.tables, ke)) {
 			//Write table to index
 			table = kh_val(db.tables, ke);
-			if(table->deleted) continue;
+			if(table->deleted || memchr(table->key, '\n', table->key_length) != NULL) continue;
 			if(!full_write(fd, "t:", 2)) goto close_fd;
 			if(!full_write(fd, table->key, table->key_length)) goto close_fd;
 			if(!full_write(fd, "\n", 1)) goto close_fd;
@@ -1489,7 +1489,7 @@ static pid_t db_index_flush(bool copyOnWrite){
 			for (khiter_t kee = kh_begin(table->cache_hash_set); kee != kh_end(table->cache_hash_set); ++kee) {
 				if (kh_exist(table->cache_hash_set, kee)) {
 					ce = kh_val(table->cache_hash_set, kee);
-					if(ce->writing || ce->deleted) continue;
+					if(ce->writing || ce->deleted || memchr(ce->key, '\n', ce->key_length) != NULL) continue;
 
 					//Write entry key to index
 					temp = snprintf(buffer, sizeof(buffer), "%c:%d:%u:%lu:%u:", ce->block >= 0 ? 'b':'e', ce->block, ce->data_length, ce->expires, ce->it);
-- 
2.43.0


From e828b6d7cf42ea07aba4aa252c99cc5ab379ea70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:47 +0000
Subject: [PATCH 40/45] fix: loading the index overflows on long names, leaks
 skipped entries and trusts invalid lines

---
 src/core/db.cpp | 49 +++++++++++++++++++++++++++++++++++++++----------
 1 file changed, 39 insertions(+), 10 deletions(-)

diff --git a/src/core/db.cpp b/src/core/db.cpp
index 58b41d7..34a775d 100644
--- a/src/core/db.cpp
+++ b/src/core/db.cpp
@@ -593,8 +593,28 @@ static cache_entry* db_load_from_save_entry(db_table* table, char* key, uint16_t
 	return entry;
 }
 
+/*
+Copy the name at the end of an index line (without the newline)
+*/
+static char* db_load_name(const char* line, int start, ssize_t read, int* length){
+	if (line[read - 1] == '\n') read--;
+	*length = read - start;
+
+	char* name = (char*)malloc(*length + 1);
+	memcpy(name, line + start, *length);
+	name[*length] = 0;
+	return name;
+}
+
+static void db_load_from_save_skip(cache_entry* entry){
+	free(entry->key);
+	free(entry);
+}
+
 static bool db_load_from_save(){
-	char buffer[MAX_PATH], buffer2[2048];
+	char buffer[MAX_PATH];
+	char *name;
+	int start, length;
 	char *bp = NULL;
 	bool ret = false;
 	size_t len = 0;
@@ -634,18 +654,19 @@ static bool db_load_from_save(){
 					WARN("Free block parsing error\n");
 					continue;
 				}
+				if(u1 >= db.blocks_exist){
+					WARN("Free block does not exist\n");
+					continue;
+				}
 				db_block_free(u1);
 			break;
 			case 't':
-				if(sscanf(bp, "t:%s", buffer2) != 1){
-					WARN("Table parsing error\n");
-					continue;
-				}
 				if(table != NULL){
 					db_table_deref(table, true);
 					table = NULL;
 				}
-				table = db_table_get_write(strdup(buffer2), strlen(buffer2));
+				name = db_load_name(bp, 2, read, &length);
+				table = db_table_get_write(name, length);
 				entry = NULL;
 				break;
 			case 'b':
@@ -654,13 +675,21 @@ static bool db_load_from_save(){
 					WARN("File entry must be after table\n");
 					continue;
 				}
-				if(sscanf(bp+1, ":%d:%u:%u:%u:%s", &d1, &u2, &u3, &u4, buffer2) != 5){
+				start = -1;
+				if(sscanf(bp+1, ":%d:%u:%u:%u:%n", &d1, &u2, &u3, &u4, &start) != 4 || start == -1 || read - start > BUFFER_SIZE){
 					WARN("Entry parsing error\n");
 					continue;
 				}
 			
 				//>block, ce->data_length, ce->expires, ce->it
-				entry = db_load_from_save_entry(table, strdup(buffer2), strlen(buffer2), d1, u2, u3, u4);
+				name = db_load_name(bp, start + 1, read, &length);
+				entry = db_load_from_save_entry(table, name, length, d1, u2, u3, u4);
+
+				if(kh_get(entry, table->cache_hash_set, entry->hash) != kh_end(table->cache_hash_set) || (d1 < 0) != IS_SINGLE_FILE(entry)){
+					WARN("Duplicate or invalid file entry\n");
+					db_load_from_save_skip(entry);
+					continue;
+				}
 
 				if(d1 < 0){
 					// Test file existance
@@ -668,14 +697,14 @@ static bool db_load_from_save(){
 					
 					if( access( buffer, F_OK ) == -1 ) {
 						DEBUG("skipping as file %s does not exist\n", buffer);
-						free(entry);
+						db_load_from_save_skip(entry);
 						continue;
 					}
 				}else{
 					// Test size of blockfile
 					if(d1 >= db.blocks_exist){
 						DEBUG("skipping as block %d does not exist\n", d1);
-						free(entry);
+						db_load_from_save_skip(entry);
 						continue;
 					}
 				}
-- 
2.43.0


From 5ff608da62fa4e4f35ab6bede7eb98b3efd9bbf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:47 +0000
Subject: [PATCH 41/45] fix: blocks of unfinished uploads are lost, and blocks
 listed twice are shared, after a restart

---
 src/core/db.cpp | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/core/db.cpp b/src/core/db.cpp
index 34a775d..41dd462 100644
--- a/src/core/db.cpp
+++ b/src/core/db.cpp
@@ -615,6 +615,8 @@ static bool db_load_from_save(){
 	char buffer[MAX_PATH];
 	char *name;
 	int start, length;
+	bool *block_used = NULL;
+	uint32_t block_count;
 	char *bp = NULL;
 	bool ret = false;
 	size_t len = 0;
@@ -640,6 +642,9 @@ static bool db_load_from_save(){
 	off64_t size = lseek64(db.fd_blockfile, 0L, SEEK_END);
 	db.blocks_exist = (uint32_t)(size / BLOCK_LENGTH);
 
+	block_count = db.blocks_exist;
+	block_used = (bool*)calloc(block_count + 1, sizeof(bool));
+
 	FILE* fp = fdopen(fd, "r");
 	if(fp == NULL){
 		PWARN("Unable to get fd for fh");
@@ -654,10 +659,11 @@ static bool db_load_from_save(){
 					WARN("Free block parsing error\n");
 					continue;
 				}
-				if(u1 >= db.blocks_exist){
+				if(u1 >= db.blocks_exist || block_used[u1]){
 					WARN("Free block does not exist\n");
 					continue;
 				}
+				block_used[u1] = true;
 				db_block_free(u1);
 			break;
 			case 't':
@@ -702,11 +708,12 @@ static bool db_load_from_save(){
 					}
 				}else{
 					// Test size of blockfile
-					if(d1 >= db.blocks_exist){
+					if(d1 >= db.blocks_exist || block_used[d1]){
 						DEBUG("skipping as block %d does not exist\n", d1);
 						db_load_from_save_skip(entry);
 						continue;
 					}
+					block_used[d1] = true;
 				}
 
 				db_load_from_save_insert(table, entry);
@@ -728,6 +735,11 @@ static bool db_load_from_save(){
 		table = NULL;
 	}
 
+	// blocks not mentioned were in use by unfinished uploads or deleted entries
+	for(u1 = 0; u1 < block_count && u1 < db.blocks_exist; u1++){
+		if(!block_used[u1]) db_block_free(u1);
+	}
+
 	// move over block file (via link to preserve save)
 	snprintf(buffer, sizeof(buffer), "%s/blockfile.db.save", db.path_root);
 	unlink(db.path_blockfile);
@@ -737,6 +749,7 @@ static bool db_load_from_save(){
 close_fd:
 	fclose(fp);
 close_fd2:
+	free(block_used);
 	if(fp == NULL) close_fd(fd, "file desriptor (cache file)");
 
 	fd = db.fd_blockfile;
-- 
2.43.0


From 516edbbbdfba3c4c10316d9d42b5655e5f897c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:47 +0000
Subject: [PATCH 42/45] fix: bind options with IPv6 or invalid addresses are
 misparsed, and long unix paths overflow

---
 src/core/settings.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/core/settings.cpp b/src/core/settings.cpp
index 11263ed..8253c20 100644
--- a/src/core/settings.cpp
+++ b/src/core/settings.cpp
@@ -109,12 +109,17 @@ static void parse_binds(const char* optarg_const, scache_binds* target)
 			}
 		case bind_parse_state::ipv6:
 		case bind_parse_state::ipv4:
-			if (optarg[i] == ':')
+			if (optarg[i] == ',' || optarg[i] == 0)
+			{
+				FATAL("Error parsing bind address, no port");
+			}
+			else if (current->af == AF_INET6 ? (optarg[i] == ']' && optarg[i+1] == ':') : (optarg[i] == ':'))
 			{
 				optarg[i] = 0;
-				if (inet_pton(current->af, optarg + state_start, current->addr) < 0) {
-					PFATAL("Error parsing bind address");
+				if (inet_pton(current->af, optarg + state_start, current->addr) != 1) {
+					FATAL("Error parsing bind address");
 				}
+				if (current->af == AF_INET6) i++;
 				state = bind_parse_state::port;
 				state_start = i + 1;
 			}
@@ -122,6 +127,9 @@ static void parse_binds(const char* optarg_const, scache_binds* target)
 		case bind_parse_state::unix_path:
 			if (optarg[i] == 0 || optarg[i] == ',')
 			{
+				if (i - state_start >= (int)sizeof(((struct sockaddr_un*)0)->sun_path)) {
+					FATAL("Error parsing bind address, path too long");
+				}
 				memcpy(current->addr, optarg + state_start, i - state_start);
 				current->port = 0;
 				if (optarg[i] == ',')
-- 
2.43.0


From 213febea1723fd044df1326513bbb5cc4bc2ad44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:20 +0000
Subject: [PATCH 43/45] fix: a deleted upload does not remove a file name it no
 longer owns

---
 src/core/db.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/core/db.cpp b/src/core/db.cpp
index 41dd462..2ab5c56 100644
--- a/src/core/db.cpp
+++ b/src/core/db.cpp
@@ -1359,7 +1359,9 @@ void db_target_write_allocate(struct cache_target* target, uint32_t data_length)
 		//Content-Length was given before, that file is not needed any more
 		close_fd(target->fd, "file descriptor (cache file)");
 		target->fd = -1;
-		db_entry_delete(entry);
+		if (!entry->deleted) {
+			db_entry_delete(entry);
+		}
 	}
 	if (entry->block == -2) {
 		//if this is a new entry, with nothing previously allocated.
@@ -1384,8 +1386,10 @@ void db_target_write_allocate(struct cache_target* target, uint32_t data_length)
 			//We are going to store in a block, and the entry is currently a file
 			get_key_path(entry, filename_buffer);
 
-			//Delete single file, its not needed any more
-			unlink(filename_buffer);
+			//Delete single file, its not needed any more (already gone if deleted, the name may be in use again)
+			if (!entry->deleted) {
+				unlink(filename_buffer);
+			}
 
 			//Allocate a block
 			entry->block = db_block_allocate_new();
@@ -1409,7 +1413,7 @@ void db_target_write_allocate(struct cache_target* target, uint32_t data_length)
 	db_target_open(target, true);
 
 	if (IS_SINGLE_FILE(entry)) {
-		if (entry->deleted) {
+		if (entry->deleted && target->fd >= 0) {
 			//Nobody else can find it, and nobody will clean it up later
 			db_entry_delete(entry);
 		}
-- 
2.43.0


From bf6826c773085f4430c4cc8c68cbb3d6d2ae0cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:39 +0000
Subject: [PATCH 44/45] fix: stats and gc requests are answered before their
 headers have been received

---
 src/core/http_parse_cache.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/http_parse_cache.cpp b/src/core/http_parse_cache.cpp
index e00eb8e..0791a67 100644
--- a/src/core/http_parse_cache.cpp
+++ b/src/core/http_parse_cache.cpp
@@ -28,7 +28,7 @@
 extern int epfd;
 
 static state_action http_stats_after_eol(scache_connection* connection) {
-	connection->state = 0;
+	connection->state = 2;
 	CONNECTION_HANDLER(connection,  http_cache_handle_eolstats);
 	return needs_more_read;
 }
-- 
2.43.0


From 3388f99fe02d1242f0c100ebea359eb62908b71e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:36 +0000
Subject: [PATCH 45/45] fix: an aborted delete removes the file of a value that
 is still being uploaded

---
 src/core/db.cpp | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/core/db.cpp b/src/core/db.cpp
index 2ab5c56..03f3962 100644
--- a/src/core/db.cpp
+++ b/src/core/db.cpp
@@ -892,10 +892,6 @@ void db_target_entry_close(cache_target* target) {
 		if (target->fd != db.fd_blockfile && target->fd >= 0) {
 			assert(target->fd > 0 || (settings.daemon_mode && target->fd >= 0));
 			close_fd(target->fd, "file descriptor (cache file)");
-
-			if(target->entry->writing){
-				db_entry_delete(target->entry);
-			}
 		}
 
 		target->fd = -1;
-- 
2.43.0

