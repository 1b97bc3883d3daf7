From c86a12e7762a8a91fa013aef2fdf7523081a1b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:09 +0000
Subject: [PATCH 01/77] fix: StringSubString only matches when all of the
 substring was found

---
 string.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/string.c b/string.c
index 180eb69..9395b56 100644
--- a/string.c
+++ b/string.c
@@ -101,7 +101,7 @@ char *fiftyoneDegreesStringSubString(const char *a, const char *b) {
 					break;
 				}
 			}
-			if (d == 0) {
+			if (d == 0 && *b1 == '\0') {
 				return (char *)a;
 			}
 		}
-- 
2.43.0


From 524da5f77d29b2820fcef3e21b04a66f5bf4966e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:40 +0000
Subject: [PATCH 02/77] fix: a failed binary search reports not found and
 releases the item

A search that could not get an item, or whose comparer raised an exception,
returned index 0, which callers take for a match and then read the item; the
item passed to a failing comparer was never released. The value index by name
also released an item that the search had not returned.
---
 collection.c | 5 +++--
 value.c      | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/collection.c b/collection.c
index 5014005..26876cc 100644
--- a/collection.c
+++ b/collection.c
@@ -1195,14 +1195,15 @@ long fiftyoneDegreesCollectionBinarySearch(
 		// Get the item from the collection checking for NULL or an error.
 		if (collection->get(collection, middle, item, exception) == NULL ||
 			EXCEPTION_OKAY == false) {
-			return 0;
+			return -1;
 		}
 		
 		// Perform the binary search using the comparer provided with the item
 		// just returned.
 		comparisonResult = comparer(state, item, middle, exception);
 		if (EXCEPTION_OKAY == false) {
-			return 0;
+			COLLECTION_RELEASE(collection, item);
+			return -1;
 		}
 
 		if (comparisonResult == 0) {
diff --git a/value.c b/value.c
index 16bdbbc..32ef169 100644
--- a/value.c
+++ b/value.c
@@ -215,7 +215,7 @@ long fiftyoneDegreesValueGetIndexByName(
 		(void*)&search,
 		compareValueByName,
 		exception);
-	if (EXCEPTION_OKAY) {
+	if (index >= 0 && EXCEPTION_OKAY) {
 		COLLECTION_RELEASE(values, &item);
 	}
 	return index;
-- 
2.43.0


From 2a69a0ee5e97d2a629d8dde91be8e68190b9c579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:59 +0000
Subject: [PATCH 03/77] fix: MemoryAdvance leaves the reader where it was when
 the end would be passed

---
 memory.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/memory.c b/memory.c
index 50ba167..5bb79f4 100644
--- a/memory.c
+++ b/memory.c
@@ -60,10 +60,11 @@ bool fiftyoneDegreesMemoryAdvance(
 	if (reader == NULL || reader->current == NULL) {
 		return false;
 	}
-	reader->current += advanceBy;
-	if (reader->current > reader->lastByte) {
+	if (reader->current > reader->lastByte ||
+		advanceBy > (size_t)(reader->lastByte - reader->current)) {
 		return false;
 	}
+	reader->current += advanceBy;
 	return true;
 }
 
-- 
2.43.0


From aa03480fcac729b4b12545c8b0a0cbc4d5a9d6e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:59 +0000
Subject: [PATCH 04/77] fix: memory tracking of allocations of 4 GB and more is
 not truncated

---
 memory.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/memory.c b/memory.c
index 5bb79f4..1328de1 100644
--- a/memory.c
+++ b/memory.c
@@ -39,7 +39,7 @@ static bool initialised = false;
 
 typedef struct memory_allocation_t {
 	fiftyoneDegreesTreeNode tree; /* Tree node data structure */
-	uint32_t size; /* The amount of memory allocated at pointer */
+	size_t size; /* The amount of memory allocated at pointer */
 } allocation;
 
 typedef struct memory_allocation_tree_t {
@@ -123,7 +123,7 @@ static void trackAllocation(void* pointer, size_t size) {
 #ifdef __GNUC__
 #pragma GCC diagnostic pop
 #endif
-	record->size = (uint32_t)size;
+	record->size = size;
 
 	// Update the tracking tree with the new allocation.
 #ifndef FIFTYONE_DEGREES_NO_THREADING
@@ -149,7 +149,7 @@ static void trackAllocation(void* pointer, size_t size) {
 }
 
 static void untrackAllocation(void *pointer) {
-	uint32_t size;
+	size_t size;
 	int shard = getShardFromPointer(pointer);
 
 	// Get the size of the memory being freed and free the tracking memory.
-- 
2.43.0


From e553cb085e0f3e840c5f05b8852b1ce2de21b328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:59 +0000
Subject: [PATCH 05/77] fix: memory tracking ignores failed allocations and
 frees of NULL

---
 memory.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/memory.c b/memory.c
index 1328de1..70b7966 100644
--- a/memory.c
+++ b/memory.c
@@ -109,6 +109,11 @@ static void tryInit() {
 }
 
 static void trackAllocation(void* pointer, size_t size) {
+	// Nothing was allocated, so there is nothing to record.
+	if (pointer == NULL) {
+		return;
+	}
+
 	// Create a new tree node to record the allocation.
 	allocation* record = (allocation*)malloc(sizeof(allocation));
 	int shard = getShardFromPointer(pointer);
@@ -150,7 +155,13 @@ static void trackAllocation(void* pointer, size_t size) {
 
 static void untrackAllocation(void *pointer) {
 	size_t size;
-	int shard = getShardFromPointer(pointer);
+	int shard;
+
+	// Freeing NULL frees nothing, so there is no record of it.
+	if (pointer == NULL) {
+		return;
+	}
+	shard = getShardFromPointer(pointer);
 
 	// Get the size of the memory being freed and free the tracking memory.
 #ifndef FIFTYONE_DEGREES_NO_THREADING
-- 
2.43.0


From 30b4b28f2fde2f3ffaebc35e8afcd235b1a7b584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:59 +0000
Subject: [PATCH 06/77] fix: cache shard index is never negative for extreme
 hashes

---
 cache.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cache.c b/cache.c
index 279e989..e3c9cfb 100644
--- a/cache.c
+++ b/cache.c
@@ -385,7 +385,7 @@ fiftyoneDegreesCacheNode* fiftyoneDegreesCacheGet(
 	fiftyoneDegreesException *exception) {
 	CacheNode *node;
 	int64_t keyHash = cache->hash(key);
-	CacheShard *shard = &cache->shards[abs((int)keyHash) % cache->concurrency];
+	CacheShard *shard = &cache->shards[(uint32_t)keyHash % cache->concurrency];
 
 #ifndef FIFTYONE_DEGREES_NO_THREADING
 	FIFTYONE_DEGREES_MUTEX_LOCK(&shard->lock);
-- 
2.43.0


From 3c5dd8bdb3234296223c033864791afa910f3db1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:59 +0000
Subject: [PATCH 07/77] fix: creating a cache without memory returns NULL in
 debug builds too

---
 cache.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/cache.c b/cache.c
index e3c9cfb..c62574a 100644
--- a/cache.c
+++ b/cache.c
@@ -358,9 +358,8 @@ fiftyoneDegreesCache* fiftyoneDegreesCacheCreate(
 		cacheInit(cache);
 	}
 	// Check the cache if in debug mode.
-	assert(cache != NULL);
 #ifdef FIFTYONE_DEGREES_CACHE_VALIDATE
-	assert(cacheValidate(cache));
+	assert(cache == NULL || cacheValidate(cache));
 #endif
 
 	return cache;
-- 
2.43.0


From 42059c49178aca89b2a3fdb209484ec7a3d7f538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:59 +0000
Subject: [PATCH 08/77] fix: a cache node whose load failed can be used again

---
 cache.c | 35 ++++++++++++++++++++++++++++++++---
 1 file changed, 32 insertions(+), 3 deletions(-)

diff --git a/cache.c b/cache.c
index c62574a..cee48ec 100644
--- a/cache.c
+++ b/cache.c
@@ -206,6 +206,25 @@ static void cacheAddToHead(CacheNode *node) {
 	assert(node->shard->last->listNext == NULL);
 }
 
+/**
+ * Adds the node into the linked list at the tail as it holds no entry and
+ * should be the next one to be used.
+ * @param node to add
+ */
+static void cacheAddToTail(CacheNode *node) {
+	CacheShard *shard = node->shard;
+	assert(node->listNext == NULL);
+	assert(node->listPrevious == NULL);
+	node->listPrevious = shard->last;
+	if (shard->last != NULL) {
+		shard->last->listNext = node;
+	}
+	else {
+		shard->first = node;
+	}
+	shard->last = node;
+}
+
 /**
  * Returns the next free node from the cache which can be used to add a
  * new entry to. Once the cache is full then the node returned is the one
@@ -239,11 +258,14 @@ static CacheNode *cacheGetNextFree(CacheShard *shard) {
 		assert(node->activeCount == 0);
 		cacheRemoveFromList(node);
 
-		// Remove the last result from the binary tree.
+		// Remove the last result from the binary tree, unless the node could
+		// not be loaded and so was never added to the tree.
 		#ifdef FIFTYONE_DEGREES_CACHE_VALIDATE
 		countBefore = TreeCount(&shard->root);
 		#endif
-		TreeDelete(&node->tree);
+		if (node->tree.parent != &shard->root.empty) {
+			TreeDelete(&node->tree);
+		}
 		#ifdef FIFTYONE_DEGREES_CACHE_VALIDATE
 		countAfter = TreeCount(&shard->root);
 		assert(countBefore - 1 == countAfter);
@@ -263,7 +285,7 @@ static CacheNode *cacheGetNextFree(CacheShard *shard) {
  * @param shard dictated by the key
  * @param key to get or load
  * @return pointer to the node with data for the key, or NULL if there are no 
- * free nodes
+ * free nodes or the data could not be loaded
  */
 static CacheNode* cacheLoad(
 	CacheShard *shard, 
@@ -286,6 +308,13 @@ static CacheNode* cacheLoad(
 			node->tree.key = shard->cache->hash(key);
 			TreeInsert(&node->tree);
 		}
+		else {
+
+			// The data could not be loaded, so make the node available again.
+			node->activeCount = 0;
+			cacheAddToTail(node);
+			node = NULL;
+		}
 	}
 	return node;
 }
-- 
2.43.0


From 84973961cad8e072ee74de1e66350904f2b71512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:13 +0000
Subject: [PATCH 09/77] fix: an out of range get does not dereference a NULL
 exception

---
 collection.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/collection.c b/collection.c
index 26876cc..8214c86 100644
--- a/collection.c
+++ b/collection.c
@@ -41,7 +41,7 @@ item->data.used = 0; \
 item->data.allocated = 0; \
 item->handle = NULL; \
 item->collection = NULL; \
-if (exception->status == NOT_SET) { \
+if (EXCEPTION_OKAY) { \
 	EXCEPTION_SET(s); \
 }
 #else
-- 
2.43.0


From cee20907fda33efeb44f06d22d1568ea799bb861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:13 +0000
Subject: [PATCH 10/77] fix: a failed read does not leave freed memory in the
 data structure

---
 collection.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/collection.c b/collection.c
index 8214c86..06c29d4 100644
--- a/collection.c
+++ b/collection.c
@@ -1014,6 +1014,7 @@ void* fiftyoneDegreesCollectionReadFileFixed(
 					// The read failed so free the memory allocated and set the
 					// status code.
 					Free(data->ptr);
+					DataReset(data);
 					EXCEPTION_SET(COLLECTION_FILE_READ_FAIL);
 				}
 			}
@@ -1078,6 +1079,7 @@ static void* readFileVariable(
 					}
 					else {
 						Free(data->ptr);
+						DataReset(data);
 						EXCEPTION_SET(COLLECTION_FILE_READ_FAIL);
 					}
 				}
-- 
2.43.0


From 10af3878ea7b13a0b494afdc06cb73f3d27d788b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:13 +0000
Subject: [PATCH 11/77] fix: a variable record smaller than its own header is
 reported as corrupt

---
 collection.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/collection.c b/collection.c
index 06c29d4..ad6124d 100644
--- a/collection.c
+++ b/collection.c
@@ -1060,7 +1060,10 @@ static void* readFileVariable(
 			// Ensure sufficient memory is allocated for the item being
 			// read and that the header is copied to the data buffer
 			// provided by the caller.
-			if (DataMalloc(data, bytesNeeded) != NULL &&
+			if (bytesNeeded < initialSize) {
+				EXCEPTION_SET(CORRUPT_DATA);
+			}
+			else if (DataMalloc(data, bytesNeeded) != NULL &&
 				memcpy(data->ptr, initial, initialSize) == data->ptr) {
 
 				// Read the rest of the item into the item's data 
-- 
2.43.0


From 1078da5924429375830358d655167ace45a22386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:13 +0000
Subject: [PATCH 12/77] fix: a cache load that runs out of memory is reported
 and not cached

---
 collection.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/collection.c b/collection.c
index ad6124d..4edb6da 100644
--- a/collection.c
+++ b/collection.c
@@ -372,11 +372,13 @@ static void loaderCache(
 
 		// If the item from the source collection has bytes then copy them into
 		// the cache node item ensuring sufficient memory is allocated first.
-		if (item.data.used > 0 &&
-			DataMalloc(data, item.data.allocated) != NULL) {
+		if (item.data.used > 0) {
+			if (DataMalloc(data, item.data.allocated) == NULL) {
+				EXCEPTION_SET(INSUFFICIENT_MEMORY);
+			}
 
 			// Copy the data from the collection into the cache.
-			if (memcpy(
+			else if (memcpy(
 				data->ptr,
 				item.data.ptr,
 				item.data.used) == data->ptr) {
-- 
2.43.0


From 952f4537eec0e00b8efea40ed502f8dcda1a8c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:13 +0000
Subject: [PATCH 13/77] fix: a cached item without data does not stay in use

---
 collection.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/collection.c b/collection.c
index 4edb6da..86f7823 100644
--- a/collection.c
+++ b/collection.c
@@ -333,6 +333,12 @@ static void* getFromCache(
 			item->data = node->data;
 			ptr = item->data.ptr;
 		}
+		else {
+
+			// There is nothing to return, so the caller will not release the
+			// item.
+			releaseCache(item);
+		}
 	}
 	else {
 		item->data.used = 0;
-- 
2.43.0


From 048e55c820f08017142b6bc4f30b735a0280d912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:13 +0000
Subject: [PATCH 14/77] fix: creating a collection without memory returns NULL

---
 collection.c | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/collection.c b/collection.c
index 86f7823..843816d 100644
--- a/collection.c
+++ b/collection.c
@@ -544,6 +544,9 @@ static Collection* createFromFile(
 	Collection *collection = createCollection(
 		sizeof(CollectionFile),
 		header);
+	if (collection == NULL) {
+		return NULL;
+	}
 	CollectionFile *fileCollection = (CollectionFile*)collection->state;
 	fileCollection->collection = collection;
 	fileCollection->reader = reader;
@@ -576,9 +579,16 @@ static Collection* createFromFilePartial(
 
 	// Create a file collection to populate the memory collection.
 	Collection *source = createFromFile(file, reader, header, read);
+	if (source == NULL) {
+		return NULL;
+	}
 
 	// Allocate the memory for the collection and implementation.
 	Collection *collection = createCollection(sizeof(CollectionFile), header);
+	if (collection == NULL) {
+		source->freeCollection(source);
+		return NULL;
+	}
 	CollectionMemory *memory = (CollectionMemory*)collection->state;
 	memory->memoryToFree = NULL;
 	memory->collection = collection;
@@ -659,6 +669,9 @@ static Collection* createFromFileCached(
 
 	// Allocate the memory for the collection and implementation.
 	Collection *collection = createCollection(sizeof(CollectionFile), header);
+	if (collection == NULL) {
+		return NULL;
+	}
 	CollectionCache *cache = (CollectionCache*)collection->state;
 	cache->cache = NULL;
 
@@ -778,6 +791,9 @@ fiftyoneDegreesCollection* fiftyoneDegreesCollectionCreateFromMemory(
 	Collection *collection = createCollection(
 		sizeof(CollectionMemory),
 		&header);
+	if (collection == NULL) {
+		return NULL;
+	}
 	CollectionMemory *memory = (CollectionMemory*)collection->state;
 
 	// Configure the fields for the collection.
-- 
2.43.0


From dc2d8f7dc75c188f4e4d0a585a649972af7e4dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:13 +0000
Subject: [PATCH 15/77] fix: the source of a cached collection is freed when
 there is no cache

---
 collection.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/collection.c b/collection.c
index 843816d..de5b77b 100644
--- a/collection.c
+++ b/collection.c
@@ -691,6 +691,7 @@ static Collection* createFromFileCached(
 		cache->source);
 
 	if (cache->cache == NULL) {
+		cache->source->freeCollection(cache->source);
 		freeCacheCollection(collection);
 		return NULL;
 	}
-- 
2.43.0


From 45c0450f095cb55d1a8049ea008464595545aabb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:13 +0000
Subject: [PATCH 16/77] fix: a collection header is not read beyond the end of
 the memory image

---
 collection.c | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/collection.c b/collection.c
index de5b77b..dab66d4 100644
--- a/collection.c
+++ b/collection.c
@@ -756,25 +756,30 @@ fiftyoneDegreesCollectionHeader fiftyoneDegreesCollectionHeaderFromMemory(
 	uint32_t elementSize,
 	bool isCount) {
 	CollectionHeader header;
+	const byte *sizeOrCount = reader->current;
+
+	// Advance the memory reader past the integer, unless the image ends first.
+	if (MemoryAdvance(reader, sizeof(uint32_t)) == false) {
+		header.count = 0;
+		header.length = 0;
+		header.startPosition = 0;
+		return header;
+	}
+
 	if (isCount) {
-		// The next integer is the count of items in the data structure.
-		header.count = *(uint32_t*)reader->current;
+		// The integer is the count of items in the data structure.
+		header.count = *(const uint32_t*)sizeOrCount;
 		header.length = header.count * elementSize;
 	}
 	else {
-		// The next integer is the size of the data structure.
-		header.length = *(const uint32_t*)reader->current;
+		// The integer is the size of the data structure.
+		header.length = *(const uint32_t*)sizeOrCount;
 		header.count = elementSize > 0 ? header.length / elementSize : 0;
 	}
 
-	// Advance the memory reader and record the start of the collection.
-	if (MemoryAdvance(reader, sizeof(uint32_t))) {
-		header.startPosition = (uint32_t)(reader->current - reader->startByte);
-	}
-	else {
-		header.startPosition = 0;
-	}
-	
+	// Record the start of the collection.
+	header.startPosition = (uint32_t)(reader->current - reader->startByte);
+
 	return header;
 }
 
-- 
2.43.0


From 167c10c2eece8c6f99f2d3d2b38efe09051d5c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:13 +0000
Subject: [PATCH 17/77] fix: a header that cannot be read from file is empty

---
 collection.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/collection.c b/collection.c
index dab66d4..5d4f96e 100644
--- a/collection.c
+++ b/collection.c
@@ -861,6 +861,8 @@ fiftyoneDegreesCollectionHeader fiftyoneDegreesCollectionHeaderFromFile(
 		header.startPosition = (uint32_t)ftell(file);
 	}
 	else {
+		header.count = 0;
+		header.length = 0;
 		header.startPosition = 0;
 	}
 
-- 
2.43.0


From 2fa413f8d99bd6642fbdf58de6f35907fc75d9d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:22 +0000
Subject: [PATCH 18/77] fix: a count of items whose total size overflows is
 refused

---
 collection.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/collection.c b/collection.c
index 5d4f96e..3334982 100644
--- a/collection.c
+++ b/collection.c
@@ -769,6 +769,13 @@ fiftyoneDegreesCollectionHeader fiftyoneDegreesCollectionHeaderFromMemory(
 	if (isCount) {
 		// The integer is the count of items in the data structure.
 		header.count = *(const uint32_t*)sizeOrCount;
+		if (elementSize > 0 && header.count > UINT32_MAX / elementSize) {
+			// No image can hold that many items.
+			header.count = 0;
+			header.length = 0;
+			header.startPosition = 0;
+			return header;
+		}
 		header.length = header.count * elementSize;
 	}
 	else {
-- 
2.43.0


From 4a089a1e237566fc15d64f2b7100dc8fdf9bd390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:42 +0000
Subject: [PATCH 19/77] fix: a pool for the greatest concurrency has room for
 all its items

---
 pool.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pool.c b/pool.c
index d23cd84..94d3f54 100644
--- a/pool.c
+++ b/pool.c
@@ -31,13 +31,13 @@ fiftyoneDegreesPool* fiftyoneDegreesPoolInit(
 	fiftyoneDegreesPoolResourceCreate resourceCreate,
 	fiftyoneDegreesPoolResourceFree resourceFree,
 	fiftyoneDegreesException *exception) {
-	uint16_t i = 1;
+	uint32_t i = 1;
 	PoolItem *item;
 
 	// Add one to the concurrency value so that a NULL marker can be 
 	// written as the last item in the linked list that if returned
 	// indicates that the concurrency has been exceeded.
-	uint16_t listItems = concurrency + 1;
+	uint32_t listItems = (uint32_t)concurrency + 1;
 
 	// Set the stack and head of the linked list.
 	pool->count = 0;
@@ -62,7 +62,7 @@ fiftyoneDegreesPool* fiftyoneDegreesPoolInit(
 			item->resource = resourceCreate(pool, state, exception);
 			pool->count++;
 			item->next = pool->head.values.index;
-			pool->head.values.index = i;
+			pool->head.values.index = (uint16_t)i;
 			i++;
 		}
 	}
@@ -133,7 +133,7 @@ void fiftyoneDegreesPoolReset(fiftyoneDegreesPool *pool) {
 
 void fiftyoneDegreesPoolFree(fiftyoneDegreesPool *pool) {
 	void *resource;
-	uint16_t i;
+	uint32_t i;
 	if (pool->stack != NULL) {
 		if (pool->resourceFree != NULL) {
 			for (i = 0; i <= pool->count; i++) {
-- 
2.43.0


From 7449dda80f32376ed6fb467523137d6f3bae67d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:28 +0000
Subject: [PATCH 20/77] fix: a header that cannot be read from memory never
 matches the reader

---
 collection.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/collection.c b/collection.c
index 3334982..14cb6ae 100644
--- a/collection.c
+++ b/collection.c
@@ -762,7 +762,8 @@ fiftyoneDegreesCollectionHeader fiftyoneDegreesCollectionHeaderFromMemory(
 	if (MemoryAdvance(reader, sizeof(uint32_t)) == false) {
 		header.count = 0;
 		header.length = 0;
-		header.startPosition = 0;
+		// Not the position of any collection so that none is created.
+		header.startPosition = UINT32_MAX;
 		return header;
 	}
 
@@ -773,7 +774,7 @@ fiftyoneDegreesCollectionHeader fiftyoneDegreesCollectionHeaderFromMemory(
 			// No image can hold that many items.
 			header.count = 0;
 			header.length = 0;
-			header.startPosition = 0;
+			header.startPosition = UINT32_MAX;
 			return header;
 		}
 		header.length = header.count * elementSize;
-- 
2.43.0


From a7d13b663cf8c2f7cb8a99f66651abd1ddc4c0ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:34 +0000
Subject: [PATCH 21/77] fix: a subnormal number is stored as the bits that
 denote it

---
 float.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/float.c b/float.c
index 56dc875..9d2d09a 100644
--- a/float.c
+++ b/float.c
@@ -96,13 +96,14 @@ fiftyoneDegreesFloatInternal fiftyoneDegreesNativeToFloat(float f) {
 		break;
 	case FP_SUBNORMAL:
 		// If subnormal, leave exponent to 0
-		significand = (float)frexp(f, &exponent);
 		floatU.parts.sign = (f >= 0) ? 0 : -1;
 		/*
-		 * Significand is fractional so time with 2 to power of number of mantissa bits
-		 * to get its integer
+		 * The mantissa is a fraction of the smallest normal number, so time with 2 to
+		 * power of (bias - 1) and number of mantissa bits to get its integer
 		 */
-		floatU.parts.mantissa = (int)(fabsf(significand) * powf(FIFTYONE_DEGREES_FLOAT_RADIX, FIFTYONE_DEGREES_FLOAT_MANT_SIZE));
+		floatU.parts.mantissa = (int)(fabsf(f)
+			* powf(FIFTYONE_DEGREES_FLOAT_RADIX, FIFTYONE_DEGREES_FLOAT_BIAS - 1)
+			* powf(FIFTYONE_DEGREES_FLOAT_RADIX, FIFTYONE_DEGREES_FLOAT_MANT_SIZE));
 		break;
 	case FP_NORMAL:
 		significand = (float)frexp(f, &exponent);
-- 
2.43.0


From 0bd38b3812fe23529d562d439658e5d2eb95287e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:16 +0000
Subject: [PATCH 22/77] fix: a resource is not replaced without memory for its
 handle

---
 resource.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/resource.c b/resource.c
index 833140c..190bc83 100644
--- a/resource.c
+++ b/resource.c
@@ -138,6 +138,11 @@ static void setupResource(
 			sizeof(InterlockDoubleWidth),
 			sizeof(ResourceHandle));
 
+	if (handle == NULL) {
+		*resourceHandle = NULL;
+		return;
+	}
+
 	// Set the handle and the number of users of the resource to zero.
 	handle->counter = emptyCounter();
 	setHandle(&handle->counter, handle);
@@ -332,6 +337,10 @@ void fiftyoneDegreesResourceReplace(
 		newResource,
 		newResourceHandle,
 		manager->active->freeResource);
+	if (*newResourceHandle == NULL) {
+		// The existing resource stays active.
+		return;
+	}
 	assert(getInUse(&(*newResourceHandle)->counter) == 0);
 	assert(getHandle(&(*newResourceHandle)->counter) == *newResourceHandle);
 #ifndef FIFTYONE_DEGREES_NO_THREADING
-- 
2.43.0


From fbb7a827074a5c05e8b80a7cffbde03c53536244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:16 +0000
Subject: [PATCH 23/77] fix: freeing a resource manager needs no memory

---
 resource.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/resource.c b/resource.c
index 190bc83..c0bb7ad 100644
--- a/resource.c
+++ b/resource.c
@@ -188,15 +188,15 @@ void fiftyoneDegreesResourceManagerFree(
 	// active handle won't change at this point.
 	// Thus, it is safe to perform assertion directly
 	// to the active handle here. 
-	assert(getInUse(&manager->active->counter) >= 0);
 	if (manager->active != NULL) {
+		assert(getInUse(&manager->active->counter) >= 0);
 
-		ResourceHandle* newHandlePointer;
-		fiftyoneDegreesResourceReplace(
-			manager,
-			NULL,
-			&newHandlePointer);
-		FreeAligned(newHandlePointer);
+		// Use the active handle so that it can't be freed until there is no
+		// active handle, then release it. If nothing else is holding onto a
+		// reference to it then it will be freed.
+		ResourceHandle* handle = ResourceHandleIncUse(manager);
+		manager->active = NULL;
+		ResourceHandleDecUse(handle);
 	}
 }
 
-- 
2.43.0


From 8161145f5bf2ed6f7ee2998437d9d8426b64ee9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:16 +0000
Subject: [PATCH 24/77] fix: a resource replaced at the same time as another
 becomes active

---
 resource.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resource.c b/resource.c
index c0bb7ad..de0bedb 100644
--- a/resource.c
+++ b/resource.c
@@ -353,7 +353,7 @@ void fiftyoneDegreesResourceReplace(
 	} while (INTERLOCK_EXCHANGE_PTR(
 		manager->active,
 		*newResourceHandle,
-		oldHandle) == false);
+		oldHandle) != oldHandle);
 #else
 	oldHandle = ResourceHandleIncUse(manager);
 	manager->active = *newResourceHandle;
-- 
2.43.0


From 71605bb40a2869590a63634e517dd39f7aa204d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:31 +0000
Subject: [PATCH 25/77] fix: a list without memory is empty

---
 list.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/list.c b/list.c
index 14c73fc..1e527f2 100644
--- a/list.c
+++ b/list.c
@@ -27,12 +27,13 @@
 fiftyoneDegreesList* fiftyoneDegreesListInit(
 	fiftyoneDegreesList *list, 
 	uint32_t capacity) {
+	list->count = 0;
+	list->capacity = 0;
 	list->items = (Item*)Malloc(capacity * sizeof(Item));
 	if (list->items == NULL) {
 		return NULL;
 	}
 	list->capacity = capacity;
-	list->count = 0;
 	return list;
 }
 
-- 
2.43.0


From 7c2235fafd232acf1f6d1ab68cd234ef55fcb5d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:31 +0000
Subject: [PATCH 26/77] fix: an aligned allocation is a multiple of its
 alignment

---
 memory.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/memory.c b/memory.c
index 70b7966..4bd4a1e 100644
--- a/memory.c
+++ b/memory.c
@@ -68,12 +68,21 @@ bool fiftyoneDegreesMemoryAdvance(
 	return true;
 }
 
+static size_t alignedSize(int alignment, size_t size) {
+	size_t remainder = size % alignment;
+	return remainder == 0 ? size : size + alignment - remainder;
+}
+
 void* fiftyoneDegreesMemoryStandardMalloc(size_t size) {
 	return malloc(size);
 }
 
 void* fiftyoneDegreesMemoryStandardMallocAligned(int alignment, size_t size) {
-	size += size % alignment;
+	size_t aligned = alignedSize(alignment, size);
+	if (aligned < size) {
+		return NULL;
+	}
+	size = aligned;
 #if defined( _MSC_VER) || defined(__MINGW32__) || defined(__MINGW64__)
 	return _aligned_malloc(size, alignment);
 #elif defined (__APPLE__)
@@ -206,7 +215,7 @@ void* fiftyoneDegreesMemoryTrackingMallocAligned(
 		size);
 
 	// Track the allocation.
-	trackAllocation(pointer, size + size % alignment);
+	trackAllocation(pointer, alignedSize(alignment, size));
 	return pointer;
 }
 
-- 
2.43.0


From 5442328a4580afda6696fe2deef96ce35e1977c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:31 +0000
Subject: [PATCH 27/77] fix: memory allocated before a reset of the tracker
 does not count

---
 memory.c | 29 ++++++++++++++++++++++++++---
 1 file changed, 26 insertions(+), 3 deletions(-)

diff --git a/memory.c b/memory.c
index 4bd4a1e..f1af8ac 100644
--- a/memory.c
+++ b/memory.c
@@ -186,12 +186,18 @@ static void untrackAllocation(void *pointer) {
 #ifdef __GNUC__
 #pragma GCC diagnostic pop
 #endif
-	assert(record != NULL);
-	size = record->size;
-	fiftyoneDegreesTreeDelete(&record->tree);
+	if (record != NULL) {
+		fiftyoneDegreesTreeDelete(&record->tree);
+	}
 #ifndef FIFTYONE_DEGREES_NO_THREADING
 	FIFTYONE_DEGREES_MUTEX_UNLOCK(&state.locks[shard]);
 #endif
+
+	// The memory was allocated before the last reset and is not tracked.
+	if (record == NULL) {
+		return;
+	}
+	size = record->size;
 	free(record);
 
 #ifndef FIFTYONE_DEGREES_NO_THREADING
@@ -277,6 +283,23 @@ void fiftyoneDegreesMemoryTrackingReset() {
 		FIFTYONE_DEGREES_MUTEX_CREATE(state.lock);
 #endif
 	}
+	else {
+		// Memory allocated before now does not count any more.
+		for (i = 0; i < FIFTYONE_DEGREES_MEMORY_TRACKER_SHARDS; i++) {
+			TreeRoot* root = &state.roots[i];
+#ifndef FIFTYONE_DEGREES_NO_THREADING
+			FIFTYONE_DEGREES_MUTEX_LOCK(&state.locks[i]);
+#endif
+			while (root->root.left != &root->empty) {
+				TreeNode* node = root->root.left;
+				fiftyoneDegreesTreeDelete(node);
+				free(node);
+			}
+#ifndef FIFTYONE_DEGREES_NO_THREADING
+			FIFTYONE_DEGREES_MUTEX_UNLOCK(&state.locks[i]);
+#endif
+		}
+	}
 	state.allocated = 0;
 	state.max = 0;
 	initialised = true;
-- 
2.43.0


From 4f4565fef8f40346f1a19d1e33d2dac94211f72b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:32 +0000
Subject: [PATCH 28/77] fix: text without the segments of an IP address is
 refused

---
 ip.c | 84 +++++++++++++++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 69 insertions(+), 15 deletions(-)

diff --git a/ip.c b/ip.c
index aebc4ab..4ad83d9 100644
--- a/ip.c
+++ b/ip.c
@@ -31,21 +31,59 @@ typedef void(*parseIterator)(
 	const char *end);
 
 /**
- * State is an integer which is increased every time the method is called.
+ * The number of bytes and abbreviations found in the value, and whether any
+ * segment is one that can't be part of an address.
+ */
+typedef struct ip_address_count_t {
+	int bytes;
+	int abbreviations;
+	bool invalid;
+} ipAddressCount;
+
+/**
+ * State is a count which is increased every time the method is called.
  */
 static void callbackIpAddressCount(
 	void *state,
 	EvidenceIpType segmentType,
 	const char *start,
 	const char *end) {
+	ipAddressCount *count = (ipAddressCount*)state;
+	if (segmentType == FIFTYONE_DEGREES_EVIDENCE_IP_TYPE_INVALID) {
+		return;
+	}
 	if (start <= end) {
-		if (segmentType != FIFTYONE_DEGREES_EVIDENCE_IP_TYPE_INVALID) {
-			(*(int*)state)++;
-			if (segmentType == FIFTYONE_DEGREES_EVIDENCE_IP_TYPE_IPV6) {
-				(*(int*)state)++;
-			}
+		count->bytes++;
+		if (segmentType == FIFTYONE_DEGREES_EVIDENCE_IP_TYPE_IPV6) {
+			count->bytes++;
 		}
 	}
+	else if (segmentType == FIFTYONE_DEGREES_EVIDENCE_IP_TYPE_IPV6) {
+		count->abbreviations++;
+	}
+	else {
+		count->invalid = true;
+	}
+}
+
+/**
+ * Whether the segments counted are those of an address of the type.
+ */
+static bool isIpAddress(EvidenceIpType type, const ipAddressCount *count) {
+	if (count->invalid) {
+		return false;
+	}
+	switch (type) {
+	case FIFTYONE_DEGREES_EVIDENCE_IP_TYPE_IPV4:
+		return count->bytes == FIFTYONE_DEGREES_IPV4_LENGTH;
+	case FIFTYONE_DEGREES_EVIDENCE_IP_TYPE_IPV6:
+		return count->abbreviations == 0 ?
+			count->bytes == FIFTYONE_DEGREES_IPV6_LENGTH :
+			count->abbreviations == 1 &&
+			count->bytes <= FIFTYONE_DEGREES_IPV6_LENGTH;
+	default:
+		return false;
+	}
 }
 
 /*
@@ -210,7 +248,7 @@ fiftyoneDegreesEvidenceIpAddress* fiftyoneDegreesIpParseAddress(
 	void*(*malloc)(size_t),
 	const char *start,
 	const char *end) {
-	int count = 0;
+	ipAddressCount count = { 0, 0, false };
 	EvidenceIpAddress *address;
 	EvidenceIpType type = iterateIpAddress(
 		start,
@@ -219,6 +257,16 @@ fiftyoneDegreesEvidenceIpAddress* fiftyoneDegreesIpParseAddress(
 		FIFTYONE_DEGREES_EVIDENCE_IP_TYPE_INVALID,
 		callbackIpAddressCount);
 
+	// Count again now that the type is known, so that exactly what is counted
+	// is what will be built.
+	count.bytes = 0;
+	count.abbreviations = 0;
+	count.invalid = false;
+	iterateIpAddress(start, end, &count, type, callbackIpAddressCount);
+	if (isIpAddress(type, &count) == false) {
+		type = FIFTYONE_DEGREES_EVIDENCE_IP_TYPE_INVALID;
+	}
+
 	address = mallocIpAddress(malloc, type);
 	if (address != NULL) {
 		// Set the address of the byte array to the byte following the
@@ -227,15 +275,21 @@ fiftyoneDegreesEvidenceIpAddress* fiftyoneDegreesIpParseAddress(
 		address->address = (byte*)(address + 1);
 		// Set the next byte to be added during the parse operation.
 		address->current = (byte*)(address + 1);
-		address->bytesPresent = (byte)count;
+		address->bytesPresent = (byte)count.bytes;
 		address->type = type;
-		// Add the bytes from the source value and get the type of address.
-		iterateIpAddress(
-			start,
-			end,
-			address,
-			type,
-			callbackIpAddressBuild);
+		if (type == FIFTYONE_DEGREES_EVIDENCE_IP_TYPE_INVALID) {
+			// There are no bytes in the source value.
+			memset(address->address, 0, FIFTYONE_DEGREES_IPV6_LENGTH);
+		}
+		else {
+			// Add the bytes from the source value.
+			iterateIpAddress(
+				start,
+				end,
+				address,
+				type,
+				callbackIpAddressBuild);
+		}
 		address->next = NULL;
 	}
 	return address;
-- 
2.43.0


From 18e471c2073167b8e74486c6fa9dca631333d487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:32 +0000
Subject: [PATCH 29/77] fix: an IP address segment is not read beyond its end

---
 ip.c | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/ip.c b/ip.c
index 4ad83d9..0106c40 100644
--- a/ip.c
+++ b/ip.c
@@ -104,6 +104,22 @@ static byte getIpByte(int parsedValue) {
 	return (byte)parsedValue;
 }
 
+/**
+ * Parse the decimal digits at the start of the segment without going beyond
+ * its end. Values greater than a byte can hold stay greater.
+ */
+static int parseIpV4Segment(const char *start, const char *end) {
+	int value = 0;
+	while (start <= end &&
+		*start >= '0' &&
+		*start <= '9' &&
+		value <= UINT8_MAX) {
+		value = value * 10 + (*start - '0');
+		start++;
+	}
+	return value;
+}
+
 static void parseIpV6Segment(
 	EvidenceIpAddress *address,
 	const char *start,
@@ -142,7 +158,7 @@ static void callbackIpAddressBuild(
 	const char *end) {
 	EvidenceIpAddress *address = (EvidenceIpAddress*)state;
 	if (segmentType == FIFTYONE_DEGREES_EVIDENCE_IP_TYPE_IPV4) {
-		*address->current = getIpByte(atoi(start));
+		*address->current = getIpByte(parseIpV4Segment(start, end));
 		address->current++;
 	}
 	else if (segmentType == FIFTYONE_DEGREES_EVIDENCE_IP_TYPE_IPV6) {
-- 
2.43.0


From b32889dcaedf68210e50de40d2adfb21149665b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:32 +0000
Subject: [PATCH 30/77] fix: a copy of an IP address has all of its bytes

---
 IpAddress.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/IpAddress.cpp b/IpAddress.cpp
index a3933d0..36d3368 100644
--- a/IpAddress.cpp
+++ b/IpAddress.cpp
@@ -74,8 +74,8 @@ void IpAddress::init(const unsigned char * const ipAddressData,
 
 void IpAddress::getCopyOfIpAddress(unsigned char copy[], const uint32_t size) const {
     const uint32_t dataSize = ((type == FIFTYONE_DEGREES_EVIDENCE_IP_TYPE_IPV4)
-        ? FIFTYONE_DEGREES_EVIDENCE_IP_TYPE_IPV4
-        : FIFTYONE_DEGREES_EVIDENCE_IP_TYPE_IPV6);
+        ? FIFTYONE_DEGREES_IPV4_LENGTH
+        : FIFTYONE_DEGREES_IPV6_LENGTH);
 	const uint32_t copySize = (size < dataSize) ? size : dataSize;
 	memcpy(copy, ipAddress, copySize);
 }
-- 
2.43.0


From 4d479b1ebe21daa68f4264b802594b59ecbf62c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:10 +0000
Subject: [PATCH 31/77] fix: freeing IP addresses frees the memory allocated
 for them

---
 ip.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ip.c b/ip.c
index 0106c40..da67c50 100644
--- a/ip.c
+++ b/ip.c
@@ -256,7 +256,7 @@ void fiftyoneDegreesIpFreeAddresses(
 	while (current != NULL) {
 		prev = current;
 		current = current->next;
-		free(prev->address);
+		free(prev);
 	}
 }
 
-- 
2.43.0


From e98fd250f18b1847125afe49a1fbcebaa6f852b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:48 +0000
Subject: [PATCH 32/77] fix: separators before a list of IP addresses are not
 part of the first

---
 ip.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ip.c b/ip.c
index da67c50..b55ddb7 100644
--- a/ip.c
+++ b/ip.c
@@ -318,6 +318,11 @@ fiftyoneDegreesEvidenceIpAddress* fiftyoneDegreesIpParseAddresses(
 	EvidenceIpAddress *head = NULL;
 	EvidenceIpAddress *last = NULL;
 	EvidenceIpAddress *item = NULL;
+	// A separator before the first address is not part of it.
+	while (*current == ' ' || *current == ',') {
+		current++;
+	}
+	start = current;
 	while (*current != '\0') {
 		current++;
 		if (*current == ' ' ||
-- 
2.43.0


From af9eb8957c3a2f308cf4bba3aa4c019576b7a518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:18 +0000
Subject: [PATCH 33/77] fix: a status message is complete, and there is none
 without memory

---
 status.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/status.c b/status.c
index 8ba7735..02bdfc0 100644
--- a/status.c
+++ b/status.c
@@ -149,12 +149,14 @@ const char* fiftyoneDegreesStatusGetMessage(
 			if (message != NULL) {
 				Snprintf(message, messageSize, current->message, fileName);
 			}
-			break;
+			return message;
 		}
 	}
-	if( message == NULL) {
-		messageSize = sizeof(defaultMessage) + 5;
-		message = (char*)Malloc(messageSize);
+
+	// defaultMessage including '\0' + longest integer - "%i"
+	messageSize = sizeof(defaultMessage) + sizeof("-2147483648") - 1 - 2;
+	message = (char*)Malloc(messageSize);
+	if (message != NULL) {
 		Snprintf(message, messageSize, defaultMessage, (int)status);
 	}
 	return message;
-- 
2.43.0


From 0af3ce67fff25f6524e4541650a2e4e2748ec3d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:18 +0000
Subject: [PATCH 34/77] fix: an exception has no message without memory

---
 exceptionsc.c | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/exceptionsc.c b/exceptionsc.c
index ad5db21..614545c 100644
--- a/exceptionsc.c
+++ b/exceptionsc.c
@@ -44,14 +44,16 @@ const char* fiftyoneDegreesExceptionGetMessage(
 		length += exception->func != NULL ? strlen(exception->func) : 0;
 		length += 10; // add 10 for line number
 		exceptionMessage = (char*)Malloc(length);
-		Snprintf(
-			exceptionMessage,
-			length,
-			format,
-			statusMessage,
-			exception->file,
-			exception->func,
-			exception->line);
+		if (exceptionMessage != NULL) {
+			Snprintf(
+				exceptionMessage,
+				length,
+				format,
+				statusMessage,
+				exception->file,
+				exception->func,
+				exception->line);
+		}
 		Free((void*)statusMessage);
 	}
 	return exceptionMessage;
-- 
2.43.0


From 6aaf351e6323b300f65b2affe93155a4002eaee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:55 +0000
Subject: [PATCH 35/77] fix: a busy file has a status message

---
 status.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/status.c b/status.c
index 02bdfc0..2cccf62 100644
--- a/status.c
+++ b/status.c
@@ -43,6 +43,8 @@ static StatusMessage messages[] = {
 	{ FILE_NOT_FOUND,
 		"The data file '%s' could not be found. Check the file path and that "
 		"the program has sufficient read permissions." },
+	{ FILE_BUSY,
+		"The data file '%s' is in use." },
 	{ FILE_FAILURE,
 		"An unknown error occurred accessing the file '%s'. Check the file "
 		"path and that the program has sufficient read permissions." },
-- 
2.43.0


From 36f8e8337931e1c2b2010b5ba0679456331588eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:53 +0000
Subject: [PATCH 36/77] fix: headers have capacity for names that start or end
 with a separator

---
 headers.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/headers.c b/headers.c
index 4b50964..43ee746 100644
--- a/headers.c
+++ b/headers.c
@@ -70,9 +70,9 @@ static int countAllSegments(void* state, HeadersGetMethod get) {
 		segments = countHeaderSegments(STRING(name.data.ptr));
 		count += segments;
 
-		// If there are more than one segment then this is a pseudo header and 
-		// the count should also include the full header.
-		if (segments > 1) {
+		// If the name contains separators then the full header is different to
+		// its segments, and the count should also include the full header.
+		if (fiftyoneDegreesHeadersIsPseudo(STRING(name.data.ptr))) {
 			count++;
 		}
 		COLLECTION_RELEASE(name.collection, &name);
-- 
2.43.0


From 65c7c120ab97b445ea7c47bd35ea01cbd983d70e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:53 +0000
Subject: [PATCH 37/77] fix: a header that can't be created releases its name

---
 headers.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/headers.c b/headers.c
index 43ee746..ba85f7a 100644
--- a/headers.c
+++ b/headers.c
@@ -199,7 +199,11 @@ static bool setHeaderFromDataSet(
 	header->isDataSet = true;
 	header->uniqueId = uniqueId;
 	header->segments = createSegmentArray(header->name);
-	return header->segments != NULL;
+	if (header->segments == NULL) {
+		Free((void*)header->name);
+		return false;
+	}
+	return true;
 }
 
 /**
@@ -280,6 +284,7 @@ static bool addHeadersFromDataSet(
 				name,
 				nameLength,
 				(HeaderID)uniqueId) == false) {
+				COLLECTION_RELEASE(item.collection, &item);
 				return false;
 			}
 
-- 
2.43.0


From e562cbed5a882be08a8209a04fd69176b23546d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:53 +0000
Subject: [PATCH 38/77] fix: the HTTP_ prefix of a name of one character is
 ignored

---
 headers.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/headers.c b/headers.c
index ba85f7a..8db2061 100644
--- a/headers.c
+++ b/headers.c
@@ -382,7 +382,7 @@ int fiftyoneDegreesHeaderGetIndex(
 	// Check if header is from a Perl or PHP wrapper in the form of HTTP_*
 	// and if present skip these characters.
 	if (headers->expectUpperPrefixedHeaders == true &&
-		length > sizeof(HTTP_PREFIX_UPPER) &&
+		length > sizeof(HTTP_PREFIX_UPPER) - 1 &&
 		StringCompareLength(
 			httpHeaderName,
 			HTTP_PREFIX_UPPER,
-- 
2.43.0


From 26ffed1e626419fda257c892cd70e5046aeb3c9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:43 +0000
Subject: [PATCH 39/77] fix: pseudo evidence is not added beyond its capacity

---
 pseudoheader.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pseudoheader.c b/pseudoheader.c
index c2f14ec..e9724b6 100644
--- a/pseudoheader.c
+++ b/pseudoheader.c
@@ -179,8 +179,10 @@ fiftyoneDegreesPseudoHeadersAddEvidence(
             i < acceptedHeaders->count && EXCEPTION_OKAY;
             i++) {
             header = &acceptedHeaders->items[i];
-            // Only add evidence for pseudo header
-            if (HeadersIsPseudo(header->name)) {
+            // Only add evidence for pseudo header if there is space for it
+            if (HeadersIsPseudo(header->name) &&
+                evidence->pseudoEvidence->count <
+                evidence->pseudoEvidence->capacity) {
                 // Prioritise the supplied evidence. If an evidence exists
                 // for a pseudo header then don't construct the evidence
                 // for it.
-- 
2.43.0


From 8acab92603b1d3d75dcd5e6dc7e33d7173b56b79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:43 +0000
Subject: [PATCH 40/77] fix: pseudo headers without pseudo evidence are
 reported

---
 pseudoheader.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pseudoheader.c b/pseudoheader.c
index e9724b6..e6ca443 100644
--- a/pseudoheader.c
+++ b/pseudoheader.c
@@ -174,7 +174,9 @@ fiftyoneDegreesPseudoHeadersAddEvidence(
     char* buffer = NULL;
     int charAdded;
     uint32_t i;
-    if (evidence != NULL && acceptedHeaders != NULL) {
+    if (evidence != NULL &&
+        evidence->pseudoEvidence != NULL &&
+        acceptedHeaders != NULL) {
         for (i = 0;
             i < acceptedHeaders->count && EXCEPTION_OKAY;
             i++) {
-- 
2.43.0


From f968124ceaea099ac59fa7268577ca23a6f2240b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:49 +0000
Subject: [PATCH 41/77] fix: truncated pseudo evidence still needs all of its
 parts

---
 pseudoheader.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/pseudoheader.c b/pseudoheader.c
index e6ca443..f0b7c44 100644
--- a/pseudoheader.c
+++ b/pseudoheader.c
@@ -111,6 +111,20 @@ static int constructPseudoEvidence(
 			return added;
 		}
 		else if (added >= max - current) {
+            // If there is no evidence value for one of the remaining segments
+            // then the header can't be constructed so return.
+            for (i++; i < header->segments->count; i++) {
+                if (getEvidenceValueForHeader(
+                    &header->segments->items[i],
+                    evidence,
+                    prefix) == NULL) {
+                    if (bufferSize > 0) {
+                        memset(buffer, '\0', 1);
+                    }
+                    return 0;
+                }
+            }
+
             // Don't nullify the buffer in this case, just report that
             // it is truncated.
             return (int)(current - buffer + added);
-- 
2.43.0


From e3a1bfcd6e73ee3ccb566735006788e180b2a185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:05 +0000
Subject: [PATCH 42/77] fix: the prefix of an override of a one character
 property is skipped

---
 overrides.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/overrides.c b/overrides.c
index 675e84c..d231c6f 100644
--- a/overrides.c
+++ b/overrides.c
@@ -94,7 +94,7 @@ static bool startsWith(String *string, String *prefix) {
  */
 static const char* skipPrefix(bool prefixed, const char *field) {
 	char *result = (char*)field;
-	if (prefixed == true && strlen(result) > sizeof(OVERRIDE_PREFIX) &&
+	if (prefixed == true && strlen(result) >= sizeof(OVERRIDE_PREFIX) &&
 		StringCompareLength(
 			field,
 			OVERRIDE_PREFIX,
-- 
2.43.0


From dfb03070cf07d62b0618f7267caf1c72d27e3509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:05 +0000
Subject: [PATCH 43/77] fix: override profile ids are the ids in the evidence

---
 overrides.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/overrides.c b/overrides.c
index d231c6f..0ee00d7 100644
--- a/overrides.c
+++ b/overrides.c
@@ -405,9 +405,9 @@ void fiftyoneDegreesOverrideValuesReset(
 
 static void extractProfileId(char *value, overrideProfileIds *state) {
 	if (*value >= 0 && isdigit(*value) != 0) {
-		int profileId = atoi(value);
-		if (profileId >= 0) {
-			state->override(state->state, profileId);
+		unsigned long long profileId = strtoull(value, NULL, 10);
+		if (profileId <= UINT32_MAX) {
+			state->override(state->state, (uint32_t)profileId);
 		}
 	}
 }
-- 
2.43.0


From d66596c60db4e17c0a44d9ece1d274d10fdf743b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:05 +0000
Subject: [PATCH 44/77] fix: an override is added whenever there is room for
 it, and only then

---
 overrides.c | 57 +++++++++++++++++++++++++++++++++++------------------
 1 file changed, 38 insertions(+), 19 deletions(-)

diff --git a/overrides.c b/overrides.c
index 0ee00d7..eb45cb5 100644
--- a/overrides.c
+++ b/overrides.c
@@ -36,6 +36,7 @@ typedef struct add_state_t {
 									   overridden */
 	OverrideValueArray *values; /* Values from evidence to use when fetching
 								overridden properties */
+	uint32_t count; /* Number of override values added */
 } addState;
 
 #ifdef _MSC_VER
@@ -134,7 +135,11 @@ bool fiftyoneDegreesOverridesAdd(
 	size_t length;
 	String *copy;
 	OverrideValue *override;
-	if (requiredPropertyIndex >= 0 && values->count < values->capacity) {
+	bool added = false;
+
+	// Ensure that the length of the value fits the size of a string.
+	length = strlen(value);
+	if (requiredPropertyIndex >= 0 && length < INT16_MAX) {
 
 		// Set the override either as a new item, or override an existing
 		// one if there is already one with the same required property
@@ -144,28 +149,39 @@ bool fiftyoneDegreesOverridesAdd(
 			requiredPropertyIndex) {
 			currentOverrideIndex++;
 		}
-		override = &values->items[currentOverrideIndex];
-
-		if (currentOverrideIndex == values->count) {
-			// Increment the override count and set the required property
-			// index.
-			values->count++;
-			override->requiredPropertyIndex = requiredPropertyIndex;
+		if (currentOverrideIndex >= values->capacity) {
+			return false;
 		}
+		override = &values->items[currentOverrideIndex];
 
 		// Ensure there is sufficient memory for the string being copied.
-		length = strlen(value);
 		copy = (String*)fiftyoneDegreesDataMalloc(
 			&override->string,
 			sizeof(String) + length);
 
-		// Copy the string from the evidence pair to the override data 
-		// item.
-		memcpy(&copy->value, value, length + 1);
-		copy->size = (int16_t)(length + 1);
+		if (copy != NULL) {
+			if (currentOverrideIndex == values->count) {
+				// Increment the override count and set the required property
+				// index.
+				values->count++;
+				override->requiredPropertyIndex = requiredPropertyIndex;
+			}
+
+			// Copy the string from the evidence pair to the override data 
+			// item.
+			memcpy(&copy->value, value, length + 1);
+			copy->size = (int16_t)(length + 1);
+			added = true;
+		}
+		else if (currentOverrideIndex < values->count) {
+			// The memory for the previous value is gone, so remove it.
+			values->count--;
+			*override = values->items[values->count];
+			DataReset(&values->items[values->count].string);
+		}
 	}
 
-	return values->count < values->capacity;
+	return added;
 }
 
 
@@ -177,10 +193,13 @@ static bool addOverrideToResults(void *state, EvidenceKeyValuePair *pair) {
 		add->properties,
 		pair->field);
 
-	return fiftyoneDegreesOverridesAdd(
+	if (fiftyoneDegreesOverridesAdd(
 		add->values,
 		requiredPropertyIndex,
-		(const char*)pair->parsedValue);
+		(const char*)pair->parsedValue)) {
+		add->count++;
+	}
+	return true;
 }
 
 static uint32_t countOverridableProperties(
@@ -256,18 +275,18 @@ uint32_t fiftyoneDegreesOverridesExtractFromEvidence(
 	fiftyoneDegreesOverrideValueArray *values,
 	fiftyoneDegreesEvidenceKeyValuePairArray *evidence) {
 	addState state;
-	uint32_t count = 0;
+	state.count = 0;
 	if (properties != NULL && values != NULL) {
 		state.values = values;
 		state.properties = properties;
-		count = EvidenceIterate(
+		EvidenceIterate(
 			evidence,
 			FIFTYONE_DEGREES_EVIDENCE_COOKIE | 
 			FIFTYONE_DEGREES_EVIDENCE_QUERY,
 			&state,
 			addOverrideToResults);
 	}
-	return count;
+	return state.count;
 }
 
 fiftyoneDegreesString* fiftyoneDegreesOverrideValuesGetFirst(
-- 
2.43.0


From 277bb21f965c3f239a4fd20cdb9fad1f1ce110a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:55 +0000
Subject: [PATCH 45/77] fix: property names are released to the strings they
 came from

---
 property.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/property.c b/property.c
index 9ee0eb6..681a77c 100644
--- a/property.c
+++ b/property.c
@@ -137,7 +137,7 @@ fiftyoneDegreesProperty* fiftyoneDegreesPropertyGetByName(
 				}
 
 				// Release the property name as this is not needed again.
-				COLLECTION_RELEASE(properties, &propertyNameItem);
+				COLLECTION_RELEASE(strings, &propertyNameItem);
 			}
 		}
 	}
-- 
2.43.0


From 0ed8a4a577ec8586cc27df8f6e8683ed90d4fde8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:55 +0000
Subject: [PATCH 46/77] fix: a property without a name is released

---
 property.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/property.c b/property.c
index 681a77c..89e22c2 100644
--- a/property.c
+++ b/property.c
@@ -139,6 +139,12 @@ fiftyoneDegreesProperty* fiftyoneDegreesPropertyGetByName(
 				// Release the property name as this is not needed again.
 				COLLECTION_RELEASE(strings, &propertyNameItem);
 			}
+			else {
+
+				// The name is not available so release the property.
+				property = NULL;
+				COLLECTION_RELEASE(properties, item);
+			}
 		}
 	}
 	return property;
-- 
2.43.0


From 99a08dc2bfaf52e1656527e9e04f811699a97da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:55 +0000
Subject: [PATCH 47/77] fix: the key value pair after the last is out of range

---
 component.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/component.c b/component.c
index 34de863..922eb0e 100644
--- a/component.c
+++ b/component.c
@@ -67,7 +67,7 @@ const fiftyoneDegreesComponentKeyValuePair* fiftyoneDegreesComponentGetKeyValueP
 	uint16_t index,
 	fiftyoneDegreesException *exception) {
 #ifndef FIFTYONE_DEGREES_EXCEPTIONS_DISABLED
-	if (index > component->keyValuesCount) {
+	if (index >= component->keyValuesCount) {
 		EXCEPTION_SET(COLLECTION_INDEX_OUT_OF_RANGE);
 		return NULL;
 	}
-- 
2.43.0


From 5e924568dcd8c09b125cdfbe8c21781c3f17de73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:55 +0000
Subject: [PATCH 48/77] fix: no value matches text that is not an IP address

---
 value.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/value.c b/value.c
index 32ef169..c648832 100644
--- a/value.c
+++ b/value.c
@@ -116,6 +116,10 @@ static int compareIpAddress(String *value, const char *target) {
 		}
 		Free(ipAddress);
 	}
+	else {
+		// This will eventually end with no value found
+		result = -1;
+	}
 	return result;
 }
 
-- 
2.43.0


From 6a407f43d284ebcbb6988556daaac8c435ec01f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:55 +0000
Subject: [PATCH 49/77] fix: a property without values has no value index

---
 value.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/value.c b/value.c
index c648832..31d9733 100644
--- a/value.c
+++ b/value.c
@@ -208,6 +208,9 @@ long fiftyoneDegreesValueGetIndexByName(
 	Item item;
 	valueSearch search;
 	long index;
+	if ((int)property->firstValueIndex == -1) {
+		return -1;
+	}
 	DataReset(&item.data);
 	search.valueName = valueName;
 	search.strings = strings;
-- 
2.43.0


From f39cb5821f6bb711dddbe8cedf741f70b05e0991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:55 +0000
Subject: [PATCH 50/77] fix: values after the last of a profile are not read

---
 profile.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/profile.c b/profile.c
index 8a1a2c0..45ad338 100644
--- a/profile.c
+++ b/profile.c
@@ -128,8 +128,8 @@ static uint32_t iterateValues(
 	// Loop through until the last value for the property has been returned
 	// or the callback doesn't need to continue.
 	while (cont == true &&
-		*valueIndex <= property->lastValueIndex &&
 		valueIndex < maxValueIndex &&
+		*valueIndex <= property->lastValueIndex &&
 		EXCEPTION_OKAY) {
 
 		// Reset the items as they should never share the same memory.
@@ -323,9 +323,9 @@ uint32_t fiftyoneDegreesProfileIterateProfilesForPropertyAndValue(
 						if (profileValueIndex != NULL) {
 							maxProfileValueIndex = ((uint32_t*)(profile + 1)) +
 								profile->valueCount;
-							while (*profileValueIndex <=
-								property->lastValueIndex &&
-								profileValueIndex < maxProfileValueIndex) {
+							while (profileValueIndex < maxProfileValueIndex &&
+								*profileValueIndex <=
+								property->lastValueIndex) {
 								if ((uint32_t)valueIndex ==
 									*profileValueIndex) {
 									callback(state, &profileItem);
-- 
2.43.0


From 2aa5b743f73db1277f5ccb87f5804ef8f7a91b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:55 +0000
Subject: [PATCH 51/77] fix: profiles are released to the collection they came
 from

---
 profile.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/profile.c b/profile.c
index 45ad338..435932e 100644
--- a/profile.c
+++ b/profile.c
@@ -335,7 +335,7 @@ uint32_t fiftyoneDegreesProfileIterateProfilesForPropertyAndValue(
 								profileValueIndex++;
 							}
 						}
-						COLLECTION_RELEASE(profileOffsets, &profileItem);
+						COLLECTION_RELEASE(profiles, &profileItem);
 					}
 					COLLECTION_RELEASE(profileOffsets, &offsetItem);
 				}
-- 
2.43.0


From 4cb38722e06b13eb51617af0b5b94b074a399192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:55 +0000
Subject: [PATCH 52/77] fix: iterating profiles stops at an error

---
 profile.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/profile.c b/profile.c
index 435932e..b38dc3c 100644
--- a/profile.c
+++ b/profile.c
@@ -304,7 +304,7 @@ uint32_t fiftyoneDegreesProfileIterateProfilesForPropertyAndValue(
 			DataReset(&offsetItem.data);
 			DataReset(&profileItem.data);
 			uint32_t profileOffsetsCount = CollectionGetCount(profileOffsets);
-			for (i = 0; i < profileOffsetsCount; i++) {
+			for (i = 0; i < profileOffsetsCount && EXCEPTION_OKAY; i++) {
 				profileOffset = (ProfileOffset*)profileOffsets->get(
 					profileOffsets,
 					i,
-- 
2.43.0


From ba3f2345933fca20be9722f9c1a74655872deb6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:55 +0000
Subject: [PATCH 53/77] fix: there is no profile in an empty collection

---
 profile.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/profile.c b/profile.c
index b38dc3c..b7ef0e0 100644
--- a/profile.c
+++ b/profile.c
@@ -154,16 +154,17 @@ uint32_t* fiftyoneDegreesProfileGetOffsetForProfileId(
 	uint32_t *profileOffset,
 	fiftyoneDegreesException *exception) {
 	Item profileOffsetItem;
+	uint32_t profileOffsetsCount = CollectionGetCount(profileOffsets);
 	DataReset(&profileOffsetItem.data);
 
 	if (profileId == 0) {
 		EXCEPTION_SET(PROFILE_EMPTY);
 	}
-	else if (CollectionBinarySearch(
+	else if (profileOffsetsCount > 0 && CollectionBinarySearch(
 		profileOffsets,
 		&profileOffsetItem,
 		0,
-		CollectionGetCount(profileOffsets) - 1,
+		profileOffsetsCount - 1,
 		(void*)&profileId,
 		compareProfileId,
 		exception) >= 0) {
-- 
2.43.0


From 7f1f977e325675c754a76893c64ce908aba15e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:42 +0000
Subject: [PATCH 54/77] fix: a replacement data set that can't be used is freed
 as a whole

---
 dataset.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/dataset.c b/dataset.c
index c0f0ec9..eecacad 100644
--- a/dataset.c
+++ b/dataset.c
@@ -40,8 +40,7 @@ static StatusCode replace(
 	// Switch the active data set for the new one.
 	ResourceReplace(manager, replacement, &replacement->handle);
 	if (replacement->handle == NULL) {
-		DataSetFree(replacement);
-		Free(replacement);
+		manager->active->freeResource(replacement);
 		return INSUFFICIENT_MEMORY;
 	}
 
-- 
2.43.0


From 91d69eaf83a34ccd14ce50887c5dbdc30aebc6c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:16 +0000
Subject: [PATCH 55/77] fix: a path without a separator is the file name

---
 file.c | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/file.c b/file.c
index b518a4b..005a477 100644
--- a/file.c
+++ b/file.c
@@ -1096,9 +1096,5 @@ void fiftyoneDegreesFilePoolReset(fiftyoneDegreesFilePool *filePool) {
 }
 
 const char* fiftyoneDegreesFileGetFileName(const char *filePath) {
-	char *c = (char*)filePath + strlen(filePath);
-	while (*c != '\\' && *c != '/' && c != filePath) {
-		c--;
-	}
-	return c + 1;
+	return getNameFromPath(filePath);
 }
-- 
2.43.0


From 31120d6647bce1783de5d583d2607ebe5044e1f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:16 +0000
Subject: [PATCH 56/77] fix: existing temporary files are found in every path

---
 file.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/file.c b/file.c
index 005a477..cefe883 100644
--- a/file.c
+++ b/file.c
@@ -675,7 +675,7 @@ int fiftyoneDegreesFileDeleteUnusedTempFiles(
 		// Look in the directories provided.
 		for (i = 0; i < count; i++) {
 			iterateFiles(
-				paths[0],
+				paths[i],
 				&state,
 				iteratorFileCompare,
 				iteratorFileDelete);
@@ -713,7 +713,7 @@ bool fiftyoneDegreesFileGetExistingTempFile(
 		// Look in the directories provided.
 		for (i = 0; i < count; i++) {
 			if (iterateFiles(
-				paths[0],
+				paths[i],
 				&state,
 				iteratorFileCompare,
 				iteratorFileMatch) == true) {
-- 
2.43.0


From 6cc35b2fd50516ab79789ce405f4064b976b9fa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:16 +0000
Subject: [PATCH 57/77] fix: comparing files never reads more than the buffers
 hold

---
 file.c | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/file.c b/file.c
index cefe883..b2476e4 100644
--- a/file.c
+++ b/file.c
@@ -260,12 +260,12 @@ static bool compareFiles(
 	long bytesToCompare) {
 	StatusCode status;
 	FILE *file, *otherFile;
-	long size, read;
+	long size, read, position = 0;
 	byte buffer[1024], otherBuffer[1024];
 
 	// Compare the sizes.
 	size = FileGetSize(fileName);
-	if (size > 0 && size != FileGetSize(otherFileName)) {
+	if (size != FileGetSize(otherFileName)) {
 		return false;
 	}
 	// Open both files.
@@ -279,12 +279,16 @@ static bool compareFiles(
 		return false;
 	}
 
-	while (ftell(file) < size &&
-		(bytesToCompare < 0 || ftell(file) < bytesToCompare)) {
-		read = bytesToCompare > 0 ? bytesToCompare : (long)sizeof(buffer);
-		if (size - ftell(file) < read) {
-			read = size - ftell(file);
+	while (position < size &&
+		(bytesToCompare < 0 || position < bytesToCompare)) {
+		read = (long)sizeof(buffer);
+		if (bytesToCompare >= 0 && bytesToCompare - position < read) {
+			read = bytesToCompare - position;
 		}
+		if (size - position < read) {
+			read = size - position;
+		}
+		position += read;
 
 		if (fread(buffer, read, 1, file) != 1) {
 			fclose(file);
-- 
2.43.0


From b6ae2cc8689770298a35c72c55ecf055022b4e21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:16 +0000
Subject: [PATCH 58/77] fix: files are iterated within the length of a path

---
 file.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/file.c b/file.c
index b2476e4..de10ff4 100644
--- a/file.c
+++ b/file.c
@@ -359,9 +359,13 @@ static bool iterateFiles(
 	fileMatch match) {
 	char tempPath[FIFTYONE_DEGREES_FILE_MAX_PATH];
 	size_t nameStart;
+	// Check there is space for the path, a slash and at least one character.
+	nameStart = strlen(path);
+	if (nameStart + 2 >= FIFTYONE_DEGREES_FILE_MAX_PATH) {
+		return false;
+	}
 	// Append a slash to the path if one is not there already.
 	strcpy(tempPath, path);
-	nameStart = strlen(path);
 	if (nameStart != 0 &&
 		tempPath[nameStart - 1] != '/' &&
 		tempPath[nameStart - 1] != '\\') {
@@ -423,6 +427,11 @@ static bool iterateFiles(
 	if (dir != NULL) {
 		// Iterate over all files.
 		while ((ent = readdir(dir)) != NULL) {
+			// Ignore names that would not fit.
+			if (strlen(ent->d_name) >=
+				FIFTYONE_DEGREES_FILE_MAX_PATH - nameStart) {
+				continue;
+			}
 			// Append the name to the path.
 			strcpy(tempPath + nameStart, ent->d_name);
 			// Call match and return if the file is a match.
-- 
2.43.0


From ceea31a8b7d49134af95ce32d7e867c0d694745d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:16 +0000
Subject: [PATCH 59/77] fix: temporary files are found in the working directory

---
 file.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/file.c b/file.c
index de10ff4..890ad8c 100644
--- a/file.c
+++ b/file.c
@@ -423,7 +423,7 @@ static bool iterateFiles(
 #else
 	DIR *dir;
 	struct dirent *ent;
-	dir = opendir(path);
+	dir = opendir(nameStart == 0 ? "." : path);
 	if (dir != NULL) {
 		// Iterate over all files.
 		while ((ent = readdir(dir)) != NULL) {
-- 
2.43.0


From 0d3cc4a8f5918f287a3a2193bfb68dfcfceb1366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:16 +0000
Subject: [PATCH 60/77] fix: checking whether a file is in use stays in its
 buffers

---
 file.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/file.c b/file.c
index 890ad8c..af8d86c 100644
--- a/file.c
+++ b/file.c
@@ -522,7 +522,7 @@ static bool isFileInUse(const char *pathName) {
 							fdPath,
 							ent2->d_name) >= 0) {
 							ssize_t written =
-								readlink(linkFile, linkPath, FILE_MAX_PATH);
+								readlink(linkFile, linkPath, FILE_MAX_PATH - 1);
 							if (written >= 0) {
 								linkPath[written] = '\0';
 								size_t linkPathLen = strlen(linkPath);
@@ -539,8 +539,8 @@ static bool isFileInUse(const char *pathName) {
 						}
 					}
 				}
+				closedir(fdDir);
 			}
-			closedir(fdDir);
 		}
 		closedir(procDir);
 	}
-- 
2.43.0


From 3d1b274168ba62612f41292d0b3781670b4ccc48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:16 +0000
Subject: [PATCH 61/77] fix: a dot in a folder name is not the extension of the
 file

---
 file.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/file.c b/file.c
index af8d86c..86edc51 100644
--- a/file.c
+++ b/file.c
@@ -638,7 +638,7 @@ static fiftyoneDegreesStatusCode getBasenameWithoutExtension(
 	size_t length) {
 	StatusCode status = NOT_SET;
 	const char* pos = getNameFromPath(path);
-	char* dot = strrchr(path, '.');
+	char* dot = strrchr(pos, '.');
 	size_t end = strlen(pos);
 	if (dot != NULL) {
 		end = dot - pos;
-- 
2.43.0


From d16c984392a0816ac1c4295be3495a1d4dc5ec79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:16 +0000
Subject: [PATCH 62/77] fix: the number of deleted files is not a byte

---
 file.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/file.c b/file.c
index 86edc51..3e71aab 100644
--- a/file.c
+++ b/file.c
@@ -558,7 +558,7 @@ static bool isFileInUse(const char *pathName) {
 #endif
 
 /**
- * Deletes the file is it is not in use. The first byte of state->destination
+ * Deletes the file is it is not in use. The integer at state->destination
  * is used as a counter to indicate how many files were successfully deleted.
  * @param fileName path to matching file
  * @param state pointer to the file iterator state with the destination pointer
@@ -576,7 +576,7 @@ static bool iteratorFileDelete(const char *fileName, void *state) {
 	if (isFileInUse(fileName) == false) {
 #endif
 		if (fiftyoneDegreesFileDelete(fileName) == SUCCESS) {
-			((byte*)fileState->destination)[0]++;
+			((int*)fileState->destination)[0]++;
 		}
 #ifdef __linux__
 	}
@@ -661,10 +661,10 @@ int fiftyoneDegreesFileDeleteUnusedTempFiles(
 	int count,
 	long bytesToCompare) {
 	int i;
-	byte deleted = 0;
+	int deleted = 0;
 	fileIteratorState state;
 	state.masterFileName = masterFileName;
-	// The iteratorFileDelete method will use the first byte of
+	// The iteratorFileDelete method will use the integer at
 	// state.destination to keep track of the number of files deleted. This is
 	// a slight misuse of the structure, but we'll allow it as the structure
 	// is internal only.
@@ -694,7 +694,7 @@ int fiftyoneDegreesFileDeleteUnusedTempFiles(
 				iteratorFileDelete);
 		}
 	}
-	return (int)deleted;
+	return deleted;
 }
 
 bool fiftyoneDegreesFileGetExistingTempFile(
-- 
2.43.0


From a93866d3b3f1227863cdcb6c6c31d092e8d0e7d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:16 +0000
Subject: [PATCH 63/77] fix: a temporary file name that is cut short is a
 failure

---
 file.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/file.c b/file.c
index 3e71aab..60aed6c 100644
--- a/file.c
+++ b/file.c
@@ -768,7 +768,7 @@ fiftyoneDegreesStatusCode fiftyoneDegreesFileAddTempFileName(
 		if (charsAdded < 0) {
 			status = ENCODING_ERROR;
 		}
-		else if ((size_t)charsAdded > length) {
+		else if ((size_t)charsAdded >= length) {
 			status = INSUFFICIENT_MEMORY;
 		}
 		else {
@@ -840,12 +840,12 @@ fiftyoneDegreesStatusCode createTempFileWithPaths(
 		if (charAdded < 0) {
 			status = ENCODING_ERROR;
 		}
-		else if ((size_t)charAdded > length) {
+		else if ((size_t)charAdded >= length) {
 			status = INSUFFICIENT_MEMORY;
 		}
 		else {
 			status = fiftyoneDegreesFileAddTempFileName(
-				masterFileName, destination, nameStart, length - nameStart - 1);
+				masterFileName, destination, nameStart, length - nameStart);
 			if (status == SUCCESS) {
 				// Create the temp file
 				status = FileCopy(masterFile, destination);
-- 
2.43.0


From c5900ef657d19760242233f9f2ab83f45dac13fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:16 +0000
Subject: [PATCH 64/77] fix: one temporary file is created in the first
 writable path

---
 file.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/file.c b/file.c
index 60aed6c..35d342f 100644
--- a/file.c
+++ b/file.c
@@ -849,6 +849,9 @@ fiftyoneDegreesStatusCode createTempFileWithPaths(
 			if (status == SUCCESS) {
 				// Create the temp file
 				status = FileCopy(masterFile, destination);
+				if (status == SUCCESS) {
+					return status;
+				}
 			}
 		}
 
-- 
2.43.0


From c541e96d9a97bdc7defbe1b7f2a90f06069fe706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:16 +0000
Subject: [PATCH 65/77] fix: temporary files are not created with too long or
 no names

---
 file.c | 34 ++++++++++++++++++++++------------
 1 file changed, 22 insertions(+), 12 deletions(-)

diff --git a/file.c b/file.c
index 35d342f..04f4691 100644
--- a/file.c
+++ b/file.c
@@ -242,7 +242,7 @@ static int getUniqueLegacyFileName(
 	int charAdded = 0;
 	do {
 		charAdded = getRandomString(length, destination + nameStart);
-	} while (fileExists(destination) && (charAdded >= 0 && charAdded <= (int)length));
+	} while (charAdded >= 0 && fileExists(destination));
 	return charAdded;
 }
 
@@ -895,7 +895,12 @@ fiftyoneDegreesStatusCode fiftyoneDegreesFileCreateTempFile(
 	char tempPath[FIFTYONE_DEGREES_FILE_MAX_PATH];
 
 	if (paths == NULL || count == 0) {
-		getUniqueLegacyFileName(TEMP_UNIQUE_STRING_LENGTH, fileName, 0);
+		if (getUniqueLegacyFileName(
+			TEMP_UNIQUE_STRING_LENGTH,
+			fileName,
+			0) < 0) {
+			return TEMP_FILE_ERROR;
+		}
 		status = FileCopy(masterFile, fileName);
 		if (status == SUCCESS) {
 			strcpy((char*)destination, fileName);
@@ -904,23 +909,28 @@ fiftyoneDegreesStatusCode fiftyoneDegreesFileCreateTempFile(
 	}
 	else if (paths != NULL) {
 		for (i = 0; i < count; i++) {
-			strcpy(tempPath, paths[i]);
 			nameStart = strlen(paths[i]);
+			if (nameStart + 1 + TEMP_UNIQUE_STRING_LENGTH >=
+				FIFTYONE_DEGREES_FILE_MAX_PATH) {
+				status = FILE_PATH_TOO_LONG;
+				continue;
+			}
+			strcpy(tempPath, paths[i]);
 			if (nameStart != 0 &&
 				tempPath[nameStart - 1] != '/' &&
 				tempPath[nameStart - 1] != '\\') {
 				tempPath[nameStart++] = '/';
 			}
-			if (nameStart + TEMP_UNIQUE_STRING_LENGTH < FIFTYONE_DEGREES_FILE_MAX_PATH) {
-				getUniqueLegacyFileName(TEMP_UNIQUE_STRING_LENGTH, tempPath, nameStart);
-				status = FileCopy(masterFile, tempPath);
-				if (status == SUCCESS) {
-					strcpy((char*)destination, tempPath);
-					return status;
-				}
+			if (getUniqueLegacyFileName(
+				TEMP_UNIQUE_STRING_LENGTH,
+				tempPath,
+				nameStart) < 0) {
+				return TEMP_FILE_ERROR;
 			}
-			else {
-				status = FILE_PATH_TOO_LONG;
+			status = FileCopy(masterFile, tempPath);
+			if (status == SUCCESS) {
+				strcpy((char*)destination, tempPath);
+				return status;
 			}
 		}
 	}
-- 
2.43.0


From 63eca15644df12a3062e611425427b206a4f3745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:16 +0000
Subject: [PATCH 66/77] fix: a file whose size is unknown can't be read

---
 file.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/file.c b/file.c
index 04f4691..ee3b321 100644
--- a/file.c
+++ b/file.c
@@ -1085,6 +1085,13 @@ fiftyoneDegreesStatusCode fiftyoneDegreesFileReadToByteArray(
 	if (status == SUCCESS) {
 		// Get the size of the file and allocate sufficient memory.
 		reader->length = fileGetSize(sourceFile);
+		if (reader->length < 0) {
+			fclose(sourceFile);
+			reader->startByte = NULL;
+			reader->current = NULL;
+			reader->length = 0;
+			return FILE_FAILURE;
+		}
 		reader->current = reader->startByte = (byte*)Malloc(
 			sizeof(char) * reader->length);
 		if (reader->current != NULL) {
@@ -1093,7 +1100,7 @@ fiftyoneDegreesStatusCode fiftyoneDegreesFileReadToByteArray(
 				// The file could not be loaded into memory. Release the 
 				// memory allocated earlier and set the status to file 
 				// failure.
-				free(reader->current);
+				Free(reader->current);
 				reader->startByte = NULL;
 				reader->current = NULL;
 				reader->length = 0;
-- 
2.43.0


From 41f891ba70d133f640dcad311ce05e7781d35b31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:16 +0000
Subject: [PATCH 67/77] fix: a copy that is not complete is a failure

---
 file.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/file.c b/file.c
index ee3b321..f8d709e 100644
--- a/file.c
+++ b/file.c
@@ -150,7 +150,9 @@ static StatusCode fileCopy(FILE *source, FILE *destination) {
 	unsigned char buffer[8192];
 	size_t lengthRead, lengthWritten = 0;
 	if (fseek(source, 0L, SEEK_END) == 0) {
-		fseek(source, 0L, SEEK_SET);
+		if (fseek(source, 0L, SEEK_SET) != 0) {
+			return FILE_COPY_ERROR;
+		}
 		lengthRead = fread(buffer, 1, sizeof(buffer), source);
 		while (lengthRead > 0) {
 			lengthWritten = fwrite(buffer, 1, lengthRead, destination);
@@ -159,8 +161,11 @@ static StatusCode fileCopy(FILE *source, FILE *destination) {
 			}
 			lengthRead = fread(buffer, 1, sizeof(buffer), source);
 		}
+		if (ferror(source) == 0) {
+			return SUCCESS;
+		}
 	}
-	return SUCCESS;
+	return FILE_COPY_ERROR;
 }
 
 /**
@@ -1057,7 +1062,9 @@ fiftyoneDegreesStatusCode fiftyoneDegreesFileCopy(
 			return status;
 		}
 		status = fileCopy(sourceFile, destinationFile);
-		fclose(destinationFile);
+		if (fclose(destinationFile) != 0) {
+			status = FILE_COPY_ERROR;
+		}
 		// Delete the destination file if the status code is not success.
 		if (status != SUCCESS) {
 			FileDelete(destination);
-- 
2.43.0


From 01f5b7354febec7b8f25912e6e41f2466f6e0dc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:16 +0000
Subject: [PATCH 68/77] fix: writing reports what was not written

---
 file.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/file.c b/file.c
index f8d709e..b2ac782 100644
--- a/file.c
+++ b/file.c
@@ -602,10 +602,12 @@ fiftyoneDegreesStatusCode fiftyoneDegreesFileWrite(
 	FILE *file;
 	StatusCode status = fileOpen(fileName, &file, "wb");
 	if (status == SUCCESS) {
-		if (fwrite(data, length, 1, file) != 1) {
+		if (fwrite(data, 1, length, file) != length) {
+			status = FILE_FAILURE;
+		}
+		if (fclose(file) != 0) {
 			status = FILE_FAILURE;
 		}
-		fclose(file);
 	}
 	return status;
 }
-- 
2.43.0


From 8eeec6e8ce8b08a9073b632546b7e4f3affbe0c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:16 +0000
Subject: [PATCH 69/77] fix: a pool for a file of unknown size is a failure

---
 file.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/file.c b/file.c
index b2ac782..956bc98 100644
--- a/file.c
+++ b/file.c
@@ -1008,7 +1008,7 @@ fiftyoneDegreesStatusCode fiftyoneDegreesFilePoolInit(
 			freeFileHandle,
 			exception) != NULL &&
 		EXCEPTION_OKAY) {
-		if (setLength(filePool, exception) == 0) {
+		if (setLength(filePool, exception) <= 0) {
 			status = FILE_FAILURE;
 		}
 	}
-- 
2.43.0


From 93961204b71cb414664608e8dbcf6138c4d07fa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:29 +0000
Subject: [PATCH 70/77] fix: there is no line after the last when the buffer is
 empty

---
 textfile.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/textfile.c b/textfile.c
index 60fc7fe..8d73eb1 100644
--- a/textfile.c
+++ b/textfile.c
@@ -79,7 +79,7 @@ void fiftyoneDegreesTextFileIterateWithLimit(
 		}
 		// Update end to the last line read
 		end = current + bufferRead;
-		if ((limit < 0 || counter < limit) && 
+		if ((limit < 0 || counter < limit) && end > buffer &&
 			(*(end - 1) != '\r' && *(end - 1) != '\n')) {
 			// If there isn't a new line or carriage return at the end
 			// we won't be able to determine the end of last line, so
-- 
2.43.0


From ae6d8e49cd83a27a3109368fa2576c433a6b370c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:29 +0000
Subject: [PATCH 71/77] fix: lines left in the buffer at the end of the file
 are returned

---
 textfile.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/textfile.c b/textfile.c
index 8d73eb1..354e3f3 100644
--- a/textfile.c
+++ b/textfile.c
@@ -92,6 +92,7 @@ void fiftyoneDegreesTextFileIterateWithLimit(
 		fclose(handle);
 
 		// Return any final lines held in the buffer.
+		current = buffer;
 		while (current < end && 
 			(limit < 0 || counter < limit)) {
 			current = returnNextLine(buffer, end, buffer, state, callback);
-- 
2.43.0


From e2e7a5974452c09a4c4329d5efdaf9e123eaadde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:48 +0000
Subject: [PATCH 72/77] fix: reading YAML never writes beyond the pairs
 supplied

---
 yamlfile.c | 45 +++++++++++++++++++++++++++++++++++++--------
 1 file changed, 37 insertions(+), 8 deletions(-)

diff --git a/yamlfile.c b/yamlfile.c
index 6a5933c..a3d91ff 100644
--- a/yamlfile.c
+++ b/yamlfile.c
@@ -29,7 +29,7 @@ const size_t CONTROL_LENGTH = 3;
 typedef struct pair_state_t {
 	KeyValuePair* pairs; // array of key value evidence pairs
 	uint16_t size; // total available keyValuePairs
-	int16_t index; // current index being populated in the keyValuePairs
+	int32_t index; // current index being populated in the keyValuePairs
 	char* current; // current pointer to character in the pair
 	char* end; // last pointer that is valid
 } PairState;
@@ -82,32 +82,58 @@ static char* readNext(FileState* fileState) {
 	return fileState->current;
 }
 
-// Sets the current and end pointers to the current key.
+// True if the index is one of the pairs available.
+static bool isPair(PairState* state) {
+	return state->index >= 0 && state->index < state->size;
+}
+
+// Sets the current and end pointers to the current key, or to null if there is
+// no memory for the key.
 static void setCurrentKey(PairState* state) {
-	KeyValuePair* current = state->pairs + state->index;
+	KeyValuePair* current = isPair(state) ? state->pairs + state->index : NULL;
+	if (current == NULL || current->keyLength == 0) {
+		state->current = NULL;
+		state->end = NULL;
+		return;
+	}
 	state->current = current->key;
 	state->end = current->key + current->keyLength - 1;
 }
 
-// Sets the current and end pointers to the current value.
+// Sets the current and end pointers to the current value, or to null if there
+// is no memory for the value.
 static void setCurrentValue(PairState* state) {
-	KeyValuePair* current = state->pairs + state->index;
+	KeyValuePair* current = isPair(state) ? state->pairs + state->index : NULL;
+	if (current == NULL || current->valueLength == 0) {
+		state->current = NULL;
+		state->end = NULL;
+		return;
+	}
 	state->current = current->value;
 	state->end = current->value + current->valueLength - 1;
 }
 
+// Null terminates the current string being written if there is one.
+static void terminate(PairState* state) {
+	if (state->current != NULL) {
+		*state->current = '\0';
+	}
+}
+
 // Switches from writing to the current key to the current value. Ensures that
 // the current string being written is null terminated.
 static void switchKeyValue(PairState* state) {
-	*state->current = '\0';
+	terminate(state);
 	setCurrentValue(state);
 }
 
 // Advances to the next key value pair. Ensures that the current string being 
 // written is null terminated.
 static void nextPair(PairState* state) {
-	*state->current = '\0';
-	state->index++;
+	terminate(state);
+	if (state->index < state->size) {
+		state->index++;
+	}
 	setCurrentKey(state);
 }
 
@@ -123,7 +149,10 @@ static void newLine(FileState* state) {
 
 // Sets the pairs for a new document.
 static void newDocument(PairState* state) {
+	terminate(state);
 	state->index = -1;
+	state->current = NULL;
+	state->end = NULL;
 }
 
 // Move the character position along by one.
-- 
2.43.0


From 3ff2a7475f0f924d1d8462af549f6080d2b95b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:48 +0000
Subject: [PATCH 73/77] fix: the quote removed from a YAML value is part of it

---
 yamlfile.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/yamlfile.c b/yamlfile.c
index a3d91ff..584d78c 100644
--- a/yamlfile.c
+++ b/yamlfile.c
@@ -233,6 +233,9 @@ StatusCode fiftyoneDegreesYamlFileIterateWithLimit(
 				// If there was a quote earlier in the string and the last one
 				// is also a quote then remove the last quote.
 				if (fileState.quote > 0 && 
+					pairState.current != NULL &&
+					pairState.current >
+					pairState.pairs[pairState.index].value &&
 					*(pairState.current - 1) == '\'') {
 					pairState.current--;
 				}
-- 
2.43.0


From 504e62eb0ec991d51e44259354b9259178e7c415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:48 +0000
Subject: [PATCH 74/77] fix: no YAML document is read with a limit of zero

---
 yamlfile.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yamlfile.c b/yamlfile.c
index 584d78c..961c3b6 100644
--- a/yamlfile.c
+++ b/yamlfile.c
@@ -223,7 +223,7 @@ StatusCode fiftyoneDegreesYamlFileIterateWithLimit(
 		limit = INT_MAX;
 	}
 
-	while (true) {
+	while (count < limit) {
 		current = readNext(&fileState);
 
 		// If EOF or the first new line then move to the next pair.
-- 
2.43.0


From 20053b99f3e3eda6fab4a05cd9c41fd56e217d3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:48 +0000
Subject: [PATCH 75/77] fix: a YAML file that can't be read is a failure

---
 yamlfile.c | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/yamlfile.c b/yamlfile.c
index 961c3b6..69a1ab3 100644
--- a/yamlfile.c
+++ b/yamlfile.c
@@ -46,6 +46,7 @@ typedef struct file_state_t {
 	size_t quote; // position of the first quote in the value
 	size_t position; // character index on the current line
 	size_t colon; // position of the colon in the current line
+	StatusCode status; // result of the last read
 } FileState;
 
 static StatusCode readNextBlock(FileState* fileState) {
@@ -71,11 +72,10 @@ static StatusCode readNextBlock(FileState* fileState) {
 
 // Read the next character or null if there are no more characters to be read.
 static char* readNext(FileState* fileState) {
-	StatusCode status = SUCCESS;
 	fileState->current++;
 	if (fileState->current > fileState->end) {
-		status = readNextBlock(fileState);
-		if (status != SUCCESS) {
+		fileState->status = readNextBlock(fileState);
+		if (fileState->status != SUCCESS) {
 			return NULL;
 		}
 	}
@@ -208,7 +208,8 @@ StatusCode fiftyoneDegreesYamlFileIterateWithLimit(
 		0,
 		0,
 		0,
-		false };
+		0,
+		SUCCESS };
 
 	PairState pairState = {
 		keyValuePairs,
@@ -226,6 +227,13 @@ StatusCode fiftyoneDegreesYamlFileIterateWithLimit(
 	while (count < limit) {
 		current = readNext(&fileState);
 
+		// If there are no more characters because they could not be read then
+		// the current document is not complete.
+		if (!current && fileState.status != FILE_END_OF_FILE) {
+			status = fileState.status;
+			break;
+		}
+
 		// If EOF or the first new line then move to the next pair.
 		if (!current || *current == '\n' || *current == '\r') {
 			if (fileState.newLineCount == 0) {
-- 
2.43.0


From 54c9948eb05779318b16a5287b4b07a4ca3ebdc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:18 +0000
Subject: [PATCH 76/77] fix: the first YAML pair is only used if there is one

---
 yamlfile.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/yamlfile.c b/yamlfile.c
index 69a1ab3..2092bb5 100644
--- a/yamlfile.c
+++ b/yamlfile.c
@@ -215,8 +215,9 @@ StatusCode fiftyoneDegreesYamlFileIterateWithLimit(
 		keyValuePairs,
 		collectionSize,
 		0,
-		keyValuePairs[0].key,
-		keyValuePairs[0].key + keyValuePairs[0].keyLength - 1 };
+		NULL,
+		NULL };
+	setCurrentKey(&pairState);
 
 	// If there is no limit then set the limit to the largest value to 
 	// avoid checking for negative values in the loop.
-- 
2.43.0


From a053d5c83e6c6df80f032b0b385aff0174c8e80f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:28 +0000
Subject: [PATCH 77/77] fix: there is no YAML pair in an empty line at the
 start of a file

---
 yamlfile.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/yamlfile.c b/yamlfile.c
index 2092bb5..c07b1c5 100644
--- a/yamlfile.c
+++ b/yamlfile.c
@@ -205,7 +205,8 @@ StatusCode fiftyoneDegreesYamlFileIterateWithLimit(
 		0,
 		0, 
 		0,
-		0,
+		// The start of the file is the start of a line.
+		1,
 		0,
 		0,
 		0,
-- 
2.43.0

