#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the text of the properties lives here)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    d = {"id": id, "title": title, "statement": statement, "quantifier": {"over": over.split(), "text": text}, "why_tests_cant": why,
         "anchors": {"files": files.split(), "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": False}}
    if state: d["anchors"]["state"] = state
    P.append(d)

p("P01", "Data buffers always match what they say they own",
  "Preparing a data buffer for n bytes either gives memory of at least n bytes, records a size that is really owned, and frees a buffer that was too small exactly once, or fails because memory ran out, and then the buffer owns nothing and nothing dangles. Resetting a buffer leaves it owning nothing, without freeing anything. A buffer that is already large enough is reused as it is.",
  "inputs fault_sequences", "every previous state of the buffer, every requested size, every outcome of the allocator",
  "Tests use a few sizes and never fail an allocation; the guarantee is for every size and every prior state.",
  "data.c data.h", [("buffer preparation and reset", "data.c")], ["return value", "the buffer's pointer and recorded size"])
p("P03", "In-memory collections give exactly the item asked for, in bounds",
  "A collection created over a memory image covers exactly the bytes its header announces and is refused if the image is shorter or the reader is elsewhere; creation advances the reader by exactly the header and the body. Getting a fixed width item returns the address of that item inside the collection, getting a variable width item the byte at that offset, and an index or offset outside the collection is reported as an error. Reading fields from a memory image never moves past its end and never yields bytes from beyond it.",
  "inputs fault_sequences", "every image length, header count, element width, index and offset, and allocation failure",
  "Tests build a few well formed collections; the arithmetic has to hold for every header and index.",
  "collection.c collection.h memory.c memory.h", [("header parsing and creation from memory", "collection.c"), ("item access", "collection.c"), ("memory reader", "memory.c")],
  ["returned pointers", "collection header fields", "reader position", "exception status"])
p("P04", "File-backed collections return the same bytes as the file holds",
  "For every file content, a record read from a file-backed collection has exactly the bytes stored at its position, whether it is read straight from the file, from the part preloaded into memory, or through a cache. A truncated or inconsistent record, an index outside the collection, or a failing read, seek or allocation is reported as an error with no data, and never as other bytes. Whatever happens, every file handle and every byte of memory taken for the read is given back once the item is released.",
  "inputs fault_sequences histories configurations", "every file content, offset, configuration of preloading and caching, and read, seek or allocation failure",
  "Tests read one valid file without failures; the guarantee covers every content and every failing call.",
  "collection.c collection.h file.c pool.c cache.c string.c", [("reading fixed and variable records", "collection.c"), ("partial and cached collections", "collection.c")],
  ["item bytes", "exception status", "handles in the pool", "allocations"])
p("P05", "Binary search finds a present item and only that",
  "Searching a sorted range of a collection returns the index of an item that the comparer says matches whenever there is one in the range, and the not found answer otherwise; only indices within the range are looked at. The search ends after at most logarithmically many probes. Every item fetched and not returned as the result is released exactly once.",
  "inputs", "every range of indices, every sorted order described by the comparer",
  "Tests search small collections for a handful of keys; the claim is about every size, range and order.",
  "collection.c", [("binary search over a collection", "collection.c")], ["returned index", "items fetched and released"])
p("P06", "The cache returns the value loaded for the key and evicts only idle entries",
  "A successful get always returns an entry holding the data that the loader produced for the requested key, loading it at most once while it stays cached. An entry in use by any caller is never evicted or overwritten, and when an entry has to be replaced it is the least recently released idle one. When every entry of the key's shard is in use, get reports that there is none, and released entries become usable again.",
  "histories inputs", "every sequence of gets and releases, every key including negative and extreme hashes, every capacity and concurrency",
  "Tests replay a few access patterns; eviction order and sharing depend on the whole history.",
  "cache.c cache.h tree.c", [("lookup, load, eviction and release", "cache.c"), ("shard selection", "cache.c"), ("least recently used list", "cache.c")],
  ["data of the returned entry", "loader calls", "active counts"], ["shards", "least recently used list", "tree of keys"])
p("P07", "The balanced tree is a map: what was inserted is found, nothing else",
  "After any sequence of inserts and deletes with distinct keys, a lookup returns the node with exactly that key when it is in the tree and nothing otherwise; the count is the number of nodes present and iteration visits each of them exactly once. Inserting or deleting one key changes no other key's presence. The tree stays ordered and balanced: no red node has a red child and every path from the top has the same number of black nodes.",
  "histories inputs", "every sequence of insertions and deletions of distinct signed 64 bit keys",
  "Tests insert a few orders of keys; rebalancing cases multiply with the shape of the tree.",
  "tree.c tree.h", [("insert and repair", "tree.c"), ("delete and repair", "tree.c"), ("find, iterate, count", "tree.c")],
  ["found nodes", "count", "iteration callbacks"], ["nodes' links and colours"])
p("P08", "A pool hands each resource to at most one user and loses none",
  "Every resource taken from a pool is one that was created for it and is held by no one else until it is given back; as many can be taken at once as the pool was set up for, then the pool reports that it is exhausted, and a returned resource can be taken again. This holds for every interleaving of concurrent gets and releases at the compare-and-swap. Freeing the pool frees every resource exactly once, also when setting it up failed part way.",
  "schedules histories fault_sequences", "every history of gets and releases, every interference between reading the head and the exchange, every failing creation",
  "Thread tests sample a few schedules; the exclusive ownership claim ranges over all of them.",
  "pool.c pool.h", [("lock free stack", "pool.c"), ("initialisation and free", "pool.c")], ["items returned", "exception status", "resource free calls"], ["head index and ABA counter", "next links"])
p("P09", "A replaced resource is freed exactly once, after its last user",
  "A handle taken from a resource manager refers to the resource that was active at that moment and stays usable until it is given back, however often the resource is replaced meanwhile. A resource is freed exactly once, when it is no longer active and its last user has given it back, and never while in use. Freeing the manager frees the active resource if unused, or else leaves it to its last user.",
  "histories", "every sequence of taking, giving back, replacing and freeing, by any number of users, each operation taken as a whole",
  "Tests check a few reload sequences; use counts and frees depend on the whole history.",
  "resource.c resource.h", [("use counting", "resource.c"), ("replacement", "resource.c")], ["active resource", "use count", "free calls"])
p("P10", "Case-insensitive string comparison is exact",
  "Comparing two strings gives zero exactly when they are equal ignoring the case of ASCII letters, and otherwise the sign of the first difference, the shorter being smaller when it is a prefix of the longer; comparing a given number of characters does the same for that many characters. Searching for a non-empty substring returns its first case-insensitive occurrence, and nothing when there is none. Nothing is read beyond the ends of the strings.",
  "inputs", "every pair of strings of any length and content",
  "Tests compare a dozen strings.", "string.c string.h", [("comparison", "string.c"), ("substring search", "string.c")], ["return value"])
p("P11", "IP addresses are parsed into exactly the bytes they denote",
  "A well formed IPv4 or IPv6 address, including one with a single abbreviation, is parsed into its 4 or 16 network order bytes, and parsing stays within the given text and within memory it owns for any input whatever. Text without the number of segments an address has is refused without leaking memory. Comparing two addresses of one family gives the order of their bytes.",
  "inputs", "every text of any length, every pair of addresses",
  "Tests parse about twenty addresses.", "ip.c ip.h", [("segment parsing", "ip.c"), ("comparison", "ip.c")], ["parsed bytes and type", "return value", "allocations"])
p("P12", "Float conversion to and from the stored form is exact",
  "Every finite single precision number converted to the stored four byte form and back is the same number, and every stored form that denotes a finite number decodes to the number its sign, exponent and mantissa bits denote. The stored form is the little-endian IEEE 754 single precision layout, so two numbers are equal exactly when their stored forms denote the same number.",
  "inputs", "all 2^32 bit patterns", "Tests convert a few numbers.", "float.c float.h coordinate.c", [("encoding and decoding", "float.c")], ["decoded numbers", "encoded bytes"])
p("P14", "Status codes always give their own message, in bounds",
  "Every status code but the not-set one has a non-empty message of its own, with the data file name inserted wherever the message has a place for it, and an unknown code still gives a message. The message is complete and fits the memory taken for it, ends with a terminator, and is owned by the caller; when memory runs out the answer is no message and no write happens. Formatting an exception gives a message with its status text, and raising one stores the code and its origin.",
  "inputs fault_sequences", "every status code, every file name, allocation failure", "Tests print a few codes.",
  "status.c status.h exceptionsc.c exceptions.h", [("message table and formatting", "status.c"), ("exception message", "exceptionsc.c")], ["message text", "allocations"])
p("P15", "Evidence is stored, parsed and iterated exactly as added",
  "Evidence added up to the capacity is kept in order with its prefix, name and value; adding beyond the capacity is refused and changes nothing. Iterating with a set of prefixes calls back exactly the entries with one of those prefixes, in order, until the callback asks to stop, and returns how many were visited. A key's text prefix maps to the matching evidence kind only when the prefix is complete and separated. The value of an entry that is visited is the one that was added.",
  "inputs histories", "every sequence of additions, every mask of prefixes, every key text", "Tests add a few entries.",
  "evidence.c evidence.h", [("storage and iteration", "evidence.c"), ("prefix mapping", "evidence.c")], ["entries passed to the callback", "return values"])
p("P16", "Unique headers are built from names without loss or duplication",
  "The list built from header names contains every distinct segment exactly once, whatever separators the names contain, including leading, trailing and repeated ones, and each pseudo-header lists exactly the headers it is made of. Looking up a name ignores case and an HTTP_ prefix and returns the header with that name, or none. Building never writes outside the memory taken, and failure leaves nothing allocated.",
  "inputs fault_sequences", "every list of header names, every separator placement, allocation failure", "Tests use a few header lists.",
  "headers.c headers.h", [("segmenting and deduplication", "headers.c"), ("lookup", "headers.c")], ["header names", "segment lists", "returned index"])
p("P17", "Pseudo-evidence is the concatenation of its parts, in bounds",
  "For every pseudo-header whose parts are all present in the evidence, one entry is created whose value is the parts' values in order joined by the separator; when a part is missing, none is created for that prefix. Values that do not fit the buffer are cut short and never written outside it, and no more entries are added than there is capacity for. A failure to make a value is reported and leaves no pseudo-evidence. Removing pseudo-evidence empties its entries and leaves the original evidence as it was.",
  "inputs fault_sequences", "every set of headers, evidence values and lengths, formatting failure", "Tests cover a few combinations.",
  "pseudoheader.c pseudoheader.h evidence.c", [("construction", "pseudoheader.c"), ("removal", "pseudoheader.c")], ["pseudo-evidence entries", "allocations"])
p("P18", "Required properties map each request to the right available property",
  "Given the available properties and a request (a list, a separated text, existing ones, or none, which means all), the result contains exactly the requested properties that are available, each once, in ascending order of their names; unknown names are ignored. Conversions between required index, property index and name are inverse to each other for every property in the result, and indexes and names that are not there are reported as absent.",
  "inputs fault_sequences", "every set of available names, every request, every separator placement", "Tests request a handful of properties.",
  "properties.c properties.h", [("initialisation", "properties.c"), ("index and name lookups", "properties.c")], ["available list", "returned indexes and names"])
p("P19", "Overrides replace exactly the intended property values",
  "An override value is kept for the required property index it was added with, replaces a previous one, and is returned as a string of exactly the added text; values for other properties are untouched and entries beyond the capacity are refused. Overrides found in evidence are matched to override properties ignoring case and the recognised prefixes. Profile identifiers in evidence are passed on as the numbers they are. A property is reported as overridden if and only if a value was added for it.",
  "inputs histories", "every sequence of additions, every value length, every evidence key", "Tests add a few overrides.",
  "overrides.c overrides.h", [("adding and lookup", "overrides.c"), ("evidence extraction", "overrides.c")], ["values", "has-value answers"])
p("P20", "Properties, values, components and profiles are looked up consistently",
  "Looking up a property by name, a value by name, or a profile by identifier in sorted collections returns the one that matches, and absence otherwise; iterating the values of a property for a profile visits exactly the profile's value indexes that fall in that property's range, in order, until told to stop. Nothing outside the item or the collection is read, and every item fetched is released exactly once.",
  "inputs", "every well formed collection of records, every name, identifier and range", "Tests use generated collections of fixed shape.",
  "property.c value.c component.c profile.c", [("value and property lookup", "value.c, property.c"), ("profile iteration", "profile.c"), ("component key values", "component.c")], ["returned indexes", "callbacks", "items released"])
p("P21", "Data sets are replaced atomically, and a failed reload changes nothing",
  "After a successful reload every new user gets the new data set, users of the old one keep it until they release it, and the old one is then freed exactly once. When reading, memory or initialisation fails, the old data set stays active and in use as before, the status says what failed, and nothing stays allocated. Initialisation either succeeds or frees everything it took.",
  "histories fault_sequences", "every outcome of every step of initialisation and reload", "Tests reload a few times successfully.",
  "dataset.c dataset.h resource.c", [("initialisation", "dataset.c"), ("reload from file and memory", "dataset.c")], ["active data set", "status", "free calls"])
p("P22", "File helpers give the right name and never write outside their buffer",
  "The file name of a path is what follows its last separator. A data file is found by going up from the working directory, the closest first. A path or temporary file name that does not fit the buffer supplied is reported as a failure and nothing outside the buffer is written. Reading a whole file gives exactly its bytes and length, or a failure; copying one gives an identical file, or a failure and no file. A temporary file is a copy of the master file in the first path it can be created in, and a failure leaves none behind. An existing temporary file is found exactly if a path has a file of the same content, up to the number of bytes to compare, whose name starts with the master's base name and is not the master's; only such files that are not in use are deleted, and their number is returned. Every file that was opened is closed.",
  "inputs fault_sequences", "every path and buffer length, every file content, read failures", "Tests use a few short paths.",
  "file.c file.h", [("path and name helpers", "file.c"), ("reading and copying", "file.c")], ["returned names", "buffers", "status"])
p("P23", "Line and YAML readers deliver every record, in bounds",
  "Reading a text file calls back once for each line in order with the line's text, up to the limit; line endings that follow each other count as one, and the buffer must hold the longest line with its line ending. Nothing outside the buffer is read or written whatever the file holds. Reading YAML calls back once for each document that has pairs, up to the limit, with exactly its key and value pairs; pairs or text beyond the supplied capacity are left out and never cause a read or write outside the supplied memory, and a file that cannot be read to its end is reported as a failure. The file is closed.",
  "inputs", "every file content, buffer length and limit", "Tests read a few well formed files.",
  "textfile.c yamlfile.c", [("line iteration", "textfile.c"), ("YAML parsing", "yamlfile.c")], ["callback arguments", "status"])
p("P24", "Lists keep their items in order and release each exactly once",
  "A list holds the items added to it in order up to its capacity; releasing or freeing it releases every item added exactly once, to the collection it came from, and nothing else, and leaves the list empty. Freeing also frees its memory exactly once, and a list that could not be set up owns nothing.",
  "histories fault_sequences", "every number of items, every history of add, release and free, allocation failure", "Tests use a few items.",
  "list.c list.h", [("add, get, release and free", "list.c")], ["items", "release calls"])
p("P25", "Memory tracking counts exactly what is allocated",
  "With tracking on, the number of bytes reported as allocated is at every moment the total of the sizes of live allocations, and the maximum is the largest value that ever had; the total is back to zero when everything has been freed, and a reset sets both to zero. An allocation returns memory of at least the size asked for, aligned as asked for.",
  "histories inputs", "every sequence of allocations and frees, every size and alignment", "Tests allocate a few blocks.",
  "memory.c memory.h", [("tracking allocator", "memory.c"), ("aligned allocation", "memory.c")], ["reported totals", "returned memory"])
p("P26", "The C++ wrappers expose the same values as the C library",
  "Value conversion, metadata and evidence classes return exactly what the C structures hold, and free what they own exactly once, also when an exception is thrown.",
  "inputs", "every value and every conversion", "Tests convert a few values.",
  "Value.hpp EvidenceBase.cpp ResultsBase.cpp EngineBase.cpp IpAddress.cpp", [("wrappers", "*.cpp")], ["returned values"])
p("P27", "Threads and signals never lose a wake-up or deadlock",
  "A thread waiting for a signal is woken after the signal is set, and locks are always given back.",
  "schedules", "every schedule", "Tests run a few schedules.", "threading.c", [("signals and mutexes", "threading.c")], ["threads' progress"])
open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w").write("".join(json.dumps(x) + "\n" for x in P))
