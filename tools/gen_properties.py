#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one JSON object per property)."""
import json, os
M='memcached.c'; E='engines/default/'
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None,hook=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    a["observe_at"]=observe or ["ASCII/binary protocol replies on a client connection"]
    a["hook_needed"]=hook
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,
      quantifier={"over":over,"text":qtext},why_tests_cant=why,anchors=a))

p("C01","Key-value commands behave as a sequential key-value map",
 "On one connection every sequence of set/add/replace/append/prepend/cas/get/gets/mget/mgets/delete/incr/decr/touch commands gives exactly the replies (status, value bytes, flags) that a plain key-to-(flags,value) map gives: add only when absent, replace/append/prepend only when present, append/prepend keep the old flags, a failed command changes nothing. One key never affects another, whatever their lengths, contents or hash collisions.",
 ["histories","inputs"],"every command history up to the bound over colliding keys, small and multi-block values, and every initial state reached by such a history",
 "The Perl tests sample a few dozen hand-written histories; a store/replace/append bug that needs a particular previous state or value size is not reached.",
 [M,E+'items.c',E+'item_base.c',E+'assoc.c',E+'default_engine.c'],
 [("store dispatch","items.c do_item_store_*"),("command parsing","memcached.c process_command_ascii, complete_update_ascii")])

p("C02","CAS tokens detect every intervening change and nothing else",
 "A cas command succeeds exactly when the item was not modified since the gets that returned its token: after any successful modifying command on a key-value item (including incr/decr, append, set of an equal value, delete followed by re-creation) the old token is refused with EXISTS, and a token that is still current is accepted. Reads, failed commands and changes to other keys never change a token, and a token is never reused for a different version of a key.",
 ["histories","schedules"],"every history up to the bound of readers and writers on a small key set, through ASCII and binary protocol",
 "cas.t checks a handful of fixed histories; the property is about every history between gets and cas.",
 [M,E+'items.c',E+'item_base.c'],
 [("unique cas id assigned on link/update","item_base.c do_item_link"),("cas compare","items.c do_item_store_cas")])

p("C03","incr/decr are exact 64-bit unsigned arithmetic on the stored number",
 "incr adds modulo 2^64 and decr subtracts with a floor of 0, for every stored decimal number and every delta; the reply equals the value a following get returns (flags unchanged), whatever the digit count of old and new value. A missing key gives NOT_FOUND (or is created with the given initial value and flags when one is supplied), a non-numeric or collection value is refused and left unchanged, in both protocols (blanks around the number may be taken either way).",
 ["inputs","histories"],"all pairs from a boundary-value alphabet of stored values and deltas (powers of ten and of two, +-1, 0, 2^63, 2^64-1, malformed), all short incr/decr/set/append sequences",
 "incrdecr.t samples a few values; digit-count changes, wrap-around and in-place overwrite need particular value pairs.",
 [M,E+'items.c','mc_util.c'],
 [("arithmetic","items.c item_arithmetic/do_add_delta"),("number parsing","mc_util.c safe_strtoull")])

p("C04","An item is visible exactly until its expiration time",
 "An item (of any type) stored, touched or given an expiretime attribute with expiration e is returned by every command until that instant and by none after it: 0 and -1 never expire by time, up to 30 days is relative to now, larger is an absolute unix time, and other negative or past times are expired at once. touch and setattr replace the expiration as a set would, and an expired item behaves as absent for every command (add succeeds, delete/replace/incr fail, collections can be created again).",
 ["histories","inputs"],"every history up to the bound of store/touch/read commands of every item type interleaved with advances of a virtual clock, with boundary expiration values",
 "expirations.t sleeps a few real seconds on a few items; boundaries (exact second, 30 days, absolute, sticky, each type and command) need a controlled clock.",
 [M,E+'items.c',E+'item_base.c'],
 [("exptime conversion","memcached.c realtime()"),("validity test","item_base.c do_item_isvalid"),("lazy expiry on lookup","item_base.c do_item_get")])

p("C05","flush_all and flush_prefix remove exactly the items in their scope",
 "After flush_all (or flush_prefix P) replies OK, every item stored before it (resp. every item whose key is in prefix P, and no other) is gone for every command and every item type, and items stored later are kept; with a delay the items present at that time disappear once it has passed and not before (with the one-second resolution of the server clock; a later flush of the same scope replaces a pending one). flush_prefix of a prefix that does not exist replies NOT_FOUND and removes nothing.",
 ["histories"],"every history up to the bound of stores, flushes (immediate, delayed, all, per prefix, null prefix), clock ticks and reads",
 "flush-all.t and flush-prefix.t test single flushes on a fixed clock; sub-second ordering and nested prefixes are sampled.",
 [M,E+'items.c',E+'item_base.c',E+'prefix.c'],
 [("flush timestamps","items.c item_flush_expired, prefix.c oldest_live"),("validity","item_base.c do_item_isvalid")])

p("C06","List commands implement an indexed double-ended list",
 "Every sequence of lop create/insert/delete/get (with create-on-insert, drop-if-empty, single and range indexes, forward and reverse, negative indexes) on a list gives the replies of a plain array: insertion position, elements and order returned, elements removed, and out-of-range rules. Deleted elements are gone and remaining ones keep their relative order and bytes.",
 ["histories","inputs"],"every operation history up to the bound and every index/range/count argument over lists from empty to full",
 "coll_lop_*.t use a few list shapes; off-by-one at particular (length, from, to) combinations is not exhausted.",
 [M,E+'coll_list.c'],
 [("position lookup","coll_list.c do_list_elem_find"),("insert/delete","coll_list.c do_list_elem_insert/delete")])

p("C07","Set commands implement a mathematical set of byte strings",
 "Every sequence of sop create/insert/exist/delete/get on a set gives the replies of a plain set of byte strings: insert of a member says ELEMENT_EXISTS, exist and delete see exactly the current members, get returns each of the requested number of distinct members once, with deletion or drop when asked. This holds for every size from empty to the limit, including element values that share hash bits.",
 ["histories","inputs"],"every operation history up to the bound, plus growth to and shrinkage from every size with colliding elements, and every get count",
 "coll_sop_*.t insert a few hundred sequential values; nested hash-node split/merge at particular collision patterns is not exhausted.",
 [M,E+'coll_set.c'],
 [("hash tree split/merge","coll_set.c do_set_node_link/unlink"),("count-bounded traversal","coll_set.c do_set_elem_traverse_fast/sampling")])

p("C08","Map commands implement a dictionary from field to value",
 "Every sequence of mop create/insert/upsert/update/delete/get on a map gives the replies of a plain dictionary: insert refuses an existing field, update needs an existing one, get and delete with field lists (or all) return or remove exactly the named existing fields once. This holds for every size from empty to the limit, including fields that share hash bits and values whose length changes on update.",
 ["histories","inputs"],"every operation history up to the bound, plus growth to and shrinkage from every size with colliding fields, and every field-list shape",
 "coll_mop_*.t use a few fixed maps; update length changes, duplicate fields and split/merge patterns are sampled.",
 [M,E+'coll_map.c'],
 [("hash tree split/merge","coll_map.c do_map_node_link/unlink"),("element replace","coll_map.c do_map_elem_replace")])

p("C09","B+tree commands implement an ordered map from bkey to element",
 "Every sequence of bop create/insert/upsert/delete/get/count on a b+tree gives the replies of a sorted map: range results ascending or descending by bkey, exact offset and count behaviour, exact deletion sets, and drop-if-empty; unsigned 64-bit and binary (hex, 1..31 bytes) bkeys are ordered numerically resp. lexicographically with a prefix sorting first. This holds for every tree shape reachable by insertions and deletions in any order, at any depth.",
 ["histories","inputs"],"every insertion/deletion history up to the bound across node splits and merges at several levels, with every range/offset/count argument",
 "coll_bop_*.t walk a few large trees in monotone order; split/merge/rebalance corner cases depend on particular orders and positions.",
 [M,E+'coll_btree.c'],
 [("descent and leaf search","coll_btree.c do_btree_find_leaf/first/next/prev"),("split/merge","coll_btree.c do_btree_node_split/merge"),("range delete","coll_btree.c do_btree_multi_elem_unlink")],
 hook="overridable node fan-out so that small scopes reach splits and merges at several levels")

p("C10","Element flags: filters, partial updates and bop update/incr/decr are exact",
 "A b+tree query with an element-flag filter (any compare operator, optional bitwise operand, one or several values, any offset) selects exactly the elements whose flag satisfies it, with the documented rule for flags too short for the filter. bop update replaces exactly the value and/or flag (whole or the addressed bytes under the bitwise operator) and nothing else, and bop incr/decr perform 64-bit element arithmetic (decrement floors at 0, creation with initial value and flag); failed updates leave the element unchanged.",
 ["inputs","histories"],"every operator x operand x offset x flag from a small alphabet including length mismatches, every update/incr form over every element shape",
 "Tests cover a few filters with equal lengths; offset/length boundary combinations are many.",
 [M,E+'coll_btree.c'],
 [("filter evaluation","coll_btree.c do_btree_elem_filter / efilter compare"),("element update","coll_btree.c do_btree_elem_update")])

p("C11","B+tree positions are consistent with its order",
 "bop position, bop gbp and bop pwg agree with the rank of elements in the ordered map, for ascending and descending order, all positions and ranges, and every tree shape: position(k) is the number of smaller (or larger) bkeys, gbp(i..j) returns exactly those ranks in the requested direction, and pwg returns the position, the index of the element in its result and up to the requested number of neighbours on each side.",
 ["histories","inputs"],"every tree built by a bounded insert/delete history x every position, range, order and neighbour count",
 "coll_bop_position/gbp/pwg tests use a few tree sizes; subtree element counts must stay right after every split, merge and range deletion.",
 [M,E+'coll_btree.c'],
 [("subtree element counts","coll_btree.c ecnt maintenance in split/merge/insert/unlink"),("rank search","coll_btree.c do_btree_find_position / find_bkey / find_posi")],
 hook="overridable node fan-out")

p("C12","Collection capacity, overflow actions, key range and trim flag are exact",
 "A collection never holds more than its maxcount, and an insertion into a full one does exactly what its overflowaction says: error refuses, head_trim/tail_trim on lists drop the opposite end, smallest/largest trim (and their silent variants) drop the smallest/largest bkey or refuse a new element that would itself be dropped, with maxbkeyrange enforced the same way on the bkey span. The trimmed flag (attribute and TRIMMED query reply) is set exactly when non-silent trimming has removed elements the query might have covered, and getrim returns exactly the trimmed element.",
 ["histories","inputs"],"every insertion/deletion history over small maxcounts for each collection type x overflow action x maxbkeyrange (integer and binary bkeys)",
 "The tests exercise one overflow per action; histories mixing deletes, range limits, maxcount changes and queries decide the trim flag.",
 [M,E+'coll_btree.c',E+'coll_list.c',E+'coll_set.c',E+'coll_map.c'],
 [("overflow check","coll_btree.c do_btree_overflow_check/trim"),("list trim","coll_list.c do_list_overflow_trim")])

p("C13","bop mget and bop smget return exactly the per-key and merged query results",
 "bop mget returns, for every key in order, the same status and elements as the corresponding single bop get. bop smget returns the first 'count' elements (after the offset in the old form) of the sorted merge of the given b+trees, ties ordered as documented, with duplicate or unique handling, and reports every missed and trimmed key as documented; results never depend on the order in which keys are scanned.",
 ["histories","inputs"],"every assignment of small b+trees (absent, empty, overlapping, trimmed, unreadable, wrong type, binary bkeys) to up to 3-4 keys x range, direction, filter, offset, count, unique/duplicate",
 "coll_bop_mget/smget tests use regular synthetic trees; the k-way merge has many orderings, ties and early stops.",
 [M,E+'coll_btree.c'],
 [("k-way merge","coll_btree.c do_btree_smget_*"),("mget loop","memcached.c process_bop_mget_single")])

p("C14","Multi-key requests answer each key exactly as single requests would",
 "get/gets with many keys, mget/mgets with a key block of any layout, and binary multi-get answer with exactly the hits, in request order, with the same value, flags and token as single gets, and end once; keys over the length limit, wrong key counts or malformed key blocks are refused with an error and no partial effect on later commands.",
 ["inputs","histories"],"every key list up to the bound from hits, misses, duplicates, collections and bad keys, in every length-to-buffer alignment, for each command form",
 "Tests use one or two layouts; token-buffer, memory-block and key-block boundaries depend on the lengths.",
 [M,'mc_util.c'],
 [("key block tokenizer","mc_util.c tokenize_mblocks/tokenize_sblocks"),("response list growth","memcached.c add_iov/ensure_iov_space")])

p("C15","getattr/setattr report and change exactly the named attributes",
 "getattr returns for every item type exactly its attributes with values that reflect the history (type, flags, expiretime, count, maxcount, overflowaction, readable, maxbkeyrange, minbkey, maxbkey, trimmed), and setattr changes exactly the named ones with the documented range and type rules. A refused or partly invalid setattr leaves every attribute unchanged.",
 ["histories","inputs"],"every attribute, combination and boundary value x item type x history up to the bound",
 "attr tests cover single attributes on fresh items; partial failure and combinations with element histories are sampled.",
 [M,E+'items.c',E+'coll_btree.c',E+'coll_list.c',E+'coll_set.c',E+'coll_map.c'],
 [("attribute get/set","items.c item_getattr/item_setattr, coll_*_coll_setattr")])

p("C16","Commands refuse wrong types and unreadable collections without side effects",
 "A command of one item type on a key holding another replies TYPE_MISMATCH (or the documented equivalent) and changes nothing, and reads of an unreadable collection reply UNREADABLE while writes still work, until it is made readable. Every command that replies with an error leaves all items, attributes and statistics of content unchanged (a set whose value is too large or does not fit into memory may drop the old item).",
 ["histories","inputs"],"every command x every type and readability of the addressed item, followed by full state comparison",
 "Tests check some pairs of the command x type matrix and rarely look at the state afterwards.",
 [M,E+'items.c',E+'coll_btree.c',E+'coll_list.c',E+'coll_set.c',E+'coll_map.c'],
 [("type check","item_base.c/coll_*.c IS_*_ITEM checks, readable flag")])

p("C17","Out-of-memory leaves data intact and the server consistent",
 "When a memory allocation fails at any point of any command, the client gets a complete error (or degraded) reply, every previously stored item still has its previous value (a refused set may drop the value it was to replace), nothing is half-inserted, nothing leaks, no invalid memory is touched, and the server keeps serving; retrying after memory is available succeeds as if the failure had not happened.",
 ["fault_sequences","histories"],"every single allocation failure point (item memory and heap) of every command in the alphabet from several states",
 "Tests never inject allocation failures.",
 [M,E+'slabs.c',E+'item_base.c',E+'coll_btree.c',E+'coll_set.c',E+'coll_map.c',E+'coll_list.c'],
 [("allocation error paths","ENGINE_ENOMEM handling across engine and memcached.c")])

p("C18","Concurrent commands on different connections are linearizable",
 "With several worker threads serving different connections, every execution of key-value and collection commands on shared keys gives replies that some sequential order of the commands, respecting real-time order, also gives: no lost update, no double success of add/cas/delete, no torn or mixed read. No interleaving with background work (collection deletion, scrubbing, expansion, dump) changes this.",
 ["schedules","histories"],"all thread interleavings up to the preemption bound of 2-3 connections x 1-2 commands each on colliding keys",
 "Tests drive the server from one client thread at a time; interleavings inside commands are never controlled.",
 ['thread.c',M,E+'items.c',E+'coll_btree.c',E+'coll_list.c',E+'coll_set.c',E+'coll_map.c'],
 [("engine-wide cache lock","item_base.c LOCK_CACHE"),("per-connection ownership","thread.c")])

p("C19","A value being sent is never affected by concurrent changes",
 "Once a read command has selected its items or elements, the bytes sent to the client are exactly the version selected, even when the socket blocks in the middle and other connections meanwhile replace, update, delete, expire, flush or evict the item or its elements, or the reading connection is closed. The memory of a removed item is reclaimed as soon as the last such reader is done, and never before.",
 ["schedules","histories","fault_sequences"],"every interruption point of a reply (each short write) x every modifying command on another connection, for every reading command",
 "Tests never make a socket block in the middle of a reply.",
 [M,E+'item_base.c',E+'items.c',E+'coll_btree.c',E+'coll_list.c',E+'coll_set.c',E+'coll_map.c'],
 [("reference counts","item_base.c do_item_release, coll_*.c elem release"),("reply list release","memcached.c conn_mwrite")])

p("C20","Memory and item accounting returns to the truth after every history",
 "At every quiescent point the reported item counts and sizes (overall, per prefix, sticky) equal what is stored, and all memory taken by removed items, elements, index nodes and failed commands is available again: after removing everything, item memory use is back to the initial value, whatever the history. Nothing stays referenced because of an error reply.",
 ["histories"],"every history up to the bound, followed by removal of everything and drain of background work; every error path",
 "Tests do not measure memory; a leaked reference or element is invisible to them.",
 [E+'item_base.c',E+'items.c',E+'slabs.c',E+'prefix.c',M],
 [("space accounting","item_base.c do_item_stat_*, coll space inc/dec"),("refcount balance","do_item_release on every path")])

p("C21","Memory limits, eviction and sticky items are honoured",
 "Memory used for items never exceeds the configured limit (plus the small reserve the small-item class keeps); when it is full, storing evicts only non-sticky items that are not in use, the least recently used first (a use counts at most once a minute) or expired ones, or fails with an out-of-memory error when eviction is disabled. Sticky items are never evicted and are refused beyond the sticky limit, and a store that fails leaves the other items readable.",
 ["histories","configurations"],"every history up to the bound of stores, reads and deletes around the full point, with and without eviction and sticky items",
 "issue and lru tests fill memory once with uniform sizes; the order under mixed reads/updates is not exhausted.",
 [E+'slabs.c',E+'item_base.c',E+'items.c'],
 [("LRU lists","item_base.c item_link_q/unlink_q/do_item_update"),("eviction","item_base.c do_item_evict"),("sticky limit","do_item_alloc sticky check")])

p("C22","Request handling does not depend on how bytes are segmented",
 "For any request byte stream the replies are a function of the stream only: however it is split into reads (down to single bytes, at any boundary, with would-block results in between, and across any buffer growth or reuse), the server gives the same replies in the same order and the same final state, and the next command starts exactly where the previous one ended (command lines over the documented length limits are excepted).",
 ["inputs","fault_sequences"],"all ways to split short multi-command streams into 1-3 reads and all single-byte splits, for each command form in both protocols",
 "The Perl clients send each command in one write over loopback.",
 [M],
 [("read loop and parse","memcached.c try_read_network, try_read_command_ascii/binary, conn_nread, conn_swallow")])

p("C23","Replies are complete and in order however the socket accepts them",
 "Every reply is delivered byte for byte, once and in request order for every pattern of short writes and would-block results, for replies of any number of items and any size; when a peer stops or resets, the connection is closed and its resources are released without affecting other connections.",
 ["fault_sequences","inputs"],"every single and double short-write/would-block/reset point over replies of each command form, including replies spanning several messages",
 "Loopback sockets in the tests accept everything at once.",
 [M],
 [("transmit loop","memcached.c transmit, add_msghdr, conn_mwrite/conn_write")])

p("C24","Malformed or oversized requests get one clean error and no side effects",
 "Any input line or packet, however malformed, truncated or oversized, gets the documented error reply (or an orderly close), never crashes, hangs or corrupts the server, never exposes memory it should not, leaves stored data unchanged, and a following request on the connection is handled normally (the data block of a command line that was itself refused is taken as the next line).",
 ["inputs"],"every token sequence up to the bound from an alphabet of command words, key shapes, numeric boundaries and junk, with and without a data block; every binary header field boundary",
 "Tests send a few malformed commands.",
 [M,'mc_util.c'],
 [("argument validation","memcached.c process_*_command"),("swallow","memcached.c conn_swallow")])

p("C25","noreply and command pipelining change only how replies are returned",
 "A command with noreply has the same effect as without and produces no bytes; commands sent with the pipe option have the same effects and statuses in order, collected in one RESPONSE block that ends with END (or with the documented error, after which the rest is discarded up to the documented point). Afterwards the connection is in step for normal commands.",
 ["histories","inputs"],"every pipelined/noreply sequence up to the bound mixing successes, failures, bad lines, non-pipable commands, and pipes at the maximum length",
 "coll_*_pipe tests use one long homogeneous pipe.",
 [M],
 [("pipe state machine","memcached.c pipe_response_save/done, check_and_handle_pipe_state, set_pipe_maybe"),("noreply","memcached.c out_string")])

p("C26","The binary protocol gives the same semantics as ASCII, framed exactly",
 "Every binary command has the effect and result of its ASCII counterpart, in a well-formed packet whose opcode, opaque, lengths, status and cas match the request; quiet commands stay silent exactly in the documented cases, and a noop flushes everything before it. Mixed ASCII and binary connections see one store.",
 ["histories","inputs"],"every history up to the bound of binary requests (and mixed with ASCII observers) with quiet and loud opcodes, extras and cas values",
 "binary.t covers each opcode in a few fixed histories.",
 [M,'include/memcached/protocol_binary.h'],
 [("packet dispatch","memcached.c dispatch_bin_command, bin_read_key, complete_nread_binary"),("response header","memcached.c add_bin_header")])

p("C27","A complete key or prefix scan returns every stable key",
 "A scan started with cursor 0 and continued with returned cursors until it is 0 again terminates, reports every key (prefix) that exists throughout the scan and matches the pattern and type, and no key (prefix) that never existed during it, even while other keys are stored, deleted or expire and while the hash table expands. Without concurrent changes each key is reported once.",
 ["histories","schedules"],"every interleaving up to the bound of scan steps (every count) with insert/delete/expansion steps over key sets with bucket collisions",
 "scan tests run on a static key set.",
 [M,E+'items.c',E+'assoc.c',E+'prefix.c'],
 [("cursor over buckets","assoc.c assoc_scan_*"),("prefix scan","prefix.c prefix_scan_*"),("glob match","mc_util/util string_pattern_match")])

p("C28","Scrubbing and key dumps see exactly the right items",
 "A scrub removes every item that is expired or flushed and nothing else, and terminates; a key dump lists every live key that exists throughout the dump exactly once with its type and expiration. Both run to completion and can be stopped while clients keep reading and writing, without affecting replies.",
 ["histories","schedules"],"every interleaving up to the preemption bound of scrub/dump steps with client commands on a small item set in every state (live, expired, flushed, in use)",
 "Tests run scrub on a static set and never run dump concurrently with writes.",
 [E+'items.c',E+'assoc.c','ascii_scrub.c',M],
 [("bucket-wise scan","items.c item_scrubber_main, item_dumper_main; assoc.c assoc_scan")])

p("C29","Connections are accepted, isolated, limited and cleaned up",
 "Up to the configured limit every accepted connection is served, fairly and independently of what others send; above it new ones are refused or wait and existing ones are unaffected, and service resumes when a connection closes. A connection closed at any point of any request releases everything it held (items, elements, buffers, its slot), and no state of a previous connection is visible to the next one that reuses its resources.",
 ["fault_sequences","histories","schedules"],"a disconnect or error after every byte and at every blocked write of every command form, followed by reuse; all accept/close orders around the limit",
 "Tests close connections only between commands.",
 [M,'thread.c','cache.c'],
 [("connection recycle","memcached.c conn_new, conn_cleanup, conn_close"),("dispatch","thread.c dispatch_conn_new")])

p("C30","Hash table growth never loses, duplicates or misplaces a key",
 "While and after the key index grows in the background, every stored key is found and every absent key is not, and inserts, replacements and deletions take effect on the right key, at every point of the growth.",
 ["schedules","histories"],"every client operation at every step of an expansion, for keys of every old/new bucket combination",
 "Expansion needs many thousand keys and its intermediate states are never observed by the tests.",
 [E+'assoc.c'],
 [("incremental bucket migration","assoc.c assoc_expand / redistribute"),("bucket lookup","assoc.c assoc_find")])

p("C31","The item memory allocator hands out disjoint, sufficient, reusable blocks",
 "Every block given out is at least as large as requested, within memory the allocator owns, aligned, and overlaps no other block in use, for every sequence of allocations and releases of small and large sizes; freed memory can be reused (also merged into larger blocks and moved between size classes) and the accounted total equals the sum of what is in use and stays under the limit.",
 ["histories"],"every alloc/free sequence up to the bound over a size alphabet with class boundaries, from empty, fragmented and full states",
 "slabs tests only watch one stat; overlaps or lost blocks need particular free orders.",
 [E+'slabs.c'],
 [("small memory allocator","slabs.c do_smmgr_alloc/free"),("slab classes","slabs.c do_slabs_alloc/free")],
 observe=["allocator entry points used by the engine; item contents via protocol"])

p("C32","With authentication required nothing runs before it, nor beyond its grants",
 "On a server that requires authentication an unauthenticated connection can run only the authentication, version, help, ready, quit and statistics commands and commands on keys reserved for health checks (prefix arcus:, all keys of the command): every other command, in either protocol, at any point of a failed, abandoned or repeated exchange, is refused and has no effect. After authentication a connection may use exactly the command groups its credentials grant, in either protocol; a failed or unfinished re-authentication never leaves it with rights of an earlier one, and rights are never carried over to another connection.",
 ["histories","inputs"],"every sequence up to the bound of authentication steps (good, bad, partial, continued, re-auth) and commands of each group, in both protocols",
 "binary-sasl tests check one good and one bad login.",
 [M,'sasl_defs.c','sasl_auxprop.c','isasl.c'],
 [("gate","memcached.c authenticated(), check_ascii_auth"),("exchange","memcached.c process_sasl_auth_complete, process_bin_complete_sasl_auth")])

p("C33","With persistence an acknowledged change survives any crash",
 "With persistence on and synchronous logging, at every crash point (any instant between two file operations, with any loss of unsynced data and a torn last record) restart succeeds and the recovered data is the result of a prefix of the executed changes that contains every acknowledged one; asynchronous logging may lose only a suffix. No crash during startup, checkpoint or recovery itself makes later recovery lose or resurrect data.",
 ["crash_points","histories"],"every prefix of the file-operation trace of every short history (including checkpoints and a second crash during recovery) x unsynced-data loss x tail truncation",
 "Persistence is not built in the tested configuration; no test crashes the server.",
 [E+'cmdlogbuf.c',E+'cmdlogfile.c',E+'cmdlogmgr.c',E+'cmdlogrec.c',E+'checkpoint.c',E+'chkpt_snapshot.c'],
 [("write-ahead group commit","cmdlogbuf.c/cmdlogmgr.c flush and fsync"),("recovery","checkpoint.c chkpt_recovery_analysis/redo, cmdlogfile.c cmdlog_file_apply")],
 observe=["file operations of the engine and the store after restart"])

p("C34","Recovery reproduces the state before a clean stop",
 "With persistence on, restarting after any history of changes (every command of every item type, including trims, range deletions, attribute changes, flushes, expirations, large values and generated-on-insert collections) yields items with the same values, flags, attributes, elements and order as before, from log replay alone, from a snapshot alone, and from any snapshot plus the log after it.",
 ["histories","configurations"],"every history up to the bound over an alphabet containing every logged operation, with a checkpoint at every position",
 "Persistence is not built in the tested configuration.",
 [E+'cmdlogrec.c',E+'item_clog.c',E+'checkpoint.c',E+'chkpt_snapshot.c',E+'items.c'],
 [("record encode/redo","cmdlogrec.c lrec_*_write / lrec_*_redo"),("change logging","item_clog.c CLOG_*")],
 observe=["full dump of the store through the protocol before and after restart"])

p("C35","Checkpoints are consistent under concurrent changes",
 "A snapshot taken while clients change items, combined with the log written during and after it, recovers exactly the state of the store at the end of the log, for every interleaving of snapshot steps, log flushing, log-file switch and client commands; the checkpoint neither blocks clients forever nor deletes a file recovery needs.",
 ["schedules","crash_points"],"every interleaving up to the bound of checkpoint steps and client changes on a small item set, each followed by recovery",
 "Persistence is not built in the tested configuration.",
 [E+'chkpt_snapshot.c',E+'checkpoint.c',E+'cmdlogbuf.c',E+'item_clog.c',E+'assoc.c'],
 [("dual write during checkpoint","cmdlogbuf.c/cmdlogfile.c cmdlog_file_dual_write"),("snapshot scan","chkpt_snapshot.c do_snapshot_*, assoc.c assoc_scan")],
 observe=["file operations and the store after restart"])

p("C36","Text and number parsing is exact and rejects what it should",
 "Numeric arguments, hexadecimal bkeys and flags, ranges, key blocks and command lines are accepted exactly when they are in the documented form and range, and then give exactly that value; everything else (overflow, sign, junk, embedded separators, too long) is refused, never wrapped, truncated or read out of bounds.",
 ["inputs"],"all strings up to a length bound over an alphabet of digits, signs, hex digits, separators and junk, plus all boundary numbers, through the commands that use them",
 "Unit tests sample about thirty strings.",
 ['mc_util.c','util.c',M],
 [("number parsing","mc_util.c/util.c safe_strto*"),("hex parsing","mc_util.c safe_hexatostr"),("range parsing","memcached.c get_bkey_range_from_str")])

p("C37","Runtime configuration changes are validated and take effect exactly",
 "Each config command reports the current value when asked, accepts exactly its documented range, rejects anything else leaving the setting unchanged, and once accepted the new value is what later commands enforce (collection size limits, element size, memory and sticky limits, connection limit, verbosity, scrub count).",
 ["inputs","histories"],"every setting x boundary values x enforcing commands, and histories up to the bound of changes",
 "Tests set a few values once.",
 [M,E+'default_engine.c',E+'items.c'],
 [("config dispatch","memcached.c process_config_command"),("engine config","default_engine.c set_config")])

p("C38","Consistent hashing maps every key to one node with minimal movement",
 "For every node list each key belongs to exactly one listed node, all nodes (whatever order they were told the list in) agree which, and adding or removing nodes moves only keys from or to those nodes. The answer to 'is this my key' on each node is consistent with that mapping at every step of a membership change.",
 ["inputs","histories"],"every subset and permutation of a small node universe, every join/leave history up to the bound, keys at and around every hash point",
 "Cluster code is not built in the tested configuration.",
 ['cluster_config.c','rfc1321/md5c.c'],
 [("continuum build and search","cluster_config.c ketama points, find_ketama_continuum")],
 observe=["cluster configuration API used by the server"])

p("C39","Statistics counters count exactly what happened",
 "Every command increments exactly the documented command, hit and miss counters by the documented amount, once, on whichever worker thread it runs, and nothing else; total and current items, bytes, evictions, expirations, connections and per-slab figures agree with the history, and stats reset clears exactly the resettable counters.",
 ["histories","schedules"],"every command x outcome (hit/miss/error), every history up to the bound, and concurrent increments under every interleaving up to the preemption bound",
 "stats.t checks a few counters after a few commands.",
 [M,'thread.c',E+'item_base.c','topkeys.c'],
 [("per-thread stats and aggregation","thread.c threadlocal_stats_*, memcached.c STATS_*")])

p("C40","Per-prefix statistics match the items and operations of each prefix",
 "For every prefix the reported item counts, element bytes and operation counts equal those of the items and commands under that prefix; a prefix appears when its first item is stored, disappears when its last is gone, and operations on other prefixes never change it.",
 ["histories"],"every history up to the bound over adjacent and null prefixes with all item types, deletions, expirations and flushes",
 "prefix tests check a few static configurations.",
 [E+'prefix.c','stats_prefix.c',M],
 [("prefix link/unlink accounting","prefix.c prefix_link/unlink, prefix_bytes_incr"),("detail counters","stats_prefix.c")])

p("C41","Command logging and long-query detection record exactly what was asked",
 "While command logging runs, every command is recorded once, in order, unmodified (up to the documented truncation), the log stops exactly at its documented limits or on request, and start/stop/stats report the true state; long-query detection records exactly the commands whose scanned-element count exceeds the threshold, up to its per-command limit. Neither changes any reply, and starting and stopping them at any moment is safe.",
 ["histories","schedules"],"every history up to the bound of start/stop/show/stats and commands, and all interleavings up to the preemption bound of a writer with stop",
 "Tests start and stop them once.",
 ['cmdlog.c','lqdetect.c',M],
 [("ring buffer and flush thread","cmdlog.c do_cmdlog_flush, cmdlog_write"),("threshold and buffer","lqdetect.c lqdetect_save_cmd")])

p("C42","No deadlock: every command, background task and shutdown completes",
 "Under every schedule every request is eventually answered or its connection closed, no lock is held forever and no wake-up is lost between workers, listener and background threads (collection deletion, scrubbing, dump, hash expansion, logging); a requested shutdown always terminates cleanly whatever is in progress.",
 ["schedules"],"all interleavings up to the preemption bound of pairs of commands, background tasks and shutdown",
 "Tests run free on one schedule.",
 ['thread.c',M,E+'items.c',E+'assoc.c',E+'default_engine.c',E+'coll_btree.c','cmdlog.c'],
 [("condition-variable wakeups","item_base.c coll_del_thread, assoc.c expansion thread, cmdlog.c"),("shutdown","memcached.c shutdown_server, thread.c threads_shutdown")])

p("C43","Shared library containers behave as their abstract types",
 "The generic hash table behaves as a key-to-values map, the object cache never hands out an object twice or loses track of one (and its checks detect overruns), the hot-key table keeps exactly the most recently used keys with exact counts, and configuration-line parsing assigns exactly the named options with documented types and errors, for every operation sequence.",
 ["histories","inputs"],"every operation sequence up to the bound over small key sets with collisions, resize points, and all short option strings",
 "testapp covers a few fixed sequences.",
 ['genhash.c','cache.c','topkeys.c','config_parser.c'],
 [("hash container","genhash.c"),("object cache","cache.c cache_alloc/free"),("LRU of keys","topkeys.c")],
 observe=["the container APIs declared in their headers; stats topkeys"])

with open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
