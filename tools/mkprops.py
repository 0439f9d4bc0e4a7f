#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that long texts stay reviewable)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=()):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,
        state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],
        observe_at=list(observe),hook_needed=None)))
DB="src/core/db.cpp"; HC="src/core/http_parse_cache.cpp"; HR="src/core/http_respond.cpp"; HP="src/core/http_parse.cpp"
RB="src/core/read_buffer.cpp"; HT="src/core/http.cpp"; CN="src/core/connection.cpp"; MO="src/core/http_parse_mon.cpp"

p("C01","A stored value is returned byte for byte",
 "The body of a PUT is stored at exactly the offsets the value occupies, each received body byte once, in order and never outside the value's own space, however the body is split over reads and whatever partial writes the file system makes; a GET announces exactly the stored length and sends exactly those bytes in order, however the socket accepts them.",
 ["inputs","schedules","fault_sequences"],"every body length, every split of the body over socket reads, every short write/short send/error result, every position in the input buffer",
 "the scenarios send a few short bodies in one segment; lengths around 4096, wrap-around of the input buffer, short writes and short sendfile results are never combined",
 [HC,HR,DB],[("body receive step: seek, write, advance by what was written",HC+" http_cache_handle_request_body"),("value extent (position/end_position)",DB+" db_target_open"),("send step: sendfile from position, advance by what was sent",HR+" http_respond_contentbody"),("Content-Length header",HR+" http_respond_contentlength")],
 [("position,end_position","absolute file offsets of the next byte and one past the last byte","cache_target")],["client socket","blockfile.db / files/"])
p("C02","A request reaches only the exact table and key it names",
 "A read, delete or table operation acts on an entry or table only if its stored name has the same length and the same bytes (NUL bytes included) as the name in the request; entries or tables whose names merely share a hash or a prefix are never returned, and looking a name up changes no other name's value.",
 ["inputs","histories"],"every table name, key and database state, including 32-bit hash collisions",
 "tests use a handful of short distinct names; colliding hashes, equal prefixes and embedded NULs never occur in them",
 [DB,HC],[("name comparison after hash lookup",DB+" db_entry_get_read, db_entry_get_delete, db_table_get_read, db_table_get_write"),("name extraction from the request line",HC+" http_key_lookup, http_read_requeststarturl1")],
 [("key,key_length,hash","name of an entry/table","cache_entry, db_table")],["GET/DELETE/BULK responses"])
p("C03","No two values ever share a block",
 "Every block of the block file is at any time either free or owned by exactly one stored value, is handed out only when free, is given back at most once, lies inside the block file, and the file size and the free/total block figures match this.",
 ["histories","inputs"],"every history of puts, overwrites, deletes, evictions, expiries and restarts",
 "tests never check allocation after non-trivial histories, nor file growth/shrink limits",
 [DB],[("allocate / free / resize",DB+" db_block_allocate_new, db_block_free, db_block_size"),("who gives blocks back",DB+" db_entry_actually_delete, db_target_write_allocate")],
 [("free_blocks,blocks_exist,blocks_free","free list, blocks in file, length of free list","db_details"),("block","block owned by an entry (>=0)","cache_entry")],["GET /","blockfile.db"])
p("C04","Reported usage always equals the contents",
 "The reported number of keys equals the number of entries that exist, and the reported size equals the sum of their declared lengths, after every operation: insert, overwrite, repeated or changed Content-Length, delete, table delete, expiry, eviction, aborted upload and restore; neither figure ever wraps below zero.",
 ["histories","inputs"],"every sequence of operations and every length",
 "tests read the statistics after single inserts and deletes only",
 [DB],[("size and key counters",DB+" db_entry_get_write, db_target_write_allocate, db_entry_handle_softdelete, db_entry_handle_delete, db_table_handle_delete, db_load_from_save_insert")],
 [("db_size_bytes,db_keys","reported totals","db_details")],["GET / statistics"])
p("C05","Eviction takes the least recently used value first",
 "All completed, undeleted values form one recency order in which completing an upload or serving a read moves exactly that value to the most recent end and nothing else changes the relative order; size-based eviction always removes from the least recent end, and values still being uploaded or already deleted are never part of the order.",
 ["histories"],"every history of puts, gets, deletes and evictions",
 "the lru scenarios check one short access pattern; list corruption at head/tail/middle under mixed deletes is not observable there",
 [DB],[("recency list",DB+" db_lru_insert, db_lru_remove_node, db_lru_hit"),("eviction",DB+" db_lru_cleanup_percent")],
 [("lru_head,lru_tail,lru_next,lru_prev","doubly linked recency list","db_details, cache_entry")],["which keys survive when the size limit is hit"])
p("C06","Expired values are never served and live values never expire early",
 "X-Ttl: n gives a value the expiry time now+n (n=0 or no header: none); from the moment the clock passes that time a read of the key finds nothing and the value is removed, whereas before it neither reads nor the periodic sweep remove it, and the remaining time reported to readers is that expiry time minus now (0 if none).",
 ["inputs","histories","schedules"],"every ttl, clock value, order of sweeps and reads",
 "the expires scenarios wait a second or two around one or two ttls",
 [DB,HC,HR],[("expiry test on read",DB+" db_entry_get_read"),("sweep",DB+" db_expire_cursor, db_expire_cursor_table"),("header",HC+" http_read_header_extraction"),("X-Ttl response",HR+" http_respond_expires")],
 [("expires","absolute expiry second, 0 = never","cache_entry")],["GET status, X-Ttl response header"])
p("C07","A value is visible only once its upload is complete",
 "A value whose body has not been received in full is never returned to any reader, is not listed for eviction or saved, and if the uploading connection goes away at any point before completion the value disappears entirely; while an upload of a key is in progress another upload of it is acknowledged but cannot modify it.",
 ["schedules","histories","fault_sequences"],"every interleaving of connections and every disconnect point",
 "the interruptions scenarios disconnect at a couple of fixed points",
 [DB,HC],[("writing flag",DB+" db_entry_get_read, db_entry_get_write, db_complete_writing, db_index_flush"),("abort handling",HC+" cache_destroy, http_cache_handle_request_body")],
 [("writing","upload in progress","cache_entry"),("is_writing","this connection is the uploader","scache_connection")],["GET during/after an interrupted PUT"])
p("C08","A response in progress keeps the value it started with",
 "Once a read of a value has begun, overwriting, deleting, expiring or evicting that value does not free, reuse or change the storage being read until that reader is finished or gone.",
 ["schedules","histories"],"every interleaving of readers with writers, deletes, expiry and eviction",
 "tests read whole small responses at once, so storage is never replaced mid-response",
 [DB],[("reference counts decide when storage is released",DB+" db_entry_deref, db_entry_actually_delete, db_entry_handle_softdelete, db_entry_handle_delete"),("reads open the file/pin the entry at lookup",DB+" db_entry_get_read, db_target_open")],
 [("refs","connections using the entry","cache_entry")],["bytes of a slow GET"])
p("C09","Entries and tables live exactly as long as they are used",
 "No operation of the storage layer, in any reachable state and whatever other connections did to the same table or key in between, uses an entry, table or key set after it was released, releases one twice, releases one that a connection still uses, drops a reference nobody holds, or leaves an unreachable one behind.",
 ["schedules","histories"],"every interleaving of operations of any number of connections on shared tables and keys",
 "the multi-connection scenarios run a few fixed interleavings without a memory checker",
 [DB,HC],[("reference counting",DB+" db_entry_incref/deref, db_table_incref/deref, *_actually_delete"),("connection cleanup",HC+" cache_destroy; "+DB+" db_target_entry_close, db_table_close")],
 [("refs,deleted","reference count and unlinked flag","cache_entry, db_table")],["process stays alive; memory checker"])
p("C10","The input ring buffer is an exact bounded byte queue",
 "For every fill level and read position (wrap-around, empty and full included) the buffer operations report exact lengths, never read or write outside the buffer or beyond the received bytes, and copying or comparing n bytes behaves exactly as on the n oldest unread bytes; number parsing accepts exactly the strings of decimal digits whose value is representable and returns their value, and rejects everything else.",
 ["inputs","configurations"],"every buffer size that is a power of two >= 256, every position pair, content and length argument",
 "the ring-buffer tests sample specific offsets",
 [RB,"src/core/read_buffer.h"],[("ring arithmetic",RB+" all functions"),("macros","src/core/read_buffer.h")],
 [("read_position,write_position","16-bit running counters","read_buffer")],["rbuf_* return values"])
p("C11","Request parsing never looks beyond the bytes received",
 "While parsing a request (method, URL, version, headers, header values, line ends) the server reads only bytes already received and not yet consumed, consumes only whole recognised pieces and never more than was received, wherever the piece lies in the buffer and however it was split over reads; numeric headers are used only if they are plain decimal numbers in range.",
 ["inputs","schedules"],"every byte sequence, every segmentation of it, every position in the ring buffer",
 "the scenarios send well-formed requests in one piece from an empty buffer",
 [HC,HP,MO],[("parsing steps",HC+" http_cache_handle_*, http_read_*"),("shared steps",HP+" skip_over_newlines, http_read_eoltoend, http_handle_eolwritetoend"),("monitoring requests",MO+" http_mon_handle_*")],
 [("input","received unconsumed bytes","scache_connection")],["no crash, same response for every segmentation"])
p("C12","Every response is sent completely, once and in order",
 "Fixed responses are well-formed (the announced length is the length of the body that follows), and whatever part of pending output the socket accepts on each attempt, the peer receives every byte of it exactly once and in order before anything else is sent or the connection returns to reading; a temporarily full socket neither loses data nor closes the connection.",
 ["schedules","fault_sequences","inputs"],"every sequence of partial/failed socket writes",
 "responses in tests always fit into the socket buffer in one write",
 [HT,HR,HC],[("pending output",HT+" http_write_handle"),("fixed responses","src/core/http.h http_templates"),("response builders",HR)],
 [("output_buffer,output_length,output_buffer_free","unsent output","scache_connection")],["client socket"])
p("C13","What the index saves is what a restart restores",
 "A saved index lists every free block and exactly the tables and completed, undeleted values (location, length, expiry, name), and loading it recreates exactly the listed values whose storage exists, with the same attributes and unreferenced, with totals matching, skipping malformed or dangling lines without memory errors.",
 ["histories","inputs","configurations"],"every database state and every index file content",
 "one scenario family restarts with a couple of keys",
 [DB],[("save",DB+" db_index_flush"),("load",DB+" db_load_from_save, db_load_from_save_entry, db_load_from_save_insert")],
 [],["index.save; GET after restart"])
p("C14","Value files stay inside the database directory and are never shared",
 "Every per-value file the server creates, opens or removes lies in one of the fixed sub-directories of the configured database directory and its name is derived only from hashes and a counter, never from client text; a new value always gets a newly created file, and a file is removed only on behalf of the value it belongs to.",
 ["inputs","histories"],"every key, table name, hash and counter value",
 "no test inspects the file tree",
 [DB],[("path construction",DB+" get_key_path"),("exclusive creation",DB+" db_entry_open_create"),("removal",DB+" db_entry_delete, db_entry_cleanup, db_target_write_allocate")],
 [("it","per-file counter","cache_entry")],["files/ tree"])
p("C15","A table listing shows exactly the keys in the requested window",
 "For every start and limit a listing terminates without touching anything outside the table, announces the table's number of entries, and sends each key that lies in the requested window exactly once, complete and unmodified, even if the table is changed or deleted while the listing is being sent.",
 ["inputs","schedules","histories"],"every X-Start/X-Limit, table content and concurrent change",
 "three listing scenarios on tables of two keys",
 [HR,HC],[("listing steps",HR+" http_respond_listing, http_respond_listingentries, http_respond_listingtotal, http_respond_listing_separator")],
 [("start,limit","window cursor","table_target")],["GET /table"])
p("C16","Deleting removes exactly what was named",
 "DELETE of a key, each X-Delete of a BULK request, and DELETE of a table make exactly the named value, respectively every value of the named table, unreachable at once for all later requests; every other table and value remains as it was, and repeating or racing deletes are harmless.",
 ["histories","schedules"],"every database state, every interleaving of deletes with other requests",
 "the delete scenarios delete one of at most a few keys on one or two connections",
 [DB,HC],[("key delete",DB+" db_entry_get_delete, db_entry_handle_delete"),("table delete",DB+" db_table_handle_delete, db_delete_table_entry"),("bulk delete",HC+" http_read_header_extraction")],
 [],["GET after DELETE"])
p("C17","Each accepted connection is handed over exactly once",
 "Every socket accepted by an acceptor thread is taken over by the event loop exactly once and with its own type, in acceptance order, for every interleaving of the two acceptor threads with the event loop, and the hand-over queue is only ever touched under its lock.",
 ["schedules"],"every interleaving of two producers and one consumer",
 "thread interleavings are not controlled by any test",
 [CN],[("queue insert",CN+" connection_handle_accept"),("queue remove",CN+" connection_event_loop")],
 [("cq_head,cq_tail","hand-over queue","connection.cpp")],["every client is served"])
p("C18","Monitoring streams are scheduled and unlinked correctly",
 "Every monitoring connection that has started streaming is in the schedule exactly once until it closes and never afterwards, is sent its next counter line when its time has come and then rescheduled one interval later, and one that has not drained its previous line is disconnected with its socket released exactly once.",
 ["schedules","histories"],"every order of connects, disconnects, timer ticks and stalled readers",
 "one connect/read scenario exists",
 [MO],[("schedule list",MO+" monitoring_add, monitoring_destroy, monitoring_check")],
 [("mon_head,mon_tail","streaming connections by due time","http_parse_mon.cpp")],["/conn stream"])
p("C19","Size-limit eviction frees what is needed and then stops",
 "When the stored size exceeds the configured limit a collection evicts values until the configured fraction below the limit is reached or nothing evictable is left, computed exactly for every size, and then stops without evicting further; below the limit nothing is evicted.",
 ["inputs","histories","configurations"],"every limit, fraction, size and content",
 "the lru scenario uses one limit of a few kilobytes",
 [DB],[("collection",DB+" db_lru_gc, db_lru_cleanup_percent")],
 [],["statistics / surviving keys"])
p("C20","Bind options are parsed exactly",
 "A bind option list yields exactly one listener per comma-separated element with the family, address, port and transparency written there, for IPv4, bracketed IPv6 and unix paths, without reading or writing outside its buffers; an invalid address is refused.",
 ["inputs","configurations"],"every option string",
 "tests start the server with one fixed bind string",
 ["src/core/settings.cpp"],[("parser","src/core/settings.cpp parse_binds")],[],["listening sockets"])
p("C21","A crash leaves a usable saved database",
 "If the process or machine stops at any point, including while a save is in progress, the next start finds a saved index and block file that belong together (or none).",
 ["crash_points"],"every crash point in a save, in particular between the replacement of the two files",
 "no test kills the server during a save",
 [DB],[("save",DB+" db_index_flush")],[],["index.save, blockfile.db.save"])
p("C22","Signals do not disturb request processing",
 "A timer, child or flush signal arriving at any instruction leaves all data structures consistent.",
 ["schedules"],"every arrival point of a signal",
 "signal arrival points are not controlled by any test",
 ["src/core/timer.cpp",DB],[("handlers","src/core/timer.cpp")],[],["process stays alive"])
p("C23","Every well-formed request is eventually answered",
 "Every complete request on an open connection is eventually answered, provided the client keeps reading, and the connection becomes ready for the next one.",
 ["schedules","inputs"],"every segmentation and pipelining",
 "tests cover a few request shapes",
 [HT,HC,HR,CN],[("event loop",CN+" connection_event_loop")],[],["client socket"])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
