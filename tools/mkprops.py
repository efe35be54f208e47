#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, state, mech, observe, hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=observe, hook_needed=hook)))

NOTEST = "The baseline tests never run the daemon's code for this (they cover the spool-db library, nbspinsert, the goesr decoders and Tcl scripts); a sample could not range over "

p("C01", "Malformed frames never disturb product assembly",
  "A received frame whose 16-byte header checksum is wrong, which is shorter than the headers it declares, or whose size or embedded-header size is inconsistent with its declared lengths is counted as bad and has no other effect: it never starts, extends, completes, aborts or alters a product on any channel, and never stops the daemon. Test and timing frames (non-data commands) likewise have no effect on products. Every well-formed data frame is acted upon, and a jump in a channel's frame sequence numbers is counted whenever frames are lost.",
  ["inputs", "histories"], "Every sequence of frames (arbitrary bytes, any interleaving with valid frames) on every channel.",
  NOTEST + "corrupt frames at every point of every assembly history.",
  ["src/sbn.c", "src/framep.c", "src/stats.c"],
  [("activepce[ch]", "product being assembled on a channel", "src/pctl.c"), ("nbspstats", "frame counters", "src/stats.c")],
  [("unpack_sbn_headers/sbn_unpack_frame", "src/sbn.c"), ("update_framep_info", "src/framep.c")],
  ["sbnframeproc() result", "products queued for the processor", "statistics counters"])
p("C02", "A complete product is exactly the blocks of one transmission, in order",
  "Whenever a product is handed to processing as complete, its content is the concatenation, in order and without gap, duplication or foreign data, of blocks 0..m-1 received on one channel since that product's START frame and carrying that product's sequence number, where m is at least the announced fragment count (0 announced means 1) and the last of them, or a later frame, carries END. A block out of sequence ends the product as incomplete; frames of other sequence numbers or other channels never contribute to it. A product all of whose blocks arrive in order is delivered complete exactly once.",
  ["inputs", "histories", "schedules"], "All frame sequences with losses, duplications, reordering, interleaved channels and reused sequence numbers (including 0), also when the channels' readers run concurrently.",
  NOTEST + "frame losses and interleavings.",
  ["src/framep.c", "src/pctl.c", "src/mfile.c"],
  [("activepce[ch]", "sequence number, fragments received, content", "src/pctl.c")],
  [("start/update/end_activepce", "src/framep.c"), ("update_activepce_framecounter, complete_activepce", "src/pctl.c")],
  ["elements taken from the processing queue"])
p("C03", "Every started product gets exactly one accounted outcome",
  "Each START frame counted as transmitted leads to exactly one of: completed, missed, rejected, or aborted; at any time the transmitted count equals the sum of these outcomes plus the products still being assembled (an abort or error frame that hits no product is counted as aborted too, and is left out of this sum). A product that loses frames is handed to processing exactly once, flagged incomplete, so that it can be logged and recovered; a completed one is handed over exactly once flagged complete; rejected and aborted ones are never handed over.",
  ["inputs", "histories"], "All frame sequences on all channels: interrupted products, END without START, repeated STARTs, aborts and errors at any point, lost START or END frames.",
  NOTEST + "loss patterns.",
  ["src/framep.c", "src/pctl.c", "src/stats.c"],
  [("nbspstats.products_*", "outcome counters", "src/stats.c")],
  [("e_start/e_update/e_end/abort_activepce", "src/framep.c")],
  ["statistics counters", "elements taken from the processing queue"])
p("C04", "Product names derive from the WMO header; bad headers are never stored",
  "The name of a product is the lower-cased station_wmoid, followed by -awips when the second header line is a 6-character AWIPS id line, else by +word, the leading (up to 6) alphanumerics of a second line that starts with a letter, or the BBB field when data follow the first line and do not start with a letter, and its base name appends .ddhhmm_seq with the decimal 32-bit sequence number. The header is found in the control header when one is sent, else at the start of the (uncompressed) data, after a communications control block if present. A product whose first line does not have the WMO form (6 alphanumerics, 4 letters, 6 digits, optional alphanumeric BBB) is not stored or forwarded and is counted missed.",
  ["inputs"], "All first blocks: with/without CCB, control header, compression, BBB, second line of any shape or length, any sequence number.",
  NOTEST + "header shapes.",
  ["src/sbn.c", "src/framep.c"], [("fname, fbasename, fpath", "names", "src/pctl.h")],
  [("split_wmo_header, validate_wmo", "src/sbn.c"), ("make_product_fname/fbasename/fpath", "src/framep.c")],
  ["fname/fbasename/fpath of queued products"])
p("C05", "Ingest rejection is decided by name pattern and overload only",
  "A product is rejected at ingest exactly when its name is refused by the configured accept pattern, or when it is a retransmission and the high-load retransmission condition is in force; the overload flags hold exactly when the load average reaches the configured soft/hard limits (and the retransmission index its limit). A rejected product leaves no trace besides being counted rejected, its remaining frames are ignored, and non-retransmitted products are never refused because of load.",
  ["inputs", "configurations", "histories"], "All products, patterns, load averages, retransmission indexes and limits.",
  NOTEST + "patterns, load and retransmission histories.",
  ["src/framep.c", "src/load.c", "src/nbspre.c", "src/stats.c"],
  [("f_loadave_max, f_loadave_max_rtx", "overload flags", "src/load.c"), ("products_rtx_index", "retransmissions per 1000 products", "src/stats.c")],
  [("np_regex_match", "src/nbspre.c"), ("verify_load_ave_condition", "src/load.c"), ("start_activepce", "src/framep.c")],
  ["processing queue", "statistics counters", "overload flags"])
p("C06", "The processing queue is FIFO, exactly-once, each product with its own data",
  "Products come out of the processing queue in the order they were accepted into it, each exactly once, with every attribute and its own content unchanged, whatever the number of concurrently inserting readers and whatever the system clock does (coarse resolution or stepping backwards). Receiving with a timeout from an empty queue reports empty after the timeout and is never an error; a product inserted meanwhile is delivered promptly.",
  ["schedules", "histories", "inputs"], "All interleavings of readers and the processor, all content sizes, all clock behaviours.",
  NOTEST + "schedules and clock histories.",
  ["src/pctldb.c", "src/pctlmfdb.c", "src/pctl.c"],
  [("pctldb.dbp", "queue of product elements", "src/pctldb.c"), ("pctldb.mfdbp", "contents keyed by insertion time", "src/pctlmfdb.c"), ("last_tsqueue", "last key", "src/pctldb.c")],
  [("pctldb_send_pce/pctldb_rcv_pce under mutex", "src/pctldb.c"), ("tsqueue tie-break", "src/pctldb.c")],
  ["epctl_send/epctl_rcv results and elements"])
p("C07", "Processing-queue limits refuse or warn exactly at the configured bounds",
  "When the number of queued products has reached the hard count limit, or the queued bytes would exceed the hard size limit, a new product is refused and the queue is left unchanged; otherwise it is accepted, with a soft-limit warning exactly when a soft limit is reached. A limit of 0 disables it, and the occupancy used for these decisions always equals what is actually queued, including what was reloaded at start.",
  ["histories", "configurations"], "All insertion/removal histories and limit settings, with refused insertions and restarts.",
  NOTEST + "histories near the limits.",
  ["src/pctldb.c", "src/pctlmfdb.c"],
  [("n, mf_total_size", "occupancy", "src/pctldb.c")],
  [("pctldb_hard_limit, pctldb_soft_limit", "src/pctldb.c"), ("pctldb_stat, pctlmfdb_stat", "src/pctldb.c")],
  ["pctldb_send_pce return", "n, mf_total_size"])
p("C08", "Queued products survive a daemon restart",
  "When the daemon stops and starts again with the same database directory, all products queued at the stop are processed after the start, in the same order, with the same attributes and content, before any product accepted later, and products accepted later never overwrite them.",
  ["crash_points", "histories"], "All queue states at the stop and all clock offsets across the restart.",
  NOTEST + "stop points.",
  ["src/pctldb.c", "src/pctlmfdb.c", "src/dbenv.c", "src/nbsp.c"],
  [("pctl db files", "persisted queue", "src/pctldb.c")],
  [("pctldb_open/pctldb_stat, pctlmfdb_stat", "src/pctldb.c")],
  ["epctl_rcv after reopening"])
p("C09", "The stored file is the product's data, CCB-stripped and uncompressed as set",
  "A complete product is stored under its station directory and base name with content exactly equal to its received data: the communications control block (if any) is kept or removed according to the save format, a product transmitted compressed is stored decompressed exactly when its name is refused by the save-compressed pattern and it came with a control header (which is then replaced by the decompressed blocks), and otherwise as received. The same bytes result for the file-system spool and the memory spool.",
  ["inputs", "configurations"], "All block sizes, block counts, compression flags, control headers, save formats, spool types.",
  NOTEST + "combinations of options and products.",
  ["src/nbsp.c", "src/framep.c", "src/mfile.c", "src/unz.c", "src/nbspmspoolbdb.c"],
  [("mf", "frames as saved", "src/mfile.c")],
  [("pce_spool_product, pce_savefs*, pce_save*mbdb", "src/nbsp.c"), ("msave_frame", "src/framep.c")],
  ["files under the spool directory", "memory spool records"])
p("C10", "Retransmissions are processed once: recover what was lost, ignore duplicates",
  "A complete retransmission is processed unless the original is remembered as received, in which case it is ignored (not stored nor exported again); if the original is remembered as incomplete it is processed and logged as a recovery; if it is unknown it is processed, and if there is no memory of products the configured default decides. A product that is not a retransmission is always processed; every incomplete product is logged as missing and none is stored.",
  ["histories", "configurations"], "All histories of original, incomplete and retransmitted products, chains of retransmissions, with the memory disabled or restricted by pattern.",
  NOTEST + "retransmission histories.",
  ["src/nbsp.c", "src/rtxdb.c", "src/ertxdb.c"],
  [("rtxdb", "seq number -> received ok / incomplete", "src/rtxdb.c")],
  [("process_pctl_element", "src/nbsp.c"), ("nbsp_rtxdb_get/put", "src/rtxdb.c")],
  ["spool directory", "missing log", "retransmission log", "statistics", "exported packets"])
p("C11", "Product memory: latest outcome wins, bounded window, old entries expire",
  "Looking a product up in the retransmission memory gives the latest outcome recorded for it for at least one truncation period after recording, and nothing once two truncations have passed since. A truncation forgets exactly the older of the two generations, the memory survives a restart, and when it has no capacity configured nothing is remembered and lookups say so.",
  ["histories", "configurations", "crash_points"], "All histories of recordings, lookups, truncations and restarts; all sizes.",
  NOTEST + "histories.",
  ["src/rtxdb.c", "src/ertxdb.c"], [("dbp_c, dbp_o", "current and old generation", "src/rtxdb.c")],
  [("rtxdb_put/get/truncate", "src/rtxdb.c")], ["rtxdb lookups"])
p("C12", "Each stored product is announced once, in order, to exactly the chosen sinks",
  "Every product that is stored is announced to the filters exactly when its name is accepted by the filter pattern and to the network server exactly when accepted by the server pattern, exactly once, in storage order, only after its data can be read, with its sequence number, type, category, code, channel, base name and path; products not stored are never announced.",
  ["histories", "configurations", "inputs"], "All product histories, patterns and spool types.",
  NOTEST + "product histories.",
  ["src/nbsp.c", "src/packfp.c", "src/nbspq.c"],
  [("filter and server queues", "announcements", "src/nbspq.c")],
  [("export_product", "src/nbsp.c"), ("packet_create/pack", "src/packfp.c")],
  ["packets in the filter and server queues"])
p("C13", "The file spool keeps exactly the newest N products",
  "The file-system spool retains exactly the last N products stored (N the configured number of slots), deleting a product's file exactly when the N-th product after it is stored, never deleting any other file; the bookkeeping survives a normal restart so that no file is leaked or deleted early, and N may be increased (the added slots are used once those in use have been gone through) but not decreased across restarts. This is for products stored under distinct names.",
  ["histories", "crash_points", "configurations"], "All storage histories, ring sizes and restarts.",
  NOTEST + "wrap-around and restart histories.",
  ["src/spooldb.c", "src/espooldb.c", "src/nbsp.c"], [("spooldb ring", "names and next index", "src/spooldb.c")],
  [("spooldb_put/open/close/save/load", "src/spooldb.c")], ["files under the spool directory", "spooldb file"])
p("C14", "The memory spool returns the newest copy of every retained product",
  "A product put in the memory (database) spool is readable, byte for byte, until the partition that holds it is recycled; partitions are recycled strictly oldest first, only when the newest is full, so the most recent products are always retained, and storing a name again makes reads return the new content. Reading a name that was never stored or has been recycled reports not-found.",
  ["histories", "configurations"], "All put/read/recycle histories, database counts and sizes.",
  "The libspoolbdb baseline tests write and read a fixed number of distinct files; they do not range over overwrites, recycling points or sizes.",
  ["src/libspoolbdb/spoolbdb.c", "src/libspoolbdb/spoolbdbv.c", "src/libspoolbdb/mspoolbdb.c"],
  [("dbp[], wdb index", "ring of databases", "src/libspoolbdb/spoolbdbv.c")],
  [("spoolbdbv write/read/truncate", "src/libspoolbdb/spoolbdbv.c")], ["mspoolbdb read/write results"])
p("C15", "Memory-spool exhaustion never loses the incoming product if space can be made",
  "When the memory spool reports that it is out of space, the daemon frees the oldest partition and retries, then if needed all partitions and retries, and only then drops the product; the other products survive whenever freeing the oldest partition sufficed, and processing continues.",
  ["fault_sequences", "histories"], "All sequences of storage failures at any write.",
  NOTEST + "allocation failures.",
  ["src/nbspmspoolbdb.c", "src/libspoolbdb/spoolbdbv.c"], [("mspoolbdb", "memory spool", "src/nbspmspoolbdb.c")],
  [("e_nbsp_mspoolbdb_* retry", "src/nbspmspoolbdb.c")], ["results of storing and reading"])
p("C16", "Concurrent spool readers share read buffers safely and without deadlock",
  "At most the configured number of memory-spool reads are outstanding at once; each gets its own buffer holding the product it asked for, unchanged until it is released; a further reader waits until one is released and is then served, so no reader waits forever while buffers are released and no buffer is leaked, including when a read fails.",
  ["schedules", "fault_sequences"], "All interleavings of concurrent readers, releases and failing reads, for every slot count.",
  "The baseline runs one writer and one reader at a time, never contention for the last buffer.",
  ["src/libspoolbdb/spoolslots.c", "src/libspoolbdb/mspoolbdb.c"], [("slots", "free/used buffers", "src/libspoolbdb/spoolslots.c")],
  [("spoolslots get/release with condition variable", "src/libspoolbdb/spoolslots.c")], ["mspoolbdb_mp_get/release order and contents"])
p("C17", "Internal packet queues are FIFO, lossless below the hard limit, and separate",
  "Packets come out of each internal queue (filter, server, per client) in insertion order, exactly once, unchanged and never in another queue; an insertion is refused, leaving the queue unchanged, exactly when the hard limit is reached, and reported as over the soft limit exactly when that is reached. A timed receive from an empty queue reports empty, never an error, and a waiting receiver gets a packet inserted meanwhile.",
  ["histories", "schedules", "configurations"], "All histories of insertions and removals from concurrent threads, packet sizes, limits (0 = none).",
  NOTEST + "interleavings and limits.",
  ["src/libqdb/qdb.c", "src/nbspq.c", "src/libconnth/cq.c"], [("nbspqtable", "queues", "src/libqdb/qdb.c")],
  [("nbspqt_snd/nbspqt_rcv", "src/libqdb/qdb.c")], ["e_nbspq_snd_*/rcv_* and cq_* results"])
p("C18", "Filters get every announcement whole and in order; a bad filter hurts no other",
  "Every filter that is loaded (the configured list, and the fifos and programs of the filters directory, as found at the start and at each reload, whatever else is there) receives each announcement exactly once, in order, as one whole record with the product's numbers, name and path as announced; a fifo that has no reader, is full for longer than the write timeout or fails, or a program that cannot be started or dies, loses only its own announcements, never part of a record, is tried again with the next one, and neither delays the others by more than the write timeout nor changes what they receive; the report counts what was sent and lost.",
  ["fault_sequences", "histories", "configurations"], "All sets of filters (fifos, programs, other files), failing, slow, removed or replaced at any record.",
  NOTEST + "filter failures.",
  ["src/filters.c", "src/sfilter.c", "src/pfilter.c"], [("filter table", "enabled filters", "src/filters.c")],
  [("filter_server_loop, send_filter", "src/filters.c")], ["bytes read from filter fifos and pipes"])
p("C20", "A client gets the protocol it asks for, and only a protocol being served",
  "A client that sends one of the exact identification strings of an enabled protocol is served that protocol and no other; a client identifying with a protocol that is not enabled is disconnected; a client that sends an unrecognised identification, or none within the identification timeout, is treated as the default protocol if that is enabled and is otherwise disconnected. The protocol of an identified client never changes.",
  ["inputs", "configurations", "histories"], "All identification byte strings and timings, all sets of enabled protocols.",
  NOTEST + "client behaviours.",
  ["src/serverm.c", "src/libconnth/conn.c"], [("client protocol, f_identified", "client state", "src/server_priv.h")],
  [("ident_client_protocol, match_client_protocol, process_unidentified_connections", "src/serverm.c")], ["bytes received by the client", "connection closed"])
p("C21", "Client table: bounded, one connection per host, hangups are removed",
  "The number of connected clients never exceeds the configured maximum and equals the number of connections in the table; a client that hangs up is removed without affecting any other; a second connection from a host replaces the first (resuming it if the first is broken); hosts not allowed are never served; every descriptor of a removed connection is closed.",
  ["histories", "schedules", "configurations"], "All sequences of connects, hangups, reconnections and removals, for any table size.",
  NOTEST + "connection histories.",
  ["src/libconnth/conn.c", "src/libconnth/poll.c", "src/libconnth/ce.c", "src/serverm.c"], [("conn_table", "connections", "src/libconnth/conn.h")],
  [("conn_table_add/del", "src/libconnth/conn.c"), ("poll_restore_connection", "src/libconnth/poll.c")], ["connection table", "sockets"])
p("C22", "Each client receives its products in order, whole, without duplicates or gaps",
  "Every connected client of a protocol receives, for each announced product it is entitled to, exactly one whole transmission, in announcement order; the only products skipped are those refused because that client's own queue is at its hard limit. When the connection breaks in mid-product and the client reconnects in time, delivery resumes with that same product from its beginning; a slow, full, or broken client never delays or alters delivery to another.",
  ["schedules", "fault_sequences", "histories"], "All interleavings of client threads, disconnects and reconnects at any byte, queue sizes.",
  NOTEST + "disconnect points.",
  ["src/serverm.c", "src/serverc.c", "src/libconnth/cq.c"], [("client queue", "pending products", "src/libconnth/cq.c")],
  [("client_thread_loop, send_client", "src/serverc.c"), ("server_send_client_queues", "src/serverm.c")], ["bytes received by each client"])
p("C24", "NBS1: a slave reconstructs exactly the master's product, or reports it missed",
  "Splitting a product into NBS1 packets and reassembling them gives back exactly the product and its attributes, for every size; when packets are lost, repeated, truncated, out of order or carry wrong identifiers, sizes or numbers (the block data themselves are protected by TCP; products have distinct sequence numbers), the slave never hands over as complete a product that differs from the master's: it delivers it complete and intact, or not (a product whose beginning was received is then counted as missed, and one sent again from its beginning is delivered). A connection whose framing is wrong is closed and starts anew. No packet, whatever its declared lengths, makes the slave write outside its buffers.",
  ["inputs", "fault_sequences", "histories"], "All product sizes and names, all packet streams with loss, duplication, truncation, reconnection and arbitrary header values.",
  NOTEST + "packet streams.",
  ["src/nbs1s.c", "src/nbs1r.c", "src/slavenbs/framep.c", "src/slavenbs/reader.c"], [("activepce[slave]", "product being reassembled", "src/slavenbs/framep.c")],
  [("init_nbs1_packet_info/send_nbs1", "src/nbs1s.c"), ("recv_nbs_packet/unpack", "src/nbs1r.c"), ("slavenbs frame processing", "src/slavenbs/framep.c")],
  ["products queued by the slave", "packet bytes"])
p("C25", "EMWIN packets decode to the file that was sent",
  "The EMWIN client stream is a sequence of 1116-byte packets, each byte XORed with 0xFF, with a valid /PF.. /PN n /PT total /CS sum header, 1024 data bytes whose sum matches CS, and numbering 1..total; concatenating the data of a product's packets gives the file content, zero-padded to a multiple of 1024, and the name is the product's EMWIN name.",
  ["inputs"], "All file sizes and names.",
  NOTEST + "sizes.",
  ["src/emwin.c", "src/serverc.c", "src/serverf.c"], [], [("emwin packet builder", "src/emwin.c")], ["bytes received by an EMWIN client"])
p("C26", "Announcement packets carry every field intact or are rejected",
  "An announcement packet (used internally, by NBS2 servers and slaves) unpacked by its receiver gives exactly the sequence number, type, category, code, channel, name and path that were packed, for every legal value; a packet with a wrong identifier or checksum, truncated, with a size that cannot hold all the fields or is larger than the receiver's buffer, or with a name or path not terminated inside its field, is rejected and never makes the receiver read or write outside its buffers.",
  ["inputs", "fault_sequences"], "All field values, single and multiple byte corruptions, truncations at every byte.",
  NOTEST + "field values and corruptions.",
  ["src/packfp.c", "src/packfpu.c", "src/pack.c", "src/slavefp/reader.c"], [], [("packet_create / recv_fp_packet / unpack", "src/packfp.c")], ["unpacked values and error codes"])
p("C27", "Input-fifo records are accepted whole or not at all, in order",
  "Each record written by an inserter into the input fifo is taken by the daemon exactly once, in write order, with exactly the fields given (sequence number, type, category, code, channel, name, path) and announced to the filters and the server according to their patterns; records of several concurrent inserters never mix. A record whose contents are malformed is skipped without being announced and without affecting the ones after it; one whose size or end is wrong closes the fifo, which is opened again; nothing is written outside the daemon's buffers. The inserter refuses out-of-range values, writes exactly one record, and with -i the file then holds exactly the given data. An NBS2 slave announces each packet of its master likewise, with exactly its fields, and closes the connection on a malformed one.",
  ["inputs", "schedules", "fault_sequences"], "All record contents and sizes, concurrent inserters, malformed or truncated records.",
  "The baseline nbspinsert tests check two messages and the lock order of the inserter; the daemon side and malformed records are never exercised.",
  ["tools/nbspinsert/nbspinsert.c", "src/slavein/reader.c", "src/slavein/framep.c", "src/slave_in.c"], [], [("recv_in_packet", "src/slavein/reader.c"), ("write under flock", "tools/nbspinsert/nbspinsert.c")], ["packets announced by the daemon", "bytes in the fifo"])
p("C28", "Slave configuration is parsed exactly; a slave always reconnects and resumes",
  "The list of master servers yields exactly one reader per valid entry with its type, host, port (or the default) and its options overriding the defaults, and an invalid entry is refused; a slave whose master closes, errs or goes silent past its timeouts closes that connection, waits, reconnects, identifies itself with the protocol of its type again, and continues to receive whole products from the new connection.",
  ["inputs", "configurations", "fault_sequences"], "All list texts; all points at which the master fails.",
  NOTEST + "list texts and failures.",
  ["src/slavet.c", "src/slave.c", "src/slave_net.c"], [("slave table", "slave elements", "src/slavet.h")], [("init_slave_table", "src/slavet.c"), ("slave_thread loop", "src/slave_net.c")], ["slave table", "bytes seen by a master"])
p("C29", "Files packed into SBN frames are received back byte for byte",
  "Packing any file for transmission over SBN yields frames which the daemon accepts without error and reassembles to exactly that file under the name of its header, with consistent numbering, flags, sizes and checksums in every frame, for every file size and block size boundary.",
  ["inputs"], "All file sizes around block boundaries, headers, sequence numbers.",
  NOTEST + "file sizes.",
  ["tools/nbspmcast/sbnpack/sbnpack.c", "tools/nbspmcast/nbspmcast.c", "src/sbn.c", "src/framep.c"], [], [("sbnpack", "tools/nbspmcast/sbnpack/sbnpack.c")], ["frames", "products queued by the daemon"])
p("C30", "Inventory removal deletes exactly the listed files of its own directory",
  "Removing by inventory deletes the files listed in the inventory that live in the inventory's data directory, and then the inventory itself; it never deletes, truncates or changes any other file, in particular none outside that directory whatever path components an entry contains, and it reports failures.",
  ["inputs", "fault_sequences"], "All inventory contents (missing files, path components, blank or long lines).",
  NOTEST + "inventory contents.",
  ["utils/nbspinvrm/nbspinvrm.c"], [], [("nbspinvrm main loop", "utils/nbspinvrm/nbspinvrm.c")], ["files before and after"])
p("C31", "Pattern lists accept or reject by their last matching pattern",
  "A list of patterns accepts a name exactly when the last pattern of the list that matches it is not negated; an unset (null) list accepts everything and an empty one nothing; an unmatched name is rejected; and each of the daemon's pattern options (ingest, filters, server, each protocol, save-compressed, product memory) uses its own list.",
  ["inputs", "configurations"], "All lists of positive and negated patterns and names.",
  NOTEST + "pattern lists.",
  ["src/ure.c", "src/nbspre.c", "src/strsplit.c"], [], [("uwildregex_match", "src/ure.c")], ["match results"])
p("C32", "Statistics reports partition the counted events",
  "Every event counted is reported in exactly one periodic statistics report: each report line gives, in the documented column order, exactly the events since the previous report, the counters restart at zero, and the retransmission index is the number of retransmissions per thousand products of the last reporting period that had any product.",
  ["histories"], "All event histories and report times.",
  NOTEST + "histories.",
  ["src/stats.c", "src/per.c"], [("nbspstats", "counters", "src/stats.c")], [("nbspstats_update", "src/stats.c")], ["status file lines"])
p("C33", "One daemon at a time: it starts wholly or not at all, and stops without trace",
  "On one configuration at most one daemon runs: an instance started while another runs, as well as one which only prints the configuration or has wrong options, ends (with failure, except for the print) and disturbs nothing of the running one - its lock file, its fifos, its start and stop scripts. A start that fails at whatever step ends the process with everything undone: no lock file, state fifo, input fifo or child left, and the stop script executed if the start script was. A running daemon starts its filters and gives each record fed to it to every filter and identified client once, whole and in order; pipe and alarm signals do nothing, hangup makes it close and start its filters again; an interrupt, quit, terminate or abort signal, at any moment of its life including its start, ends it with success after it closed its filters' streams, removed its files and executed its stop script once.",
  ["schedules", "fault_sequences", "crash_points", "histories"], "All orders of starts, failing steps, signals and records.",
  NOTEST + "histories of the daemon.",
  ["src/main.c", "src/init.c", "src/signal.c", "src/pid.c", "src/qstate.c", "src/exec.c", "src/per.c"], [("lock and fifo files", "pidfile, qstatefifo, infeedfifo", "src/init.c")], [("main", "src/main.c"), ("cleanup", "src/init.c"), ("init_lock", "src/init.c"), ("signal_thread", "src/signal.c")], ["exit status", "pid file", "fifos", "scripts executed", "records received by filters and clients"])
p("C35", "Periodic work is done once per period, the scheduler once per minute",
  "While the daemon runs, each periodic work - reporting quotas, logging the state of the queues, writing statistics, asking for the state of the server and of the filters, checking the load, truncating the retransmissions database, logging database statistics - is done once for each of its configured periods that has passed since the start, never before, and at most once in each turn of the main loop (what a late turn missed is made up for in the following ones). The scheduler is executed once for each minute of the clock in which the loop turns. Hangup signals received between two turns make filters and server reload their filters exactly once, at the next turn. When the load average reaches the hard limit the readers are throttled, until it is below the soft limit; retransmissions are refused exactly while a limit is reached and the retransmission index is at its limit; limits that are zero are disabled.",
  ["histories", "inputs"], "All sequences of times, loads, limits and signals.",
  NOTEST + "the passing of time.",
  ["src/per.c", "src/load.c", "src/signal.c"], [("next times, last minute", "gevents, gmevents", "src/per.c"), ("overload", "g.f_loadave_max, g.f_loadave_max_rtx", "src/load.c")], [("periodic", "src/per.c"), ("verify_load_ave_condition", "src/load.c"), ("get_hup_flag", "src/signal.c")], ["calls of the periodic procedures", "overload flags"])

p("C34", "The configuration in effect is what the files say, or nothing is started",
  "The value of each option is the default one unless the configuration files set it: the default file (if it exists) is evaluated first and then the one given in the command line, in order, and the last value set is in effect; an option that is not set keeps its default, whatever is done to the others, and errors that the file itself catches change nothing. With -C exactly these values are printed and nothing else is done. If a file given does not exist or has an error, a value is not of the type of its option, the command line is wrong, or a value in effect is outside the valid range of its option (negative where it must not be, empty where a name is needed), the program ends with a failure before it has started anything, created any file, or executed any script.",
  ["inputs"], "All configuration files and command lines.",
  NOTEST + "the configuration.",
  ["src/conf.c.in", "src/main.c", "src/init.c", "src/defaults.h.in"], [("options", "confoptions; g", "src/conf.c.in")], [("configure", "src/conf.c.in"), ("validate_configuration", "src/conf.c.in"), ("print_confoptions", "src/conf.c.in"), ("parse_configfile", "src/libtclconf/tclconf.c"), ("parse_args", "src/main.c")], ["output of nbspd -C", "exit status", "values in effect at the start"])

p("C36", "The programs for product files lose, change and invent no byte",
  "nbsppipe and each command given to nbspcat write the contents of the file from the cut on (24 bytes, another number, or none), between the gempak header with the sequence number modulo 1000 and its trailer if these are requested. nbspfile writes the header of the product (the first line after the cut, the first two if the name says that there is an awips line) and what follows it, or only what follows; or, with compression, the header and then the whole file as zlib frames of 4000 bytes, in order. nbspz writes the file as one zlib stream. nbspunz writes what the frames contain from the first one found on, in order, less the bytes to skip at the beginning, no more than the frames requested, followed by what comes uncompressed after them. So what was compressed comes back unchanged. In append mode what was in the output stays before. A file that cannot be read, is too short or has corrupt frames, or wrong arguments, make the program fail without writing any data; in nbspcat they, and empty lines, have no effect on the other commands. No other file is touched.",
  ["inputs", "histories"], "All file contents, options and sequences of programs.",
  NOTEST + "these programs.",
  ["filters/filterlib/c/nbspfile.c", "filters/filterlib/c/nbsppipe.c", "filters/filterlib/c/nbspcat.c", "filters/filterlib/c/nbspz.c", "filters/filterlib/c/nbspunz.c", "filters/filterlib/c/io.c", "filters/filterlib/c/unz.c", "filters/filterlib/c/mfile.c", "src/strsplit.c"], [("pages, frames, memory file", "g; memfile_st", "filters/filterlib/c")], [("write_header, process_file", "filters/filterlib/c/nbspfile.c"), ("process_input, process_cmd", "filters/filterlib/c/nbspcat.c"), ("process_frames", "filters/filterlib/c/nbspunz.c")], ["output files", "standard output", "exit status"])

p("C37", "Radar products become exactly the polygons that their radials describe",
  "From a radar product (with a gempak header or not, with bytes to skip before it, from a file or, in any pieces, from a pipe) nbspradinfo prints the position, height, time, mode, code and message length that are in the header. nbspradgis draws, radial by radial and outwards, each run (or bin, in digital products) whose level is within the limits (those of -M and -N or those for the kind of product) and nothing else: each cell at the distances and azimuths which the bins before it, the scale and the angles of the radial say, in pieces of not more than one km of arc, with the code of the data and the level that the code means for the product and the mode. The shp, shx, dbf and csv files contain these polygons in the same order, well formed and consistent with one another, with the box that surrounds them all; the info file describes the product. The files, those requested and no others, have the names given or are named after the product and its time. A file that is too short, has no valid headers, is truncated or whose radials do not fit in it, or of an unknown kind, makes the programs fail without writing anything.",
  ["inputs"], "All products (run-length encoded and digital radials, compressed or not, damaged or not) and all options.",
  NOTEST + "these programs.",
  ["filters/filterlib/c/dcnids", "filters/filterlib/c/misc.c", "filters/filterlib/c/io.c"], [("header, symbology block, polygon map", "nids_header_st; nids_data_st; dcnids_polygon_map_st", "filters/filterlib/c/dcnids")], [("dcnids_read_header, dcnids_decode_header", "filters/filterlib/c/dcnids/dcnids_header.c"), ("nids_decode_data", "filters/filterlib/c/dcnids/nbspradgis.c"), ("nids_decode_radials_af1f", "filters/filterlib/c/dcnids/dcnids_decode_radials_af1f.c"), ("nids_decode_digital_radials_16", "filters/filterlib/c/dcnids/dcnids_decode_digital_radials_16.c")], ["standard output", "shp, shx, dbf, csv and info files", "exit status"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for r in P: f.write(json.dumps(r) + "\n")
print(len(P))
