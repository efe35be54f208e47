"""Which module checks each property, and what MANIFEST.json says about it."""
TV = "TLA+ specification model checked with TLC; traces recorded from the real code (driven by TLC-generated and random inputs) validated against the specification by TLC"
CHECKS = {}
INFO = {}
def reg(ids, mod, level, note, technique=TV):
    for i in ids.split():
        CHECKS[i] = mod
        INFO[i] = dict(level=level, level_note=note, technique=technique)

reg("C01 C02 C03 C04 C05", "ingest", "model_checking",
    "SbnWire.tla/Ingest.tla model checked exhaustively on bounded frame alphabets (MCIngest); conformance of the real sbnframeproc() by TLC trace validation of every frame's effect (counters, products handed over with content); input space sampled, not exhausted")

reg("C06 C07 C08", "queue", "model_checking",
    "LimQueue.tla (abstract queue) and PctlDb.tla (its two-file representation, shown by TLC to refine LimQueue and to be live) model checked on bounded instances; real pctl code (readers' and processor's entry points, real Berkeley DB, several threads, restarts, shifted and frozen clocks) conforms by TLC trace validation, concurrent runs by linearizability; schedules sampled")
reg("C17", "queue", "model_checking",
    "LimQueue.tla model checked; real filter/server/client queues (nbspq.c, libqdb, libconnth/cq.c) conform by TLC trace validation incl. concurrent runs (linearizability) and timed receives; schedules sampled")

reg("C31", "patt", "model_checking",
    "Patterns.tla (regular expressions and pattern lists as sets of match ends) model checked over all small lists; the real options (configuration file -> compiled lists -> decisions) conform by TLC validation of generated lists and names; inputs sampled")

reg("C32", "stats", "model_checking",
    "Stats.tla model checked; real counting functions and report lines conform by TLC trace validation, including threads counting while reports are written and reports that cannot be written; schedules sampled")

reg("C09 C10 C12 C13", "proc", "model_checking",
    "Processor.tla (with RtxDb.tla, Spool.tla) model checked over all short histories; the real pipeline (frames -> frame processor -> queue -> processor thread -> spool, logs, statistics, announcement queues, restarts) conforms by TLC validation of every product's effect against Ingest composed with Processor; histories sampled")

reg("C11 C14 C15 C16", "store", "model_checking",
    "RtxDb.tla, Spool.tla, SpoolSlots.tla model checked; the real spool and retransmission database code (stores, reads, truncations, restarts, injected space failures, concurrent readers) conforms by TLC trace validation, C14/C15 also through the whole pipeline; histories and schedules sampled")

reg("C25 C26", "wire", "model_checking",
    "Packet.tla and Emwin.tla (encoder, decoder and stream receiver as operators) model checked over small alphabets with every byte damaged and every truncation; the real packing, unpacking, sending and receiving code, and nbspqdc, conform by TLC validation of every packet and stream; inputs sampled")

reg("C24 C27 C28", "slave", "model_checking",
    "SlaveNbs.tla, Infifo.tla, SlaveTable.tla model checked over all short streams, records and tables; the real slave readers (nbs1, nbs2, input fifo, nbspinsert, the reader threads with failing masters) conform by TLC trace validation; streams and schedules sampled")

reg("C20 C21 C22", "server", "model_checking",
    "Server.tla model checked over all short histories and ConnTable.tla over all interleavings of the server's cycle with the client threads (safety and, for C22, that everything is delivered); the real server and client threads, with real connections from several addresses, filters and write failures at chosen bytes, conform by TLC trace validation of the table, the open sockets and files, and every byte received; histories sampled")

reg("C18", "filters", "model_checking",
    "Filters.tla model checked over all interleavings of the server's writes with readers, dying programs, replaced fifos and reloads; the real filter server thread with real fifos and recorded programs conforms by TLC trace validation of every byte received, the report file and the time waited; histories sampled")

reg("C29", "sender", "model_checking",
    "Sender.tla composed with Ingest.tla model checked over all short lists of small files with lost frames; the real nbspmcast (its frames intercepted at sendto) and the real frame processor fed with them conform by TLC trace validation, frame by frame and product by product; files sampled")

reg("C30", "inv", "model_checking",
    "Inventory.tla model checked over all short inventories on two directories, a link, a missing and a forbidden one; the real nbspinvrm, run as an unprivileged user in a scratch tree with stand-ins that refuse any deletion outside it, conforms by TLC validation of the files left and of what it reports; inventories sampled")

reg("C33", "daemon", "model_checking",
    "Daemon.tla model checked over all interleavings of instances started on one configuration, with failures at every step, signals at every moment, and crashes; the real daemon, run as an unprivileged user with its scripts, filters, clients and feeds in a scratch tree, conforms by TLC trace validation: some behaviour of the specification must explain everything seen; histories sampled")

reg("C35", "periodic", "model_checking",
    "Periodic.tla model checked over turns at bounded distances: each work once per period, the scheduler once per minute, one reload for the hangups before a turn, throttling with hysteresis; the real main loop's turn, overload check and signal thread, with the time, the load average and the procedures replaced, conform by TLC trace validation of every turn; histories sampled")

reg("C34", "config", "model_checking",
    "Config.tla model checked over all pairs of short files on a small table; the real program, up to where it would start, run on generated default and user files and command lines, conforms by TLC trace validation of the outcome and of every option's value; files sampled")

reg("C36", "filetools", "model_checking",
    "FileTools.tla model checked over all short files and options: what is compressed comes back whole, what is cut is a suffix, what fails writes no data; the real programs, run one after the other on generated files, conform by TLC trace validation of every byte they wrote; files and command lines sampled")

reg("C37", "radgis", "model_checking",
    "RadGis.tla model checked over all short radials of every product and over the calendar: each run with data is covered by its cells, the filter only takes cells away, pieces are no wider than a km; the real nbspradinfo and nbspradgis, run on generated products, conform by TLC trace validation of the numbers printed and of every polygon, index entry and table row written; products and command lines sampled")

PENDING = "no check built yet"
NOT_APPLICABLE = {}
