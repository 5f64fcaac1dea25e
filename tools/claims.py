CRASH = "exhaustive crash-point, torn-write and failure-point enumeration on the real code"
C["C06"] = (CRASH, "Every effect of every enumerated indexing run is in turn the crash point, a torn write or a failing step; the published files, the leftovers and the next indexing are judged. Crash of the process only; small universes.")
C["C28"] = (CRASH, "Every effect of every enumerated operation is in turn the crash point (writes also torn); the restarted system, the re-run of the operation and follow-up operations are judged against the reference model. Crash of the process only; small universes.")
C["C29"] = ("bounded-exhaustive differential exploration of restart placements on the real code", "Every operation sequence up to the stated depth is run with every subset of restarts; all must agree in results, listings, index and files. Small universes.")
SCHED = "exhaustive deviation-bounded schedule enumeration of the real code under a controlled scheduler"
C["C15"] = (SCHED + ", plus bounded-exhaustive operation sequences", "All schedules with up to 2 (thorough 3) departures of concurrent producers and consumers on the job store, with a linearizability check against a FIFO queue; real workers and producers; all single-threaded operation sequences with reopening up to the stated depth. Plain memory accesses between instrumented operations are not interleaved.")
C["C16"] = (CRASH, "Every effect of the daemon's processor while it runs given job lists is in turn the crash point (writes also torn), with a second crash during the recovery; thorough combines this with all schedules of one departure. Crash of the process only.")
C["C17"] = ("bounded-exhaustive operation sequences and " + SCHED, "All sequences of queueing, executing, failing, resetting and reopening up to the stated depth, started at every boundary of the 100-entry ring and with crash points; real workers under all schedules of one departure with concurrent resets.")
C["C18"] = (SCHED, "Shutdown is requested after every number of effects and under all schedules of one (thorough two) departures, while real workers run given job lists; a following start must run the rest in order.")
C["C32"] = (SCHED, "All schedules of one or two departures of pairs and triples of operations on one repository; the outcome must be one of the sequential ones and every index published meanwhile must describe present files.")
C["C33"] = ("exhaustive enumeration of configurations, lists, answers and failure points through the real code and the real client library", "All combinations of the stated operations, lists, settings and answers, and every failing effect of each operation, run on the real code; requests are taken below the real client library and judged against the list and the index files present at that moment. Two (thorough four) start states.")
C["C19"] = ("bounded-exhaustive operation sequences on the real code against a reference model", "All sequences up to the stated depth of puts, deletes, updates, numbering and reopening over buckets whose names are prefixes, suffixes and parts of each other, nested ones and the root; every bucket is compared in every way of reading after each. Small alphabets.")
C["C20"] = (CRASH + ", plus operation sequences and schedules", "All sequences of succeeding, failing and panicking updates up to the stated depth; the recorded storage operations of every history are cut at every operation and byte, also during recovery, and the database is reopened; all schedules of readers and writers up to 3 departures. Crash of the process only; the storage stand-in is compared with real files.")
ENUM = "bounded-exhaustive enumeration of inputs run through the real code in a fault-observing harness"
C["C13"] = ("bounded-exhaustive enumeration of upload manifests against a reference verdict, plus exhaustive crash and failure points of valid uploads", "All manifests of 183 headers with short lists of 40 kinds of payload entries are processed by the real job handler: outcome, repository contents and the upload directory are compared with the reference. Valid uploads are cut and failed at every effect. One populated start state.")
C["C21"] = ("exhaustive enumeration of texts and write boundaries", "All texts up to the stated length over an alphabet of every rune width and class, plus each of the 1.1 million runes, are split at every set of write boundaries and compared with one single write and with the reference escape; invalid sequences must not corrupt what surrounds them.")
C["C22"] = (ENUM, "Every single change from the stated classes (cuts, byte changes, deleted, repeated, moved, renamed or hostile elements and attributes, pairs of hostile metadata values, job types with every parameter count) of a package, manifest and asset document is fed to the real code; panics, hangs, leftovers, inconsistent or unusable repositories are violations. Records of the databases that do not decode are out of scope.")
C["C23"] = ("bounded-exhaustive enumeration of package pairs on the real delta producer against a reference, with failure injection", "All pairs of packages whose files are drawn from a small alphabet of paths, kinds and contents, and all pairs of mismatching metadata, go through the delta producer; archive members, the tarball and refusals are compared with the reference; every effect fails in turn; the real xz is used on a part.")
C["C27"] = (ENUM + " that records every mutating call", "Job types x hostile ids and parameters, sequences and pairs of them, hostile package metadata and members, and hostile manifests; every mutating call is recorded before it acts and must stay within the directories of the repositories named, the pool, the databases and the consumed upload. Symbolic links inside the base directory are out of scope.")
C["C24"] = (SCHED, "Whole daemon processes (the real main function, real lock files, virtual sockets, signals and clock) start, stop, crash and fail on one base directory under all schedules of one or two departures and every kill point; ownership intervals are taken from the recorded effects. Up to three daemons at once; crashes of the process only.")
C["C25"] = ("bounded-exhaustive enumeration of client requests and request histories against direct execution on the real code, with failure injection", "Every request of the client library and of ferryctl with identifiers and arguments from a hostile alphabet, all histories of three (thorough four) requests, every truncated or foreign request, and every failing step while a job is stored, go through the real daemon (virtual transport); the final database and files must equal those of the operations run directly.")
C["C26"] = (SCHED + ", plus bounded-exhaustive enumeration of queued jobs", "Status requests run against the real daemon concurrently with requests, workers, resets and full histories, started at every database write under all schedules of one (thorough two) departures; every listing is judged against the order of acceptances, resets and other listings. Every job type with every parameter shape is listed before, during and after its execution.")
C["C34"] = ("bounded-exhaustive enumeration of request histories, kill points and job lists on the real daemon and client under a controlled scheduler", "All histories of two (thorough three) requests out of 31 run by the real daemon in a virtual clock, their reports read at every stage and after restarts and kills at each of the first effects, judged against the directly run operations and the recorded times of effects; all stated job lists rendered by the real ferryctl against a stub daemon. Reports are read at chosen moments, not under all schedules (C26).")
C["C30"] = ("bounded-exhaustive enumeration of upload event histories with a kernel-validated event model, and " + SCHED, "All histories of three (thorough four) uploader actions out of 29 with every choice of when events are handled, watcher errors, and all schedules of one (thorough two) departures against shutdown and processing, on the real monitor with real files. The event model is compared with the real inotify library on all histories of two (thorough three) actions. Lost events (queue overflow) are out of scope.")
NOT_YET = {}
