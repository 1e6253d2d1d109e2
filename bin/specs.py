"""What each check is made of.  Read by check.py and gen_manifest.py."""

BOOST = ["-lboost_filesystem", "-lboost_system", "-lboost_thread", "-lboost_chrono",
         "-lboost_date_time", "-lboost_regex", "-lboost_program_options", "-lboost_locale"]
ALL_LIBS = BOOST + ["-lcryptopp", "-lsqlite3", "-ldl", "-lrt"]

ERR = ["error.cc", "error_categories.cc"]
IDENTITY = ["identity.cc", "utils.cc", "encode.cc", "data_types/data.cc"] + ERR
LOG = ["log.cc", "config.cc", "active.cc"] + ERR
SPECS = {}


NOT_CLAIMED = {}


def spec(name, rule, parts=None, assumptions=(), technique=None, **main):
    parts = parts or {"main": main}
    if technique is None:
        technique = "property-based testing against a reference model"
        if any(p.get("sanitizer") == "thread" for p in parts.values()):
            technique = "property-based testing of random schedules (TSan, delay injection)"
    SPECS[name] = {"rule": rule, "parts": parts, "technique": technique,
                   "assumptions": list(assumptions)}


spec("C01",
     "Byte strings of all sizes (up to 70000 bytes) are encoded and decoded; malformed texts are made by "
     "mutating encodings or drawn at random.  Non-trivial: at least 2 bytes of input with 2 "
     "different values, or a text which is malformed.",
     harness=["c01_encode.cc"], repo=["encode.cc"] + ERR, libs=BOOST,
     cases={"quick": 80000, "thorough": 3000000})
spec("C02",
     "Random keys and messages up to 5000 bytes (exhaustively every length 0..600), cut into "
     "random pieces with the hash read in between, against an independent SipHash-2-4.  "
     "Non-trivial: a message of at least 1 byte in at least 2 pieces.",
     harness=["c02_siphash.cc"], repo=["hash/algorithms/siphash.cc"],
     cases={"quick": 500000, "thorough": 10000000})
spec("C03",
     "Values of 34 types (scalars, strings, sequences, sets, maps, pairs, tuples, nestings, user types) are "
     "hashed with an algorithm that records the bytes it is fed, against a model of the "
     "documented feed; the same sequence in different containers, regrouped sequences, and every "
     "way of opting in.  Non-trivial: more than 8 bytes fed, or at least 2 elements.",
     assumptions=["long double is left out: its padding has no defined value"],
     harness=["c03_hash.cc"], repo=["hash/algorithms/siphash.cc", "crypto.cc"] + ERR,
     libs=ALL_LIBS, cases={"quick": 100000, "thorough": 4000000})
PERTURB = ["-Wl,--wrap=pthread_mutex_lock,--wrap=pthread_mutex_unlock"]
spec("C04",
     "1 to 4 threads submit up to 12 tasks each, some submitting more, with random task lengths, "
     "gaps and delays at lock operations, then the object is destroyed; built with the thread "
     "sanitizer, tasks share unprotected state.  Non-trivial: at least 3 tasks from at least 2 "
     "threads (or at least one task, for short lives).",
     assumptions=["tasks do not throw"],
     harness=["c04_active.cc", "perturb.cc"], repo=["active.cc"], libs=BOOST,
     sanitizer="thread", link=PERTURB, case_timeout=20,
     cases={"quick": 24000, "thorough": 600000})
spec("C05",
     "Random sequences of pushes and pops on one thread against a deque; 1 to 3 producers and 1 "
     "to 4 consumers (blocking, trying or both) with random delays at lock operations, built with "
     "the thread sanitizer.  Non-trivial: at least 2 pops, or at least 3 items and 3 threads.",
     harness=["c05_safe_queue.cc", "perturb.cc"], sanitizer="thread", link=PERTURB,
     case_timeout=20, cases={"quick": 200000, "thorough": 5000000})
spec("C06",
     "1 to 5 workers, up to 20 tasks posted from 1 to 3 threads and from tasks, some asking the "
     "service to stop, stopped by 0 to 3 threads at once and by destruction, for both networking "
     "libraries, with random delays at lock operations; services stopped by a worker of another.  "
     "Non-trivial: at least 2 tasks.",
     assumptions=["tasks do not throw"],
     harness=["c06_asio_service.cc", "perturb.cc"], repo=LOG, libs=BOOST,
     sanitizer="thread", link=PERTURB, case_timeout=20,
     cases={"quick": 16000, "thorough": 400000})
spec("C07",
     "Random nests of scopes (up to 40 steps) creating, replacing, unsetting and releasing guards and left "
     "normally or by exception, against a list of the actions that must have run; guards that "
     "revert variables of several types; actions whose copying fails.  Non-trivial: at least 2 "
     "actions or 2 saved values, or a failing copy.",
     assumptions=["an action that throws at the end of the scope ends the process: not covered"],
     harness=["c07_scope_exit.cc"], cases={"quick": 300000, "thorough": 8000000})
spec("C08",
     "Second counts over the whole representable range, pairs of readings with sub-second parts, "
     "the present, and millisecond stamps up to the year 9990, against 64-bit arithmetic and an "
     "independent calendar.  Non-trivial: negative or large counts, differing readings.",
     harness=["c08_clock.cc"], repo=["clock.cc"] + IDENTITY, libs=ALL_LIBS,
     cases={"quick": 400000, "thorough": 8000000})
spec("C09",
     "Every defined error against every other and every standard condition (exhaustive), and "
     "32-bit integers near and far from the defined ones.  Non-trivial: a defined error, an "
     "integer that denotes none, or an error made with its own text.",
     harness=["c09_errors.cc"], repo=ERR, libs=BOOST,
     cases={"quick": 200000, "thorough": 6000000})
spec("C10",
     "Chunks and items with values up to 1500 bytes are made, copied, moved, serialised directly "
     "and through the base class and parsed; serialised forms with bits flipped, cut, extended or "
     "parts replaced, against an independent parser and SHA-512; pairs of (name, type) keys.  "
     "Non-trivial: values of at least 2 bytes, forms that were changed, sets of keys.",
     harness=["c10_data.cc"],
     repo=["data_types/immutable_data.cc", "data_types/mutable_data.cc", "crypto.cc"] + IDENTITY,
     libs=ALL_LIBS, cases={"quick": 100000, "thorough": 3000000})
spec("C22",
     "Triples of identities sharing prefixes of any length, every pair of differing bytes "
     "(exhaustive), encodings of identities and damaged encodings, against a bit-by-bit model.  "
     "Non-trivial: identities that share some but not all bits, texts that are malformed.",
     harness=["c22_identity.cc"], repo=IDENTITY, libs=ALL_LIBS,
     cases={"quick": 200000, "thorough": 6000000})
spec("C14",
     "Caches and filters with every kind of limit (capacities 0 to 40 or none, lifetimes from 1 ns "
     "to a year or none) are driven by up to 80 operations, with a clock that the harness moves, "
     "against a list in order of use.  Non-trivial: something was evicted or expired after a "
     "successful read (maps), or at least two keys were (filters).",
     assumptions=["lifetimes are not negative and not so long that times overflow"],
     harness=["c14_lru.cc"], repo=ERR, libs=BOOST,
     link=["-Wl,--wrap=_ZNSt6chrono3_V212steady_clock3nowEv,--wrap=_ZNSt6chrono3_V212system_clock3nowEv"],
     cases={"quick": 300000, "thorough": 8000000})
spec("C15",
     "Three strings of one of 11 types are constructed, parsed, copied, moved, swapped, changed "
     "and reset with contents at and around the bounds, conversions between types, exclusive-or, "
     "and arbitrary serialised forms, against a plain byte vector and a flag.  Non-trivial: a "
     "history with acceptable content, a pair of different strings, a form of 8 bytes or more.",
     assumptions=["objects that were moved from are not looked at"],
     harness=["c15_bounded_string.cc"], repo=["encode.cc"] + ERR, libs=BOOST,
     cases={"quick": 300000, "thorough": 8000000})
spec("C32",
     "Pairs of values of 14 wrapped types (including ones without a total order) tagged and "
     "compared, copied, printed and serialised; every kind of integer cast to four "
     "enumerations; make_unique for objects and arrays.  Non-trivial: differing values, any "
     "integer, arrays of at least 2.",
     harness=["c32_tagged.cc"], repo=["encode.cc"] + ERR, libs=BOOST,
     cases={"quick": 400000, "thorough": 10000000})
spec("C11",
     "Histories of up to 31 insertions, deletions, clears, reads and swaps over universes of up to "
     "10 versions (in any order, with wrong parents, circles, second roots, missing versions) under "
     "limits of 1 to 8 versions and 1 to 4 branches or roomy ones, against a model that keeps only "
     "declared parents and the root.  Non-trivial: at least 3 versions (or the limit) were held.",
     assumptions=["a version with index 0 is only inserted without a parent, as documented",
                  "a new root which would exceed the branch limit may be refused or handed back"],
     harness=["c11_versions.cc"],
     repo=["data_types/structured_data_versions.cc", "data_types/immutable_data.cc", "crypto.cc"] + IDENTITY,
     libs=ALL_LIBS, cases={"quick": 500000, "thorough": 12000000})
spec("C12",
     "Trees made as for C11 are serialised, restored, assigned and used further side by side; "
     "pairs of trees are merged and compared with the union of their declared parents; forms "
     "changed part by part or byte by byte.  Non-trivial: at least 3 versions held, two trees of "
     "at least 2, any changed form.",
     assumptions=["which versions a merge beyond the limits evicts is not specified"],
     harness=["c12_versions_serialised.cc"],
     repo=["data_types/structured_data_versions.cc", "data_types/immutable_data.cc", "crypto.cc"] + IDENTITY,
     libs=ALL_LIBS, cases={"quick": 40000, "thorough": 1500000})
spec("C13",
     "Histories of up to 25 stores, reads, deletions by key and by predicate and changes of limits, "
     "on up to 8 keys with values of 1 byte to the disk limit, with and without a pop callback, "
     "each step compared with the files, the popped items and the readable values of a model; and "
     "the same unsynchronised, with readers and delays at lock operations; a file which can't be "
     "written or popped, with up to 2 readers and 2 writers at it.  Non-trivial: at least two "
     "items were held or one popped, more than 3 steps (racing), any failing disk.",
     assumptions=["one thread stores and deletes (others may read, or delete while it waits), "
                  "except while the disk fails",
                  "the pop callback neither throws nor uses the buffer",
                  "a value already popped may still be readable from memory"],
     parts={"steps": dict(harness=["c13_data_buffer.cc", "perturb.cc"],
                          repo=["data_buffer.cc"] + IDENTITY, libs=ALL_LIBS, link=PERTURB,
                          cases={"quick": 200000, "thorough": 4000000}),
            "threads": dict(harness=["c13_buffer_threads.cc", "perturb.cc"], sanitizer="thread",
                            repo=["data_buffer.cc"] + IDENTITY, libs=ALL_LIBS, link=PERTURB,
                            cases={"quick": 200000, "thorough": 4000000})})
spec("C16",
     "Plain texts of up to 100000 bytes with random keys are encrypted and decrypted against "
     "OpenSSL's AES-256-GCM; cipher texts and keys are changed by bit flips, cuts, extensions, "
     "swaps and splices; data of up to 200000 bytes with repetitions is compressed at every level "
     "and read with zlib and the other way round; damaged and arbitrary compressed data.  "
     "Non-trivial: at least 2 bytes, or something changed.",
     technique="property-based testing against a reference implementation",
     harness=["c16_crypto.cc"], repo=["crypto.cc"] + ERR, libs=ALL_LIBS + ["-lcrypto", "-lz"],
     cases={"quick": 100000, "thorough": 3000000})
spec("C17",
     "Data of up to 20000 bytes split into 3 to 63 parts with every threshold, joined from random "
     "subsets in random order (all subsets for up to 6 parts), from too few parts, and from parts "
     "that were cut, extended, changed, repeated or invented.  Non-trivial: at least 2 bytes, "
     "refused numbers, or malformed parts.",
     technique="property-based testing (round trips over subsets)",
     harness=["c17_sharing.cc"], repo=["crypto.cc"] + ERR, libs=ALL_LIBS,
     cases={"quick": 500000, "thorough": 12000000})
spec("C18",
     "Data of up to 200000 bytes is encrypted and signed with keys of 1024, 2048 and 4096 bits, in "
     "memory and from files, both ways against OpenSSL; cipher texts, signatures, data and encoded "
     "keys are changed by bit flips, swaps, fills, cuts and extensions; other keys; missing "
     "arguments; freshly generated keys; four threads at once.  Every case is non-trivial.",
     technique="property-based testing against a reference implementation",
     harness=["c18_rsa.cc"], repo=["rsa.cc", "crypto.cc"] + IDENTITY,
     libs=ALL_LIBS + ["-lcrypto"], cases={"quick": 150000, "thorough": 6000000})
CREDENTIALS = ["authentication/detail/secure_string.cc", "crypto.cc"] + IDENTITY
spec("C19",
     "Inputs of up to 100000 bytes, many around block boundaries, are digested in every kind of "
     "container against OpenSSL; passwords and obfuscation with random keywords, PINs (up to 19 "
     "digits), passwords, salts and labels against OpenSSL's PBKDF2; missing or unfinished "
     "credentials; credentials which differ in one place.  Non-trivial: at least 2 bytes.",
     technique="property-based testing against a reference implementation",
     harness=["c19_digests.cc"], repo=["authentication/user_credential_utils.cc"] + CREDENTIALS,
     libs=ALL_LIBS + ["-lcrypto"], cases={"quick": 60000, "thorough": 2000000})
spec("C20",
     "Random sequences of up to 26 inserts (of characters, strings and safe strings), removals, "
     "finalisations, clears, reads and validations on secure input strings with five different "
     "rules against a map of pieces; secure strings appended to, finalised and cleared.  "
     "Non-trivial: at least 2 operations that change the text.",
     harness=["c20_secure_string.cc"], repo=CREDENTIALS,
     libs=ALL_LIBS + ["-lcrypto"], cases={"quick": 40000, "thorough": 2000000})
spec("C21",
     "Random sequences of up to 41 registrations and releases of overlapping ranges with pages of 1 "
     "to 8192 bytes against a recomputed set of pages; allocations of four types and growing "
     "strings, with mlock and munlock replaced by recorders and freed memory inspected; 2 to 4 "
     "threads with random delays at lock operations, built with the thread sanitizer.  "
     "Non-trivial: at least one overlap, 3 frees or 3 steps; every case with threads.",
     assumptions=["the system's mlock and munlock do what they are asked for"],
     parts={"main": dict(harness=["c21_locked_memory.cc", "perturb.cc"], repo=CREDENTIALS,
                         libs=ALL_LIBS, link=PERTURB + [
                             "-Wl,--wrap=_ZdlPv,--wrap=_ZdlPvm,--wrap=mlock,--wrap=munlock"],
                         sanitizer="thread", cases={"quick": 300000, "thorough": 8000000})})
spec("C23",
     "Messages of 1 to 12 values out of 25 types (scalars, strings, nested containers, optionals, "
     "paths, addresses of both kinds, own types) are serialised and parsed through every "
     "interface, several in a row, against an encoder of its own; prefixes, changed and arbitrary "
     "bytes; flyweights with and without repetitions.  Non-trivial: more than 8 bytes (1 for "
     "single values), at least 3 flyweights, or malformed bytes.",
     assumptions=["IPv6 addresses have no scope id (it isn't serialised)",
                  "flyweights are saved with an archive that registers plain pointers, as the "
                  "installed cereal doesn't"],
     harness=["c23_serialisation.cc"], repo=IDENTITY, libs=ALL_LIBS,
     cases={"quick": 40000, "thorough": 3000000})
spec("C24",
     "Random addresses (IPv4, IPv6, mapped, compatible and link-local, with scopes) and ports are "
     "converted both ways and compared byte for byte; lists of them are stored with one library and "
     "read with the other; malformed stored addresses; texts, bytes and error codes.  Non-trivial: "
     "every address, malformed bytes, at least 2 bytes, or an error.",
     harness=["c24_convert.cc"], repo=IDENTITY, libs=ALL_LIBS,
     cases={"quick": 400000, "thorough": 10000000})
spec("C25",
     "Random histories on two connections (transactions committed, left or thrown out of, failing "
     "and reused statements, second transactions, waiting for a lock which is released during the "
     "n-th wait, checkpoints, reopening) against a map; process death at the n-th write SQLite "
     "makes; failing and short writes; threads counting; values bound to reused statements; "
     "missing, damaged and read-only files; commits refused for a deferred constraint, put "
     "right during the n-th wait, afterwards or never.  Non-trivial: a commit and a rollback, a refused commit, a death or "
     "failed write, 2 increments, 2 bytes; every opening.",
     technique="property-based testing with fault injection against a reference model",
     assumptions=["SQLite itself is correct", "process death, not power failure: the library turns "
                  "synchronous writing off"],
     harness=["c25_sqlite.cc"], repo=["sqlite3_wrapper.cc"] + IDENTITY, libs=ALL_LIBS,
     link=["-Wl,--wrap=nanosleep,--wrap=clock_nanosleep,--wrap=sqlite3_busy_timeout"],
     cases={"quick": 120000, "thorough": 3000000})
NET = ["-Wl,--wrap=socket,--wrap=accept,--wrap=sendmsg,--wrap=recvmsg,--wrap=send,--wrap=recv"] + PERTURB
spec("C26",
     "Streams of up to 12 messages (1 byte to 1 MiB) cut at random places, ending within a message, "
     "announcing too much, reset; messages sent through small buffers and compared on the wire; 1 "
     "to 3 pairs of connections with up to 4 sending threads each, closed early, late, by either "
     "or both ends or by stopping the service, on 1 to 5 workers; interrupted calls, failing sends "
     "and receives, hosts without IPv6; built with the thread sanitizer.  Non-trivial: at least 2 "
     "messages.",
     parts={"main": dict(harness=["c26_tcp.cc", "net_faults.cc", "perturb.cc"], sanitizer="thread",
                         repo=["tcp/connection.cc", "tcp/listener.cc"] + LOG, libs=ALL_LIBS,
                         link=NET, case_timeout=60,
                         cases={"quick": 160000, "thorough": 3000000})})
spec("C27",
     "All kinds of patterns of busy ports above the desired one, the last ports included; up to 3 "
     "connections; listeners stopped up to 4 times from several threads, kept or not, and started "
     "again; connecting from up to 5 threads while listeners stop; 1 to 4 workers, interrupted "
     "calls, one failing accept, hosts without IPv6; built with the thread sanitizer.  Non-trivial: another port than "
     "the desired one, none, or at least one connection.",
     assumptions=["nobody else uses the ports 12000 to 22000 and 65525 to 65535 of the loopback "
                  "device during a case (a case which finds one busy beforehand is given up)"],
     parts={"main": dict(harness=["c27_listener.cc", "net_faults.cc", "perturb.cc"],
                         sanitizer="thread",
                         repo=["tcp/connection.cc", "tcp/listener.cc"] + LOG, libs=ALL_LIBS,
                         link=NET, case_timeout=60,
                         cases={"quick": 100000, "thorough": 2000000})})
spec("C28",
     "Random histories of creating, reading and removing under up to 4 related names, in this and "
     "other processes, with up to 150 items and up to 70000 bytes, against a map of lists; threads "
     "reading while the content is replaced.  Non-trivial: something created and read back.",
     assumptions=["the system has shared memory (/dev/shm)",
                  "what can be read after a list was refused as too large is not checked"],
     harness=["c28_ipc.cc"], repo=["ipc.cc", "encode.cc"] + ERR, libs=ALL_LIBS, case_timeout=30,
     cases={"quick": 80000, "thorough": 2000000})
spec("C29",
     "Up to 12 typed lines (numbers at and beyond limits, words, malformed, empty, arbitrary bytes) are read as nine "
     "types with and without echo, past the end of input, on a pseudo-terminal whose echo flag and output are "
     "inspected whenever a line is asked for; passwords out of up to 3 similar words against "
     "OpenSSL's hash; random menu trees of up to 110 items whose actions record, read or fail, "
     "walked with valid and invalid choices, against a model.  Non-trivial: at least 2 reads, "
     "2 words or an option chosen out of at least 2.",
     assumptions=["no white space within passwords",
                  "going back up may run the parent's action again, or not"],
     harness=["c29_cli.cc"], repo=["cli.cc", "menu.cc", "menu_item.cc", "crypto.cc"] + LOG,
     libs=ALL_LIBS + ["-lcrypto", "-lutil"], cases={"quick": 600000, "thorough": 20000000})
spec("C30",
     "Random histories of writing, reading and removing up to 4 files of up to 300000 bytes with "
     "arbitrary names against a map; every read and write of a file failing, doing a part or "
     "being interrupted, at a random call; full devices, no descriptors, files larger than memory; "
     "names of random data items and single mutations of them; 12 kinds of malformed names; paths given as "
     "options over a tree of files, directories and links.  Non-trivial: something written, "
     "failing or created; all names.",
     technique="property-based testing with fault injection against a reference model",
     assumptions=["closing a file does not fail", "nobody else changes the files"],
     harness=["c30_files.cc"], repo=IDENTITY, libs=ALL_LIBS,
     cases={"quick": 100000, "thorough": 4000000})
spec("C31",
     "Sequences of up to 11 random strings and numbers of 10 kinds with sizes up to 3500, repeated "
     "with the same and other seeds; whether every value and size comes up; 2 to 4 threads, built "
     "with the thread sanitizer; byte counts over all 64 bits, with those near the changes of unit "
     "and digit frequent, against 128-bit arithmetic; versions and 9 kinds of malformed ones; XOR.  "
     "Non-trivial: at least 8 bytes, 1000 bytes of size, or 2 values; all versions.",
     assumptions=["sizes which fit in memory"],
     parts={"main": dict(harness=["c31_utils.cc"], repo=IDENTITY, libs=ALL_LIBS,
                         cases={"quick": 1000000, "thorough": 30000000}),
            "threads": dict(harness=["c31_utils.cc", "perturb.cc"], repo=IDENTITY, libs=ALL_LIBS,
                            flags=["-DTHREADS_ONLY"], sanitizer="thread", link=PERTURB,
                            cases={"quick": 4000, "thorough": 100000})})
spec("C33",
     "A process of its own logs up to 150 messages from each of 1 to 4 threads (texts up to 3000 characters, "
     "6 levels, real and odd source paths, plain output in 5 colours) under random options on the command line "
     "and in a file (levels, folder, modes, console, help, mistakes); its console, a pipe or a terminal, and "
     "every file are taken apart into exactly the expected messages, each thread's in order and with "
     "a true time; once more with the thread sanitizer and random delays at lock operations.  "
     "Non-trivial: at least 2 messages logged and one filtered out; every time of day.",
     assumptions=["texts contain no NUL", "levels given are valid",
                  "a project's level is given alone or by log_*, not by both"],
     technique="property-based testing of random histories and schedules",
     parts={"main": dict(harness=["c33_log.cc"], repo=LOG, libs=ALL_LIBS, link=["-lutil"],
                         flags=["-DUSE_LOGGING=1"], cases={"quick": 500000, "thorough": 6000000}),
            "threads": dict(harness=["c33_log.cc", "perturb.cc"], repo=LOG, libs=ALL_LIBS,
                            flags=["-DUSE_LOGGING=1", "-DPERTURBED"], sanitizer="thread",
                            link=PERTURB + ["-lutil"], cases={"quick": 150000, "thorough": 2000000})})
spec("C34",
     "Up to 60 entries of up to 9 similar places with durations of up to 36 years, recorded from 1 "
     "to 3 threads of a process of its own, whose report is parsed and compared with the sums; random trees "
     "of profiled scopes with sleeps, left normally or by exception; once more with the thread "
     "sanitizer and random delays at lock operations; sequences of operations on up to 4 locations.  "
     "Non-trivial: at least 2 entries or any location.",
     assumptions=["durations are not negative and their sum fits in 64 bits of nanoseconds"],
     technique="property-based testing of random histories and schedules",
     parts={"main": dict(harness=["c34_profiler.cc"], repo=["profiler.cc", "active.cc"], libs=BOOST,
                         flags=["-DUSE_PROFILING"], cases={"quick": 200000, "thorough": 6000000}),
            "threads": dict(harness=["c34_profiler.cc", "perturb.cc"],
                            repo=["profiler.cc", "active.cc"], libs=BOOST,
                            flags=["-DUSE_PROFILING", "-DPERTURBED"], sanitizer="thread",
                            link=PERTURB, cases={"quick": 60000, "thorough": 2000000})})
spec("C35",
     "The program itself, linked under random names and directories (up to 1500 characters deep, by way of "
     "links), is started with arbitrary first arguments and asked for its path before and after it "
     "is set, with narrow and wide characters; random argument lists; random histories of up to 11 "
     "processes started, stopped and ended; home directories from users and the environment, known or not; "
     "local addresses of both versions, odd ones frequent, and failures, by stand-ins for connecting and "
     "asking for the name; 1 to 300 processors.  Non-trivial: every path, at least 2 arguments, an ended process.",
     assumptions=["the program file is not moved or deleted", "arguments are not empty",
                  "processes which have ended but not been waited for are not asked about"],
     harness=["c35_process.cc"], repo=["process.cc", "config.cc"] + IDENTITY, libs=ALL_LIBS,
     link=["-Wl,--wrap=getpwuid,--wrap=readlink,--wrap=connect,--wrap=getsockname,--wrap=sysconf"],
     flags=[
         flag for name, value in (("APPLICATION_VERSION_MAJOR", "12"),
                                  ("APPLICATION_VERSION_MINOR", "7"),
                                  ("APPLICATION_VERSION_PATCH", "345"),
                                  ("TARGET_PLATFORM", "Minix3"), ("TARGET_ARCHITECTURE", "m68k"),
                                  ("COMPANY_NAME", "Acme"), ("APPLICATION_NAME", "Anvil"))
         for flag in ("-U" + name, "-D%s=%s" % (name, value))],
     cases={"quick": 1000000, "thorough": 30000000})
spec("C36",
     "A process of its own logs up to 8 messages of 9 forms, valid or not, from each of 1 to 3 threads, in 2 "
     "phases, to a file and to a server in the checking process, which may be absent at first, answers in "
     "various ways, piecemeal or late, and may close connections; every request and line is taken apart "
     "and compared; once more without logging proper, with the thread sanitizer and random delays.  "
     "Non-trivial: at least 2 valid messages.",
     assumptions=["the server answers every request in the end",
                  "texts are not 64 characters long, as identities are"],
     technique="property-based testing of random histories and schedules",
     parts={"main": dict(harness=["c36_visualiser.cc"], repo=sorted(set(LOG + IDENTITY)) + ["visualiser_log.cc"],
                         libs=ALL_LIBS, flags=["-DUSE_LOGGING=1", "-DUSE_VLOGGING"],
                         cases={"quick": 100000, "thorough": 4000000}),
            "threads": dict(harness=["c36_visualiser.cc", "perturb.cc"],
                            repo=sorted(set(LOG + IDENTITY)) + ["visualiser_log.cc"], libs=ALL_LIBS,
                            flags=["-DUSE_LOGGING=0", "-DUSE_VLOGGING", "-DPERTURBED"],
                            sanitizer="thread", link=PERTURB,
                            cases={"quick": 50000, "thorough": 1500000})})
spec("C37",
     "Sessions of up to 20 commands typed to the tool itself, with wrong choices, malformed endpoints, missing, "
     "incomplete and wrong files, declined confirmations and early ends of input, against a list; "
     "what each command shows and every file it leaves are compared.  Non-trivial: at least 2 changes of the list.",
     harness=["c37_bootstrap_tool.cc"], repo=sorted(set(LOG + IDENTITY)), libs=ALL_LIBS,
     flags=["-DUSE_LOGGING=1"], cases={"quick": 100000, "thorough": 3000000})
spec("C38",
     "Sessions of up to 24 commands typed to the tool itself, with wrong choices and passwords, missing, empty "
     "and wrong files, groups of 2 to 5 members, quorums too small, and early ends of input, against a "
     "symbolic account of what every file holds; what each command shows and every file it leaves are compared.  "
     "Non-trivial: at least 2 keys saved, signatures found valid, files decrypted or groups signed in.",
     harness=["c38_signing_tool.cc"], repo=sorted(set(["rsa.cc", "crypto.cc"] + IDENTITY)), libs=ALL_LIBS,
     cases={"quick": 150000, "thorough": 3000000})
spec("C39",
     "Networks of up to 40 nodes sharing prefixes of any length, candidates, targets and ranks, with every "
     "algorithm, group, majority and leeway, against a bit-by-bit recomputation; simulations from the first node "
     "until there are the bad groups asked for; configuration files with any of the elements in any order, missing "
     "or damaged, given to the tool itself; linked addresses in bad hands, of those drawn.  Non-trivial: more than 2 "
     "nodes, bad groups found, more than 2 elements, some but not all attempts successful.",
     assumptions=["groups have at least two members"],
     harness=["c39_address_space.cc"], repo=sorted(set(["crypto.cc"] + LOG + IDENTITY)), libs=ALL_LIBS + ["-lcrypto"],
     flags=["-DUSE_LOGGING=1"], link=["-Wl,--wrap=readlink,--wrap=_ZN8maidsafe11RandomBytesEm"],
     cases={"quick": 1000000, "thorough": 20000000})
spec("C40",
     "Sequences of up to 15 operations creating, sharing, filling and dropping test folders, also in up "
     "to 5 threads, in temporary folders which exist or don't; up to 9 parallel runs of functions with "
     "delays and exceptions; 22000 ports of one process; random addresses; test programs of up to 5 "
     "tests of which some fail or are disabled, with filters, seeds, bootstrap files and limits on open "
     "files, whose failures are replicated as reported.  Non-trivial: a folder removed, more than 1 "
     "thread or test, all ports and addresses.",
     assumptions=["the tests end by returning"],
     harness=["c40_test_support.cc"], repo=sorted(set(["test.cc"] + LOG + IDENTITY)),
     libs=ALL_LIBS + ["-lgtest"], flags=["-DMAIDSAFE_DISABLED_TEST_RETURN_CODE=77"],
     link=["-Wl,--wrap=readlink"], cases={"quick": 200000, "thorough": 3000000})
