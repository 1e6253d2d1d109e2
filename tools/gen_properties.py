import json
P=[]
def p(id,title,stmt,over,text,why,files,mech,observe=None):
    P.append(dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe or [],hook_needed=None)))
I="include/maidsafe/common/"; S="src/maidsafe/common/"
p("C01","Hex and Base64 codecs are exact inverses and reject malformed text",
 "Hex-encoding any byte string gives two lowercase hex digits per byte in order, Base64-encoding gives standard padded RFC 4648 text, and decoding that text (as a string or as bytes) gives back exactly the original bytes. Decoding text that is not such an encoding (odd or non-multiple-of-four length, a character outside the lowercase-hex or Base64 alphabet, misplaced padding) is rejected with the invalid-conversion error and never yields made-up bytes. The abbreviated form is the whole encoding when it is at most 14 characters, otherwise its first 6 characters, '..', and its last 6.",
 ["inputs"],"every byte string of every length (as string, byte vector or bounded string) and every text, valid or malformed",
 "encode_test samples ten 100-byte strings and RFC vectors and does not build here; out-of-alphabet characters, padding positions and lengths are an unbounded input space.",
 [I+"encode.h",S+"encode.cc",I+"bounded_string.h"],[("lookup tables, padding switch",S+"encode.cc"),("Encode templates",I+"encode.h")],["hex::Encode/DecodeToString/DecodeToBytes/Substr","base64::Encode/DecodeToString/DecodeToBytes/Substr"])
p("C02","The SipHash implementation is SipHash-2-4, however the input is split",
 "For every 128-bit key and every message, the 64-bit hash equals the published SipHash-2-4 value. Feeding the message in any sequence of pieces (including empty ones) gives the same hash as feeding it at once. Asking for the hash at any point gives the hash of the bytes fed so far and does not disturb what follows.",
 ["inputs","histories"],"all keys, all messages of all lengths, all ways of splitting them and of interleaving reads of the hash",
 "siphash_test only uses messages of 16 and 1000 bytes (both multiples of 8) and is not built here.",
 [I+"hash/algorithms/siphash.h",S+"hash/algorithms/siphash.cc"],[("block compression, remainder buffer, length byte",S+"hash/algorithms/siphash.cc")],["SipHash::Update","SipHash::Finalize"])
p("C03","Hashing depends only on the value: equal values hash equal, feed unambiguous",
 "Two values that are equal feed a hash algorithm the same bytes whichever equivalent representation holds them (the same sequence as a vector, array, list, forward list, initialiser list or string; a pair or a two-element tuple; positive or negative zero; a constant or a modifiable object, of a type hashed by its own function or by its, possibly versioned, serialisation), and hashing a value twice with the same seed gives the same result. The bytes fed for a range are those of its elements in order followed by its element count, so regrouping the elements of nested ranges changes the bytes fed. Hashing several values in one call feeds the same bytes as hashing them one after another.",
 ["inputs","programs"],"all values and nested combinations of the supported scalar, range, pair and tuple types, and user types that opt in through a member or free function or through serialisation",
 "hash_test compares a few literal values and does not build here; the headers are only compiled, never run, by the build.",
 [I+"hash/hash_range.h",I+"hash/hash_contiguous.h",I+"hash/hash_numeric.h",I+"hash/hash_vector.h",I+"hash/hash_string.h",I+"hash/hash_array.h",I+"hash/hash_pair.h",I+"hash/hash_tuple.h",I+"hash/hash_use_serialize.h",I+"hash/algorithms/hash_algorithm_base.h",I+"hash/wrappers/seeded_hash.h"],[("overloads of HashAppend",I+"hash/"),("dispatch and argument folding",I+"hash/algorithms/hash_algorithm_base.h")],["bytes passed to the algorithm's Update","hash value"])
p("C04","Active object: every accepted task runs exactly once, in submission order, alone",
 "Tasks submitted to an active object run one at a time on its single background thread, never on the submitting thread; each runs exactly once, and tasks submitted one after another run in that order. Destroying the object returns only after every task submitted beforehand has finished, and no task runs after that. A task may itself submit further tasks, and submitting never waits for tasks to run.",
 ["schedules","histories"],"all numbers of submitting threads, task counts, task durations, nested submissions, and destruction points",
 "active_object_test (not in the stable set for this) runs a fixed sequence; ordering and draining must hold for every interleaving of submitters and destruction.",
 [I+"active.h",S+"active.cc"],[("queue under mutex, stop task sent by the destructor",S+"active.cc")],["order and thread of task execution","state after destruction"])
p("C05","Thread-safe queue is FIFO and loses, duplicates or invents nothing",
 "Elements leave the queue exactly once, and in the order of being pushed: one whose push was over before that of another began, by whatever threads, is taken before it. A non-blocking pop succeeds exactly when an element is present and otherwise leaves its target untouched; a blocking pop returns an element once one is available; size and emptiness always match the pushes minus the successful pops.",
 ["histories","schedules"],"all sequences of operations from one thread, and all interleavings of several producers and consumers",
 "safe_queue has no dedicated model test; only particular uses are exercised.",
 [I+"safe_queue.h"],[("mutex and condition variable around std::queue",I+"safe_queue.h")],["SafeQueue::Push/TryPop/WaitAndPop/Size/Empty"])
p("C06","Worker-thread service runs posted work and stops cleanly exactly once",
 "A worker-thread service created with N > 0 threads runs every posted task at most once, on at most N threads and never on the posting thread, and reports N threads until stop is requested; creating one with zero threads is refused with an invalid-argument error. Stopping, or destroying it, returns only when everything posted beforehand, and by those tasks, has run exactly once and no worker is running; nothing posted later runs. Stopping is harmless when repeated, called concurrently or followed by destruction, and is always refused without effect when requested from one of its own workers; a worker of another service may stop it like anyone else.",
 ["schedules","configurations"],"all thread counts, task mixes, and stop/destruction orders, from outside and inside the service",
 "asio_service_test covers a handful of fixed scenarios and does not build here.",
 [I+"asio_service.h"],[("Stop/thread joining",I+"asio_service.h")],["IoService/AsioService Stop, ThreadCount, service().post"])
p("C07","Scope guards fire exactly once, and reverting restores the previous value",
 "When a guarded scope ends, normally or by exception, the guard's current action runs exactly once, unless the guard was released, in which case it never runs; replacing the action makes only the latest one run, and an action set after a release is armed again. If a guard cannot be made, its action runs at once and the failure is reported. A guard made to revert a variable restores the value it held when the guard was made, for any number of variables and nesting.",
 ["histories","fault_sequences"],"all nestings and sequences of creating, releasing and replacing guards, with scopes that end normally or by exception and guards that cannot be made",
 "on_scope_exit_test compiles here but is never run, and checks a few fixed scopes.",
 [I+"on_scope_exit.h"],[("destructor runs the stored action",I+"on_scope_exit.h")],["on_scope_exit","on_scope_exit::RevertValue"])
p("C08","Wall-clock conversions are exact and monotone",
 "Converting a calendar (Unix) second count to the library's clock and back gives the same count, for every representable second before and after the epoch. Converting a clock reading to whole seconds never moves it by a second or more, and a later reading never converts to an earlier second; the clock agrees with the system clock to within the time the reads take. A protocol time stamp counts the milliseconds since the start of 2000 (UTC) and converts exactly to the date it denotes, and time stamps taken later are never smaller.",
 ["inputs"],"all second counts and time points over the representable range",
 "clock_test converts 'now' and a single round trip; negative, sub-second and extreme values are not sampled.",
 [I+"clock.h",S+"clock.cc",I+"utils.h",S+"utils.cc"],[("to_time_t/from_time_t",S+"clock.cc"),("GetTimeStamp/TimeStampToPtime",S+"utils.cc")],["common::Clock","GetTimeStamp","TimeStampToPtime"])
p("C09","Errors keep their identity: code, category and text survive conversion",
 "Every defined error converts to a distinct integer and back to the same error, category and message, and survives serialisation unchanged; the integer of every defined error is fixed, and integers that denote no defined error convert to an error that says so rather than to some other defined error. Each error category has its own name, gives every defined code its own non-empty text distinct from that of an unknown code, and a thrown error carries exactly the code it was made from. Codes that mirror a standard condition compare equal to that condition and to no unrelated one.",
 ["inputs"],"every error enumerator of every category and every 32-bit integer",
 "errors_test is not built here and loops over hand-listed values; the tables are large and every entry is a separate case.",
 [I+"error.h",S+"error.cc",S+"error_categories.h",S+"error_categories.cc"],[("category ranges in ErrorToInt/IntToError",S+"error.cc"),("message and default_error_condition tables",S+"error_categories.cc")],["MakeError","ErrorToInt","IntToError","make_error_code","error messages"])
p("C10","Stored data types: name matches content, type is enforced, parsing validates",
 "An immutable chunk's name is always the SHA-512 of its value, both when built from a value and when parsed, and a serialised chunk whose name does not match its content is rejected with a parsing error. Any data object that is serialised and parsed back, directly or through a pointer to its base type, has the same type, name and value, and a parsed mutable item keeps the name and value it was stored under. Using an uninitialised object is refused, and the (name, type) key is totally ordered consistently with equality.",
 ["inputs"],"all values, names and type identifiers, and all byte strings offered for parsing",
 "data_test and derived_data_test do not build here and use a few random values; no test tampers with every part of the serialised form.",
 [I+"data_types/data.h",I+"data_types/immutable_data.h",I+"data_types/mutable_data.h",S+"data_types/data.cc",S+"data_types/immutable_data.cc",S+"data_types/mutable_data.cc"],[("load() recomputes the hash",I+"data_types/immutable_data.h"),("type id and name fields",I+"data_types/data.h")],["Serialise/Parse of ImmutableData, MutableData","Data::NameAndType"])
p("C11","Structured-data versions behave as the documented bounded tree of versions",
 "After any sequence of version insertions and branch deletions, the set of branch tips, every branch from tip to its first version, and the version evicted by each insertion are those of the documented tree: parents may arrive after their children, at the version limit the root makes way for its lowest child (or the lowest orphan), and the branch limit is never exceeded. Insertions that would give a version two parents, create two roots, form a cycle or exceed the branch limit are refused with the documented error. A refused operation, and repeating an accepted insertion, leave the tree unchanged.",
 ["histories","configurations"],"all limits and all sequences of insert, delete-branch, clear, read and swap operations over any version graph, in any arrival order",
 "structured_data_versions_test does not build here and walks one hand-made tree; orphan adoption, eviction and limits interact in histories far beyond it.",
 [I+"data_types/structured_data_versions.h",S+"data_types/structured_data_versions.cc"],[("Put, orphan map, root replacement",S+"data_types/structured_data_versions.cc")],["Put result","Get","GetBranch","DeleteBranchUntilFork","clear"])
p("C12","Serialised version trees restore exactly, merge correctly and reject garbage",
 "Serialising a version tree and parsing it gives a tree with the same limits, tips and branches that behaves identically under further operations. Applying a serialised tree to an existing one yields, within the serialised limits, the serialised tree with the existing versions merged in, or is refused leaving the existing tree unchanged. Arbitrary or corrupted bytes are either rejected with an error or yield a tree with at most one root, within its limits, that can be fully read and reserialised.",
 ["histories","inputs"],"all reachable trees (with forks, orphans, partial roots), all pairs of trees to merge, and all byte strings",
 "the unit test serialises one tree; corrupted input and merging trees with orphans are not exercised.",
 [S+"data_types/structured_data_versions.cc",S+"data_types/structured_data_versions_cereal.h",I+"data_types/structured_data_versions.h"],[("BranchToCereal/BranchFromCereal, ApplySerialised",S+"data_types/structured_data_versions.cc")],["Serialise","serialised constructor","ApplySerialised"])
p("C13","Data buffer: reads return the last stored value; limits and eviction hold",
 "A value stored in the two-tier buffer and not since deleted, overwritten or popped is returned unchanged by a read, whether it is in memory or on disk; deleted and never-stored keys are reported as missing. When the disk tier is full, exactly the oldest items are handed, with their right values and each once, to the pop callback if there is one, otherwise the store waits until deletions make space. Storing never takes the space occupied on disk over the limit, deleting an item by key or by predicate frees its space and its file, and limits that contradict each other are refused. Once a value can't be written to its file, or the file of one to be popped can't be read, no reader or writer waits for ever or is told that all is well: everything asked for from then on is refused with an error, and never answered with a wrong value. At the end the buffer removes its folder if it chose it or was told to, and otherwise leaves it.",
 ["histories","configurations","schedules"],"all sequences of store, get, delete and limit changes with all value sizes around the memory and disk limits, under any progress of the background copier",
 "data_buffer_test does not build here and runs fixed scenarios with few sizes.",
 [I+"data_buffer.h",S+"data_buffer.cc"],[("memory queue, disk index, background copier",S+"data_buffer.cc")],["Store/Get/Delete/SetMax*","pop callback","files in the buffer directory"])
p("C14","LRU cache holds the most recently used entries within capacity and lifetime",
 "The cache never holds more than its capacity; adding a new key to a full cache discards exactly the least recently used entry, where adding and successfully reading an entry count as use and merely checking for it does not. With a time to live, adding a new key first discards entries at the least-recently-used end that are older than it; nothing else ever disappears except by explicit deletion. Reading gives the value first added under the key since it was last absent, and a missing key gives the no-such-element error.",
 ["histories","configurations"],"all capacities and lifetimes and all sequences of add, read, check, delete and passing of time",
 "lru_cache_test does not build here, uses fixed sequences and real sleeps.",
 [I+"containers/lru_cache.h"],[("usage list spliced on read, timestamp on add",I+"containers/lru_cache.h")],["LruCache::Add/Get/Check/Delete/size"])
p("C15","Size-bounded strings enforce their bounds everywhere",
 "A bounded string can only ever be initialised with content whose size lies within its bounds: construction, conversion, assignment and parsing of anything else are refused, and content is never altered. Reading an uninitialised one is refused; two uninitialised ones are equal and come before any initialised one; otherwise comparison and swapping follow the content. Serialising and parsing gives back any content, serialising an uninitialised one is refused, printing gives the abbreviated hex of the content, and combining two strings by exclusive-or is per byte and undoes itself.",
 ["inputs"],"all contents of all sizes for several bounds, both backing types, all pairs for comparison and conversion, and all serialised byte strings",
 "bounded_string_test does not build here and covers a few sizes.",
 [I+"bounded_string.h",I+"types.h"],[("OutwithBounds checks, valid flag",I+"bounded_string.h")],["BoundedString"])
p("C16","Authenticated encryption and compression: round-trip, and tampering is detected",
 "Encrypting any plain text with any key and decrypting with the same key gives the plain text back, and the cipher text for the same inputs is the same every time. Decrypting after any change to the cipher text or with a different key fails with the decryption error and never returns data. Compressing any data at any permitted level and uncompressing gives the data back, an out-of-range level is refused, and uncompressing anything else either fails with the uncompression error or yields data without crashing.",
 ["inputs","fault_sequences"],"all plain texts, keys, IVs and levels, and all corruptions (bit flips, truncation, extension, splicing)",
 "crypto_test does not build here and tries a few sizes and one tampering.",
 [I+"crypto.h",S+"crypto.cc"],[("AES-256-GCM with authentication tag, gzip",S+"crypto.cc")],["SymmEncrypt","SymmDecrypt","Compress","Uncompress"])
p("C17","Secret sharing and dispersal recover the data from any threshold of parts",
 "Splitting data into N shares with threshold K, by secret sharing or by dispersal, gives N parts such that any K of them in any order recover exactly the original data (for secret sharing also any more than K). Combinations with N below 3, K below 2 or K above N are refused as invalid arguments. Fewer than K parts do not recover the data and a share does not show it; dispersing the same data again gives the same parts, each of about 1/K of its size. No parts, or malformed ones, lead to an error or other data, never to a crash or a read outside of the parts.",
 ["inputs","configurations"],"all data sizes, all N and K, all subsets and orders of shares",
 "crypto_test tries one configuration; the subsets and thresholds form a combinatorial space.",
 [I+"crypto.h",S+"crypto.cc"],[("SecretShareData/SecretRecoverData/InfoDisperse/InfoRetrieve",S+"crypto.cc")],["the four functions' results"])
p("C18","RSA: only the matching private key decrypts or signs; encodings round-trip",
 "Data of any size encrypted to a public key is recovered by the matching private key, and by no other key or after any corruption. A signature made over data or over a file with a private key is accepted for exactly those bytes with the matching public key, and rejected if the data, signature or key differ; signing or verifying in memory and via a file agree, and signatures and wrapped keys are standard (RSA-PSS with SHA-512, RSA-OAEP) so that other implementations accept them and the other way round. Encoding a key gives its standard DER form, decoding that gives a matching key, keys match exactly if all their numbers are equal, truncated encodings are refused, and malformed keys, missing files or uninitialised arguments are refused with an error without harm.",
 ["inputs","fault_sequences"],"all data contents and sizes, several key pairs, all corruptions of data, signatures, cipher texts and encoded keys",
 "rsa_test does not build here and uses one pair of keys and single corruptions.",
 [I+"rsa.h",S+"rsa.cc"],[("hybrid OAEP + AES, PSS signatures, DER",S+"rsa.cc")],["Encrypt/Decrypt/Sign/CheckSignature/SignFile/CheckFileSignature/EncodeKey/DecodeKey"])
p("C19","Digests match the standards; secrets from credentials are as documented",
 "The SHA-1, SHA-256, SHA-384 and SHA-512 digests of any input, held in any supported container or bounded string, equal the published functions. A secure password is the 48-byte PBKDF2-HMAC-SHA512 key of the password with the salt followed by the label and 10000 + PIN modulo 10000 iterations; the one for user credentials depends on PIN and password but not on the keyword, and the obfuscation of data depends on keyword, PIN and password and is its own inverse for data of any size. Both are the same every time and differ when any credential they use differs. Missing or unfinished credentials are refused as uninitialised or with an error.",
 ["inputs"],"all inputs in all containers, and all credentials, salts, labels and PINs",
 "crypto_test and user_credential_utils_test use fixed vectors and do not build here.",
 [I+"crypto.h",S+"crypto.cc",I+"authentication/user_credential_utils.h",S+"authentication/user_credential_utils.cc",I+"authentication/user_credentials.h"],[("Hash and CreateSecurePassword templates",I+"crypto.h"),("salts, repeated mask",S+"authentication/user_credential_utils.cc")],["crypto::Hash","crypto::CreateSecurePassword","authentication::CreateSecurePassword","authentication::Obfuscate"])
p("C20","Secure input strings follow the documented edit rules and keep their text",
 "A secure input string is a set of pieces of text by position. Inserting at a taken position moves the piece there and all later ones up to the consecutive positions after it; removing takes away the given number of pieces from a position on and closes up the rest; removing none, from a position without a piece or more than there are is refused as an invalid argument and changes no text. Finalising succeeds exactly when the number of pieces satisfies the rule (else outside of bounds) and the positions are 0, 1, 2... without gaps (else invalid argument); then the text, its hash and value are those of the pieces in order, while they are refused before. Editing a finalised string starts from its single characters, clearing empties it, and it is valid for a pattern exactly if it satisfies its rule and every piece matches. The text of a secure string is everything appended to it.",
 ["histories"],"all sequences of insert, remove, clear, finalise and query operations, for the keyword, PIN and password rules",
 "secure_string_test does not build here and runs fixed sequences.",
 [I+"authentication/detail/secure_string.h",S+"authentication/detail/secure_string.cc"],[("encrypted chars by position, finalised flag",I+"authentication/detail/secure_string.h")],["Insert/Remove/Clear/Finalise/IsValid/IsFinalised/string/Hash/Value"])
p("C21","Locked memory: a page stays locked while anything on it needs it",
 "While any protected range that touches a memory page is registered, that page is locked, and it is unlocked exactly when the last such range is released, from whatever threads; a page is never locked twice or unlocked while needed, and the reported number of locked pages is right. All of the memory that safe allocators have handed out is locked, and it is wiped before it is given back, as it is by the zeroing allocators, also when strings grow and shrink.",
 ["histories"],"all sequences of overlapping range registrations and releases of all sizes and alignments, and allocate/free sequences",
 "secure allocator behaviour is only exercised indirectly by secure_string_test, which is not built.",
 [I+"authentication/detail/safe_allocators.h"],[("per-page counters under a mutex",I+"authentication/detail/safe_allocators.h")],["lock/unlock calls on the page locker","content of freed memory"])
p("C22","Identities: exact XOR metric, ordering and encodings",
 "The number of leading bits two identities share equals that of their bytes, is symmetric and is 512 only for equal identities; 'closer to a target' is the strict order given by the XOR distance to the target, never holding both ways and false for equal identities. Encoding an identity in binary, hex or Base64 and making an identity from that text gives the same identity, and text of the wrong size or content is refused. Uninitialised identities are refused wherever bytes are needed.",
 ["inputs"],"all identity pairs and triples, all texts offered as identities",
 "identity_test does not build here and uses a few random identities.",
 [I+"identity.h",S+"identity.cc",S+"identity_common_bits_matrix.h"],[("256x256 common-bits table, CloserToTarget",S+"identity.cc")],["CloserToTarget","CommonLeadingBits","MakeIdentity","Encode"])
p("C23","Serialisation round-trips every supported type and rejects truncated input",
 "Any combination of supported values serialised together and parsed back gives equal values in the same order, whether through byte vectors, strings or streams, and several messages written to one stream are read back one after another. Parsing any strict prefix of a serialised value reports an error, and parsing arbitrary bytes reports an error or yields values without crashing. Serialising equal values gives identical bytes.",
 ["inputs"],"all values and nested combinations of scalars, strings, vectors, maps, optionals, flyweights, paths and addresses, and all byte strings",
 "serialisation tests do not build here and use a few samples.",
 [I+"serialisation/serialisation.h",I+"serialisation/binary_archive.h",I+"serialisation/types/asio_and_boost_asio.h",I+"serialisation/types/boost_flyweight.h",I+"serialisation/types/boost_filesystem.h"],[("binary archives throw on short reads",I+"serialisation/binary_archive.h")],["Serialise/Parse/ConvertToString/ConvertFromString"])
p("C24","Network addresses survive conversion between libraries and serialisation",
 "Converting any IPv4 or IPv6 address or UDP endpoint between the two networking libraries, in either direction, keeps the address bytes, port and scope, and converting back gives the original. Serialising such an address with either library and parsing it with either gives the same family and address bytes, both store the same bytes, and a stored form with an impossible address size is rejected with the parsing error. Converting text to bytes and back gives the original text.",
 ["inputs"],"all addresses, scopes and ports, and all byte strings offered as stored addresses",
 "convert_test and asio_and_boost_asio_test use a few addresses and do not build here.",
 [I+"convert.h",I+"serialisation/types/asio_and_boost_asio.h"],[("ToAsio/ToBoost, address save/load",I+"convert.h")],["convert::ToAsio/ToBoost/ToByteVector/ToString","Serialise/Parse"])
p("C25","Database transactions are atomic: all of a committed one, nothing of any other",
 "After any history of transactions on a database, including ones abandoned by exception or by leaving scope, failing statements, nested attempts, failing writes, reopening, and the process dying, its content is exactly that of the committed ones in order; nobody else sees anything of a transaction before it is committed. A transaction begun while another connection has one waits for that to end, for a limited number of attempts. Values bound to a statement, empty ones included, are read back byte for byte and a statement can be reset and reused. Misuse (bad SQL, bad index, broken constraint, missing or damaged file, a transaction inside another) is reported by the documented error.",
 ["histories","crash_points","fault_sequences"],"all sequences of transactions and statements, and process death between any two database calls",
 "sqlite3_test does not build here; it checks a few inserts and one concurrent case.",
 [I+"sqlite3_wrapper.h",S+"sqlite3_wrapper.cc"],[("Transaction rolls back in its destructor",S+"sqlite3_wrapper.cc")],["rows read back after each history"])
p("C26","Framed TCP messaging delivers every message intact, in order, once",
 "Messages of 1 byte to the 1 MiB limit sent over a connection arrive at the peer complete, unaltered, each once and in sending order, however the bytes are split by the network and in both directions at once; larger or empty messages are refused at the sender. Messages sent by one thread keep their order; this holds for any number of worker threads. A frame announcing more than the limit, or a broken stream, closes the receiving connection and delivers nothing partial. Closing either end invokes each end's closed notification exactly once. On hosts without IPv6 all of this works over IPv4.",
 ["histories","fault_sequences","schedules"],"all sequences of message sizes and contents, all segmentations of the byte stream, all close and fault points",
 "tcp_test does not build here and sends a few messages between well-behaved ends.",
 [I+"tcp/connection.h",S+"tcp/connection.cc",I+"tcp/listener.h",S+"tcp/listener.cc"],[("4-byte big-endian length framing, send queue",S+"tcp/connection.cc")],["message and closed callbacks","bytes on the wire"])
p("C27","Listeners bind the first free port in their documented range",
 "Starting a listener on a desired port binds that port if it is free, otherwise the next free one above it within the documented range, reports the port it is bound to, and accepts loopback connections on it, also after accepting one has failed; when none is free the failed-to-listen error is raised. After it is stopped no further connection is announced and the port can be bound again, and stopping twice is harmless. Connecting to a port nobody listens on fails with the failed-to-connect error.",
 ["configurations","histories"],"all patterns of occupied ports above the desired one, and all orders of start, connect and stop",
 "tcp_test does not build here and only exercises one busy port.",
 [I+"tcp/listener.h",S+"tcp/listener.cc",S+"tcp/connection.cc"],[("retry loop over ports",S+"tcp/listener.cc")],["Listener::MakeShared/ListeningPort/StopListening","Connection::MakeShared"])
p("C28","Shared-memory exchange delivers the parent's strings unchanged",
 "Strings placed in named shared memory by one process are read back by another in the same order and byte for byte, for any content including embedded zero bytes, until the memory is removed. Names do not interfere with each other, creating a name again replaces or refuses but never mixes content, and reading a name that does not exist or more items than were stored is reported as an error.",
 ["inputs","histories"],"all lists of strings that fit, all names, all create/read/remove orders",
 "ipc_test does not build here and uses a few strings and one child process.",
 [I+"ipc.h",S+"ipc.cc"],[("managed shared memory segment, hex-encoded items",S+"ipc.cc")],["CreateSharedMemory/ReadSharedMemory/RemoveSharedMemory"])
p("C29","Console input and menus follow what the user types",
 "Reading a typed value returns the value for well-formed input, and reports the documented error for malformed input or end of input, consuming exactly one line; the prompt and message are shown each time. Asking for a password with confirmation returns the hash of the first pair of equal entries. In a menu, each choice runs exactly the chosen item's action once and moves to its sub-menu if it has one, '99' goes back up, '0' ends it, and invalid choices change nothing.",
 ["histories","inputs"],"all menu trees and all lines typed",
 "cli_test does not build here and tries a few inputs; menus are not tested at all.",
 [I+"cli.h",S+"cli.cc",I+"menu.h",S+"menu.cc",I+"menu_item.h",S+"menu_item.cc"],[("CLI::Get, Menu::Run loop",S+"menu.cc")],["return values, actions run, console output"])
p("C30","File helpers and file names: what is written is what is read",
 "Writing any content to a path and reading it back gives exactly that content, replacing any earlier content; when the file cannot be written or read, fully or at all, this is reported rather than passed over. The file name of a data item is unique to its name and type and converts back to exactly that name and type, and malformed file names are refused. A path given as a program option is handed back exactly if it is, or can be created as, the wanted kind of file, and nothing that exists is changed.",
 ["inputs","fault_sequences"],"all contents and sizes, all data names and types, failing devices and missing paths, all options",
 "utils_test does not build here and writes one file.",
 [I+"utils.h",S+"utils.cc"],[("ReadFile/WriteFile, GetFileName/GetDataNameAndTypeId",S+"utils.cc")],["ReadFile/WriteFile","detail::GetFileName/GetDataNameAndTypeId","GetPathFromProgramOptions"])
p("C31","Random strings, byte-size formatting and version numbers obey their contracts",
 "Random strings, alphanumeric strings, bytes and integers have exactly the requested size or lie in the requested range and alphabet, and depend only on the seed when one is set. Sizes of less than one kilobyte are printed as whole bytes, others with two decimals, rounded, in the first unit of which they come to less than 999.5 (binary: 1023.5), exabytes at most (so 999499 bytes are 999.50 kB and 999500 are 1.00 MB). Version strings of the form major.minor.patch, with one digit for minor and three for patch, map to integers that are strictly ordered like the versions, and anything malformed maps to the invalid version. XOR of equally long strings is taken byte by byte, and refused for others.",
 ["inputs"],"all sizes, ranges and seeds; all 64-bit byte counts; all version strings",
 "utils_test does not build here and checks a few examples.",
 [I+"utils.h",S+"utils.cc"],[("generators, unit loop, tokenised version",S+"utils.cc")],["Random*","BytesToDecimalSiUnits/BytesToBinarySiUnits","VersionToInt"])
p("C32","Tagged values and printable enums behave as the value they wrap",
 "A tagged value compares, orders, copies, moves, prints and serialises exactly as the wrapped value does, and values with different tags do not mix. A printable enumeration prints each enumerator by its declared name and every other value as an invalid value of that enumeration. Making an object on the heap forwards its arguments to the constructor, and making an array gives that many zero-initialised elements.",
 ["inputs"],"all wrapped values and pairs, all integers cast to the enumeration",
 "tagged_value_test does not build here and checks a few pairs.",
 [I+"tagged_value.h",I+"type_macros.h",I+"make_unique.h"],[("operators forwarding to data",I+"tagged_value.h"),("DEFINE_OSTREAMABLE_ENUM_VALUES",I+"type_macros.h")],["operators, stream output"])
p("C33","Logging writes exactly the messages at or above the configured level, in order",
 "With any combination of per-project levels, each message whose level is at or above its project's level is written exactly once, complete, to that project's log file and to the combined file when several projects are enabled, and no other message is written; messages logged one after another appear in that order and none is lost when the process ends normally; written without the background thread, they are in the files when the call returns, even if the process is killed then. Each bears the time it was logged at, to the nanosecond, its severity, thread, project, file and line. Options the logger does not know are handed back unchanged in order.",
 ["configurations","histories","schedules"],"all level configurations, projects, message sequences and thread counts, synchronous and asynchronous",
 "there is no functional test of the log filter or files.",
 [I+"log.h",S+"log.cc"],[("ShouldLog filter, background writer",S+"log.cc")],["log files, console output, returned options"])
p("C34","Profiler counts every profiled scope exactly once",
 "At the end of the process the profiler reports, for every distinct profiled location, exactly the number of times it was recorded, the exact total duration, and the average as total divided by count, whatever threads recorded them. The four listings contain the same entries, ordered by name, call count, average and total respectively. Locations can be copied, moved, assigned and swapped as values, and are ordered by file, then line, then function.",
 ["histories","schedules"],"all multisets of locations and durations recorded from any number of threads",
 "profiler_test prints output without checking it.",
 [I+"profiler.h",S+"profiler.cc",S+"active.cc"],[("entries updated on the background thread",S+"profiler.cc")],["report printed at process end"])
p("C35","Process and configuration facts are reported truthfully",
 "The executable path, directory and application version reported are those of the running program as it was started, asking for the path before it is known is refused, and the configured platform and architecture are reported. A command line is built from its arguments in order with the program quoted once, a process is reported running exactly while it exists, and another program is looked for beside this one. The home directory is the user's, or else the environment's, or none, and application directories are composed from it and the configured names. The local address is the one from which a given peer is reached, or none when that is a loopback or unspecified address or the peer cannot be reached, and the advised number of threads is that of the processors but at least two.",
 ["inputs","histories"],"all argument lists and program paths, live and dead processes, all addresses",
 "config_test checks constants; its executable-path test crashes here and process.cc is not built.",
 [I+"config.h",S+"config.cc",I+"process.h",S+"process.cc",I+"application_support_directories.h",S+"utils.cc"],[("GetLocalIp, Concurrency",S+"utils.cc"),("SetThisExecutablePath",S+"config.cc"),("ConcatenateArgs",S+"process.cc")],["ThisExecutablePath/Dir, ConstructCommandLine, IsRunning"])
p("C36","The visualiser log reports each message once to its file and to its server",
 "Once the visualiser log is initialised, each of its messages is written as one line to its file (time, prefix, session, persona if any, action and values, with identities abbreviated) and posted once to the given server with the same values, identities in full hex; each thread's messages keep their order, and the times are those of logging. This needs no other logging to be set up. With an empty session identifier nothing is written or sent. Uses before initialisation, a second initialisation, identities which are not initialised and enumerators which do not exist are refused by an error. An absent server does not keep messages from the file, and messages logged once it is there arrive; when the server closes its connection at most one message is lost and the next goes over a new one. The report that a vault stopped names its identifier, session and exit code.",
 ["histories","schedules","fault_sequences"],"all messages, from any number of threads, and all ways in which the server answers, closes or is absent",
 "visualiser_log_test does not build here and needs a real server.",
 [I+"visualiser_log.h",S+"visualiser_log.cc",S+"log.cc"],[("GetPostRequestBody, SendToServer, WriteToFile",S+"visualiser_log.cc"),("WriteToVisualiserServer",S+"log.cc")],["VLOG messages, the log file, requests to the server"])
p("C37","The bootstrap file tool keeps and stores the list of endpoints as commanded",
 "Whatever is typed to the tool, the list of endpoints it shows is the one resulting from the commands so far: an endpoint is prepended or appended as asked, and removing one takes the first which is equal and leaves the others in order. Saving writes exactly the listed endpoints, in order, to the file named, and loading a file replaces the list by what that file holds. A malformed address, port or choice is asked for again; a missing, empty, damaged or unwritable file, an endpoint which is not in the list, or declining to lose unsaved changes alters neither the list nor any file, and is not reported as done. The tool ends when told to or at the end of its input.",
 ["histories","inputs"],"all sequences of commands and entries, well-formed or not, and all files offered",
 "the tool has no tests.",
 [S+"tools/bootstrap_file_tool.cc"],[("commands and their policies",S+"tools/bootstrap_file_tool.cc")],["what the tool prints, files it writes"])
p("C38","The signing tool's keys, signatures, encrypted files and key groups work as told",
 "Whatever is typed to the tool: a key it saves is the one it made, loaded or recovered last, and loads again; a signature it stores is found valid for the unaltered file with the matching public key and for nothing else; a file encrypted with a password is restored exactly by decrypting it with that password, and any other password leaves it as it was. A private key shared among 3 or more people is recovered from the files and passwords of any chosen number required of them, not from fewer or with a wrong password, and cannot be saved afterwards. Passwords are asked for until both entries agree. What fails is reported, not reported as done, alters no key and no file, and the tool goes on; it ends when told to or at the end of its input.",
 ["histories","inputs"],"all sequences of commands, entries and passwords, and all files offered",
 "the tool has no tests.",
 [S+"tools/signing_tool.cc",S+"rsa.cc",S+"crypto.cc"],[("commands of the menu",S+"tools/signing_tool.cc")],["what the tool prints, files it writes"])
p("C39","The address-space simulation applies its documented rules and configuration",
 "A node joins the simulated network only if its common leading bits with its close group, computed as documented for the chosen algorithm, are fewer than those of the group plus the leeway; adding it changes nothing about other nodes but the rank of those close to a candidate. The group around an address is that of the closest nodes by XOR distance, and counts as bad exactly if at least the required majority of it are bad. The simulation ends with at least the wanted number of bad groups, which have no node in common, after adding the configured number of good nodes with each bad one, around 1024 evenly spaced addresses. An attempt on linked random addresses succeeds exactly if the groups around all of them, each address the SHA-512 of the one before, are bad. Values given in the configuration file named, or else beside the program, are used and others have their defaults, which are written beside the program if there is no file; a damaged file is reported.",
 ["inputs","configurations"],"all networks, candidates, addresses and configurations",
 "the tool has no tests.",
 [S+"tools/address_space_tool.cc",S+"tools/address_space_tool.h"],[("CandidateCommonLeadingBits, GetBadGroup, InjectBadGroups, GetConfig",S+"tools/address_space_tool.cc")],["nodes added, bad groups returned, configuration used"])
p("C40","Test support: own folders, parallel runs, distinct ports, replicable failures",
 "A test folder is a new, empty one in the temporary folder, named as asked, which goes with all it holds, and nothing else, when its last owner does; if it can't be made, its path is empty. A function run in parallel runs the given number of times in as many other threads at once, all of which have ended on return, and an exception from any is reported. Random ports are at least 1025 and do not repeat within 10000; random addresses are well-formed and of full range. A test program returns 0 exactly if the tests chosen were run and passed, and another code if there were none, the agreed one if the only one is disabled; each test has random numbers of its own, which are the same again when a failed test is run as its report says. The bootstrap file named, or none, is in place at the start of every test.",
 ["histories","configurations","schedules"],"all sequences of creating and releasing folders, thread counts, sets of tests, options and seeds",
 "the helpers have no tests and test.cc does not build here without help.",
 [I+"test.h",S+"test.cc"],[("CreateTestPath, RunInParallel, RandomNumberSeeder, ExecuteGTestMain",S+"test.cc")],["folders, exit codes, numbers drawn in tests, reported seeds"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
print(len(P), max(len(x['title']) for x in P))
