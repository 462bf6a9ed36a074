"""The properties; tools/gen.py turns them into properties.jsonl and MANIFEST.json."""
PROPS = []


def P(id, title, statement, over, quant, why, files, mech, technique=None, note=None, na=None, observe=()):
    d = dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech, observe=list(observe))
    if na:
        d["na"] = na
    else:
        d.update(technique=technique, note=note)
    PROPS.append(d)


P("P02", "A datastore never reports a failed item as successful, nor the reverse",
  "In a bulk PUT, GET or DELETE, every request item gets exactly one response that refers to that item's own subject and predicate, in the order of the request. An item is answered with success only if every step for it succeeded (encoding, key building, lookup or storing, decoding, the batch write), and an item one of whose steps failed is answered with an error even if the rest of the batch succeeds. PUT stores the encoded object with its type under the key of the encoded subject and predicate; GET returns the decoded object with its stored type.",
  ["inputs", "fault_sequences"], "every request size and content, and every combination of per-item encode/lookup/decode and batch-write failures",
  "the tests PUT and GET a handful of items whose encoding never fails and whose batch writes never fail",
  ["src/datastore/InMemory.cpp", "src/datastore/LevelDB.cpp", "src/datastore/RocksDB.cpp", "src/datastore/datastore.cpp"],
  [("per-item status and response", "src/datastore/*.cpp: BPutImpl, BGetImpl, BDeleteImpl")],
  "interprocedural path-sensitive typestate analysis of each backend's bulk operations over clang's CFG, with provenance of keys, values and response references",
  "all CFG paths of every backend's three bulk operations (loops abstracted, callees inlined); success/error assignment checked against the steps done on the path; batched statuses followed across the two loops by valuation")

P("P08", "Every message survives the wire: what is packed is what is unpacked",
  "For every kind of request and response message, unpacking a packed message yields a message of the same kind with the same header, item count and items (all fields of each item, in the same order), and the buffer is read exactly as far as it was written. The same holds for blobs, remote blob references and histograms, including null and empty ones.",
  ["inputs"], "every message kind, item count, operation, status, type tag and blob content, including null and empty blobs",
  "the message tests pack a few fixed messages with 10 items; they never pack null blobs, failed items, mixed operations or histograms with every bucket layout",
  ["src/message/Packer.cpp", "src/message/Unpacker.cpp", "src/utils/Blob.cpp", "src/utils/Histogram.cpp", "include/utils/little_endian.hpp"],
  [("per-kind pack and unpack routines", "src/message/Packer.cpp, src/message/Unpacker.cpp"), ("blob wire format", "src/utils/Blob.cpp"), ("histogram wire format", "src/utils/Histogram.cpp")],
  "format inference: the event automaton of each packer and of its unpacker (width, field, order, loop, condition) is extracted from the CFG and the two languages compared for equality, per message kind and per valuation of the tag fields",
  "field order, width, presence conditions, counts, allocation sizes and cursor movement are decided for all inputs; malformed (foreign) packets are out of scope")

P("P09", "A message's announced size equals the bytes packed for it",
  "The serialized size a message keeps while items are added equals the number of bytes its packing writes: header, every item's fields and every nested result list are each counted once, and the item count grows by exactly one per added item. Buffers allocated from this size are therefore never overrun nor truncated.",
  ["inputs", "histories"], "every message kind and every sequence of items added to it",
  "tests compare sizes for a few fixed messages; the sum must match for every item, status and type combination",
  ["src/message/*.cpp", "include/message/*.hpp", "src/message/Packer.cpp"],
  [("size accumulation on add", "src/message/*.cpp: add, update_size"), ("bytes written", "src/message/Packer.cpp")],
  "symbolic byte accounting over the CFG: the size expression of each add routine is compared, term by term, with the multiset of writes of the packer",
  "per-item and header sizes as multisets of field sizes, for every message kind")


OPFILES = ["src/hxhim/ops/*.cpp", "include/hxhim/hxhim.h", "include/hxhim/single_type.h", "include/hxhim/double.h", "include/hxhim/float.h"]

P("P04", "Public operations validate arguments and report truthfully what was queued",
  "Every public operation (PUT, GET, GETOP, DELETE, HISTOGRAM; single, bulk, typed; C and C++) queues an item only after checking that the session is open and that every pointer (and length, for single operations) the item needs was given; a call that fails such a check returns HXHIM_ERROR and queues nothing. It returns HXHIM_SUCCESS only if every item was accepted (a datastore was chosen for each and the permutation was known), and HXHIM_ERROR only if something was wrong.",
  ["inputs", "configurations"], "every combination of missing arguments, of hash results, and of bulk items that cannot be placed",
  "the tests pass a handful of null arguments to a few single operations; bulk operations with items whose hash fails are not exercised",
  OPFILES, [("argument checks of the public operations", "src/hxhim/ops/*.cpp"), ("queueing", "src/hxhim/ops/impl.cpp")],
  "interprocedural path-sensitive typestate analysis of every public operation over the CFG: which arguments were tested on the path to each add(), and how the returned status relates to the failed tests",
  "all CFG paths of the 50 public operations, callees inlined down to the packets' add(); arguments are identified by their position and type in the signature")

P("P05", "What is queued is exactly what the caller passed, once, for the right datastore",
  "For each item of an accepted operation exactly one entry (per requested permutation for PUT) is queued, of the kind the operation is named after, holding the caller's own subject, predicate and object (pointer, length and type), number of records and traversal operation of the same position of the arrays; the fixed-type variants queue the type and size they are named after. The datastore is chosen by hashing that same subject and predicate. Every item from 0 to count-1 is visited once and in order.",
  ["inputs"], "every operation, array size and argument value",
  "tests check a few items of a few operations; swapped lengths, types or positions that happen to coincide in the test data go unnoticed",
  OPFILES, [("forwarding of arguments", "src/hxhim/ops/*.cpp"), ("hash and queue", "src/hxhim/ops/impl.cpp")],
  "interprocedural provenance analysis: every value reaching a packet's add() is traced to the parameter (and loop index) it came from, per public operation, and the queue to the arguments of the hash call",
  "the provenance of every argument of every add() call reachable from each of the 50 public operations; loop bounds and steps over the caller's arrays")

P("P10", "A PUT stores exactly the requested permutations of its triple",
  "For every subset of permutation bits, a PUT queues one entry for each requested permutation and none for the others, and the entry of a permutation holds the triple in the order the permutation is named after (e.g. HXHIM_PUT_POS stores predicate, object, subject).",
  ["inputs", "configurations"], "every combination of the permutation bits, single and bulk, generic and typed",
  "tests put with one or two fixed permutation sets",
  ["src/hxhim/ops/impl.cpp", "src/hxhim/hxhim.cpp", "include/hxhim/constants.h"], [("permutation selection", "src/hxhim/ops/impl.cpp: PutImpl"), ("permutation table", "src/hxhim/hxhim.cpp: HXHIM_PUT_PERMUTATIONS")],
  "path-sensitive typestate analysis correlating the tested permutation bit, the switch valuation and the provenance of the queued triple on every path of every PUT operation",
  "all paths of the 8 PUT operations; meaning of a permutation taken from the names of the public constants")

P("P35", "Request packets respect the configured limits and keep the queueing order",
  "An item is added to the newest packet of its datastore's queue only if that packet has a free slot and, when a size limit is configured, the packet including the whole item stays within the limit; otherwise a new packet with the configured number of slots is appended to that queue and receives the item.",
  ["inputs", "configurations", "histories"], "every operation and every setting of the maximum operations and maximum size per request",
  "tests use one setting; overflow of a packet's arrays needs a particular fill history",
  ["src/hxhim/ops/impl.cpp"], [("packet selection", "src/hxhim/ops/impl.cpp: setup_packet, new_request")],
  "interprocedural typestate analysis of the queue/packet protocol on every path from a public operation to a packet's add()",
  "all paths of the 50 public operations; the size check is required to mention every blob of the item")

P("P01", "Every queued operation is executed exactly once, at the rank of its datastore",
  "Flushing takes every queued request, from the front of its datastore's queue, sends it exactly once to the rank that owns the datastore (this rank's own range server if it is this rank), and adds everything that is answered to the returned results; no request is lost, displaced by another one for the same rank, sent twice, or freed before it was sent, and flushing does not end while requests are queued.",
  ["inputs", "configurations", "histories"], "every set of queues, number of packets per queue and placement of datastores on ranks",
  "the tests run on a single rank with one datastore, so no request is ever sent to another rank and no two datastores share one",
  ["include/hxhim/private/process.hpp", "src/hxhim/ops/FLUSH.cpp"], [("request collection and sending", "include/hxhim/private/process.hpp: process, remaining")],
  "interprocedural typestate analysis of the request life cycle (queued, taken, addressed, sent, answered, freed) on every path of every instantiation of the flush loop",
  "all CFG paths of the five instantiations of process() with helpers inlined; contents of containers abstracted to holds/does not hold requests of this round")

P("P32", "Ranks, range servers and datastores map onto each other consistently",
  "For every client/server ratio, number of ranks and number of datastores per range server, converting a rank to its range server id and back, or a range server and offset to a datastore id and back, gives the original, ids are dense from zero, and invalid ids, ranks without a server and zero ratios are refused. A request is routed to the rank and the datastore its datastore id denotes.",
  ["configurations", "inputs"], "every ratio, world size, datastores per range server and id",
  "the tests use fixed ratios and one rank; an off by one at the end of the range or in one direction only shows at particular combinations",
  ["src/hxhim/RangeServer.cpp", "src/hxhim/init.cpp", "src/hxhim/accessors.cpp", "src/transport/backend/local/RangeServer.cpp", "src/datastore/constants.cpp"], [("id arithmetic", "src/hxhim/RangeServer.cpp"), ("totals and ds_to_rank", "src/hxhim/init.cpp")],
  "symbolic comparison of the arithmetic each mapping function returns on each guarded path against its specified form and inverse; dominance of ratio-zero and range checks",
  "all paths of the mapping functions and their callers in routing; the arithmetic is compared as normalised terms, not by solving")

P("P34", "Hashing always picks an existing datastore, and the same one for the same key",
  "An item is queued only for a datastore that exists whatever the hash function answers, and every hash function supplied with the library answers the id of an existing datastore, determined by the key and by values that stay fixed while the session is open. The hash function registered for a session is the one that is called, with its own arguments.",
  ["inputs", "configurations"], "every key, every hash function, every number of datastores",
  "the tests hash a few keys with one datastore, for which every id is right",
  ["src/hxhim/hash.cpp", "src/hxhim/ops/impl.cpp", "src/hxhim/init.cpp"], [("bounds check before queueing", "src/hxhim/ops/impl.cpp"), ("supplied hash functions", "src/hxhim/hash.cpp")],
  "path-sensitive range and effect analysis: the returned term of every supplied hash function on every path, its dependences, and dominance of the bounds check over every use as queue index",
  "all paths of the supplied hash functions and of the functions that index the queues; user-supplied hash functions are only bounded, not examined")

P("P06", "Every answered item becomes one result of its kind with its own data and status",
  "Adding a response to the results yields exactly one result per item, in order, of the operation the item belongs to; it succeeds exactly if the item's status does and carries that item's subject, predicate and, only if it succeeded, its object or histogram. A GETOP item becomes one list with exactly one entry per record, in order, with no entry dropped, invented or freed. Moving an item between responses (as splitting and merging answers does) moves all of its fields and counts it once.",
  ["inputs", "histories"], "every response, number of items, mixture of statuses and number of records",
  "the tests look at single items that succeed; an index mix-up, a dropped last record or data attached to failed items needs mixed batches",
  ["src/hxhim/Results.cpp", "src/message/"], [("conversion", "src/hxhim/Results.cpp: Result::init, AddAll"), ("moving items", "src/message/B*.cpp: steal")],
  "provenance dataflow of every result field back to the response array, index and status it came from, and a shape analysis (summarised linked list) of the GETOP record list, on every path",
  "all paths of the conversion functions; the list is abstracted to its first entry, the entries variables point to and a summary of complete ones")

P("P24", "No state is raced on with the background PUT thread",
  "While the thread that sends PUTs in the background runs, no part of the session (queues, counters, held back results, statistics, transport) is used by it and by a call of the application at the same time with one of them changing it, unless both hold a common lock; what is only read by both, or atomic, needs none. Unsent PUTs and their results are therefore never lost, duplicated or corrupted by timing.",
  ["schedules"], "every interleaving of the background thread with every public call",
  "the tests run PUT and flush from one thread with few items; a race needs an interleaving they do not produce and usually shows as nothing at all",
  ["src/hxhim/init.cpp", "src/hxhim/private.cpp", "src/hxhim/destroy.cpp", "src/hxhim/ops/*.cpp", "include/hxhim/private/process.hpp"], [("background thread", "src/hxhim/init.cpp: async_put_thread"), ("locks", "include/hxhim/private/hxhim.hpp: async_puts.mutex, queues.puts.mutex, stats.mutex, transport.mutex")],
  "interprocedural lockset analysis: every access to session state reachable from the thread function and from each public function, with the set of locks held on that path and whether the thread can be running; conflicting pairs must share a lock",
  "all paths of the background thread and of every public function, each function explored once per set of locks and thread state it can be entered with; what objects behind pointers do is covered only where their class has its own lock (P20)")

P("P25", "Waiting for the background PUT thread neither deadlocks nor misses a wake-up",
  "Locks are taken in one global order, never twice by the same thread, and released exactly once on every path. A thread waits only with the lock of the condition it waits for and no other, where there is a thread to wake it (or the session is stopping), and checks the condition again; a wait that can happen while the instance is being closed ends because it is; every change that may end another thread's wait is followed by a notification with the waiter's lock held at or after the change.",
  ["schedules"], "every interleaving of the background thread with every public call, including opening and closing",
  "a lost wake-up or a deadlock needs a particular interleaving of two threads",
  ["src/hxhim/init.cpp", "src/hxhim/private.cpp", "src/hxhim/destroy.cpp", "src/hxhim/ops/*.cpp"], [("waiting for the background thread", "src/hxhim/private.cpp: wait_for_background_puts"), ("waiting for work", "src/hxhim/init.cpp: async_put_thread"), ("notifications", "src/hxhim/ops/PUT.cpp, BPUT.cpp, single_type.cpp")],
  "lock-order graph and path-sensitive typestate analysis of locks, waits and notifications; the truth table of each wait predicate is extracted to decide which writes may end a wait",
  "all paths of the background thread and of every public function; that the work in between ends is not decided")

P("P20", "Operations on one datastore are carried out one at a time",
  "Operations on a datastore (PUT, GET, GETOP, DELETE, HISTOGRAM, sync, statistics) that reach it from different threads never use its state (the backend, the histograms, the statistics) at the same time with one of them changing it, unless both hold a common lock, and each operation releases the lock on every path.",
  ["schedules"], "every interleaving of operations arriving from the caller, the background PUT thread and remote ranks, for every backend",
  "the tests use a datastore from one thread",
  ["src/datastore/datastore.cpp", "src/datastore/InMemory.cpp", "src/datastore/LevelDB.cpp", "src/datastore/RocksDB.cpp"], [("the datastore lock", "src/datastore/datastore.cpp: operate, Sync, GetStats")],
  "interprocedural lockset analysis over the public operations of the datastore base class with the implementations of every backend inlined through virtual dispatch",
  "all paths of the public operations and every backend's implementation; opening, closing and registering histograms are documented to happen while no operation runs and are left out")

P("P03", "Success at one layer is success at the next",
  "The layers of the library (datastores, messages, transport, histograms, MPI, application interface) report success and failure with different values. Wherever the outcome of a step is tested, stored as the status of an item or result, or returned to the application, it is interpreted and expressed in the values of the right layer, so that no success is taken for a failure or the reverse; callbacks supplied by the application answer, as documented, with the application's values. No status is used as a truth value, since failures are nonzero too.",
  ["inputs", "fault_sequences", "configurations"], "every call whose status is looked at, whatever it answers",
  "most steps never fail in the tests, so a test against the wrong layer's constant that happens to be never true goes unnoticed, and MPI and user callbacks are not exercised at all",
  ["src/", "include/"], [("statuses of the layers", "include/*/constants.hpp, include/hxhim/constants.h, include/utils/Histogram.h"), ("translation", "src/hxhim/Results.cpp, src/hxhim/destroy.cpp, src/datastore/datastore.cpp")],
  "interprocedural inference of status domains (which layer's constants a function, variable, field, parameter or callback can hold) over the typed syntax tree, checked at every comparison, store, return and branch",
  "all functions of the library including templates and the MPI transport; expressions whose domain cannot be inferred (e.g. statuses unpacked from a message) are taken to be right")

P("P12", "A range server answers every request with its own response",
  "A request of any kind that reaches a range server is handed, as its own kind, to the datastore its destination names, exactly once, and the response that results is the one given back: it is addressed to the request's sender and comes from its destination. When nothing comes of it (the datastore gives no answer) the sender still gets a response of that kind, without items. A request from another rank that could be read is served exactly once and its packed response is sent to the response's destination; what could not be received, read, served or packed is never used.",
  ["inputs", "fault_sequences"], "every request kind, every destination, every failing step between receiving and answering",
  "the tests run one rank on the local transport with datastores that always answer, so remote service, failing steps and several datastores per server are never seen",
  ["include/transport/backend/local/RangeServer.hpp", "src/transport/backend/local/RangeServer.cpp", "src/transport/backend/MPI/RangeServer.cpp", "src/datastore/datastore.cpp"],
  [("dispatch on the kind of request", "src/transport/backend/local/RangeServer.cpp: range_server"), ("one request on one datastore", "include/transport/backend/local/RangeServer.hpp: range_server<Request, Response>"), ("requests from other ranks", "src/transport/backend/MPI/RangeServer.cpp: listen"), ("carrying out", "src/datastore/datastore.cpp: operate")],
  "path-sensitive typestate analysis of the request/response life cycle (received, read, served, packed, sent) with helpers inlined; per-kind dispatch tables extracted from the class hierarchy and the source",
  "all request kinds, all paths of the range servers that are compiled here (local and MPI; Thallium is not part of this build)")

P("P21", "A histogram counts every PUT that belongs to it once, in the right bucket",
  "An item of a PUT is added to a histogram of its datastore exactly if it was stored, its predicate is text that names the histogram, and its object is a float or a double, as the number it is. A value added to a histogram is kept while fewer than the configured number came before it; when that many have arrived the buckets are made from exactly the kept values and each of those is counted once; every later value is counted once. A value is counted in the last bucket whose left end is not above it (a value below all buckets is in none), and the upper end of the buckets is the largest value counted.",
  ["inputs", "histories"], "every sequence of PUTs and every number of values kept before the buckets are made (none included)",
  "the tests add ten to a hundred positive values of one type from successful PUTs",
  ["src/datastore/datastore.cpp", "src/utils/Histogram.cpp"], [("which items are counted", "src/datastore/datastore.cpp: operate(BPut)"), ("one value", "src/utils/Histogram.cpp: add, insert, gen_counts")],
  "path-sensitive typestate analysis per item and per value: the conditions on every path (status, types, lookups, comparisons of counters as linear relations) must imply that exactly the required additions happen on it",
  "all paths; how well the generated buckets fit the data (statistical quality of the bucket rules) is not decided; bucket choices not made by a binary search of the left ends are taken to be right")

P("P14", "GETOP returns the records its operator means",
  "For each operation of a GETOP request and on every backend: EQ returns the one record whose key has the subject and predicate, NEXT and PREV the records from the first key not below it upwards or downwards, FIRST and LAST those from the start or the end of the datastore, LOWEST and HIGHEST those that have the prefix from its lower end upwards or from its upper end downwards; one after the other, none skipped or repeated, as long as there are some and not more than asked for. The operation fails exactly if there is no record to start with (for EQ, LOWEST and HIGHEST: none with the prefix) or its subject and predicate cannot be encoded or a record cannot be decoded, and is then answered once with its subject and predicate. Every returned record is the decoded subject, predicate and object of one entry.",
  ["inputs", "histories"], "every content of the datastore, every list of operations, keys, data types and numbers of records, on each backend",
  "the tests look at a handful of records with a few operators on one backend",
  ["src/datastore/InMemory.cpp", "src/datastore/LevelDB.cpp", "src/datastore/RocksDB.cpp", "src/datastore/datastore.cpp", "include/datastore/datastore.tpp"],
  [("walk", "InMemory/LevelDB/RocksDB::BGetOpImpl"), ("start and end of a prefix", "Datastore::BGetOp_get_seek, BGetOp_get_seek_end"), ("answers", "BGetOp_loop_init, BGetOp_copy_response, BGetOp_error_response")],
  "path-sensitive typestate analysis of the cursor or iterator of each backend (how it was placed, whether it is known to stand on an entry, whether the entry is known to have the prefix, how it was moved since the last record) together with the slot, the bound and the status of the operation; origin analysis of the parts of a record, of the room of an answer and of the keys that are looked for",
  "all paths of the three backends, RocksDB included although it is not built here; relies on the documented contracts of std::map and of the cursors of LevelDB and RocksDB; that the order of the encoded keys is the order of the values they stand for is not decided")
P("P22", "Histograms are kept with their datastore and answered by name",
  "A histogram request gets one answer for each name, in order: the histogram of that name with success, or no histogram with an error. When a datastore is closed and histograms are to be written, every one is written, packed, under the key of its name before the datastore is closed, and success is reported only if that worked; a closed datastore keeps none of them in memory. Reading looks only under these keys, and each histogram that is there and can be unpacked replaces the one of its name. After the start of an instance or a change of the datastore's name, each datastore has, for every configured histogram name (unless missing ones are not to be created), a histogram: the stored one if it was to be read and exists, otherwise a new one.",
  ["inputs", "histories"], "every set of histogram names, every order of opening, closing, and changing datastores, and every backend that is built",
  "the tests write and read one histogram once for each backend",
  ["src/datastore/datastore.cpp", "src/datastore/datastores.cpp", "src/datastore/LevelDB.cpp", "src/datastore/InMemory.cpp", "src/hxhim/hxhim.cpp"],
  [("answers", "src/datastore/datastore.cpp: operate(BHistogram)"), ("written and read", "WriteHistogramsImpl, ReadHistogramsImpl"), ("life", "Datastore::Open, Close, Change"), ("configured names", "Datastore::Init, hxhim::ChangeDatastoreName")],
  "path-sensitive typestate analysis over the loops of the backends (each histogram written/read exactly under its key), the order of sync, close, open and read on every path, and the loops over the configured names",
  "all paths; ChangeHash starts with new datastores and reads no histograms, which its documentation leaves open; whether unpacking is robust against damaged data is not decided")

P("P07", "Results give out the current result, what its kind has and nothing else",
  "The accessors of results refer to the current result and fail, giving nothing out, when there is none (no results, past the last one). Operation, status and range server are those of the current result, whatever its kind. Subject and predicate are given for results of PUT, GET, GETOP and DELETE, an object for a GET or a GETOP that succeeded, a histogram for a HISTOGRAM that succeeded; asking any other kind, or one that failed, fails. What is given out is the part that was asked for, of that result, with its length and its type. Going to the head makes the first result the current one, going on makes the next one current and is reported to succeed exactly if there is one.",
  ["inputs", "histories"], "every sequence of results of every kind and every order of moving and asking",
  "the tests walk results of successful operations and ask each for what it has",
  ["src/hxhim/Results.cpp", "include/hxhim/Results.hpp"], [("accessors", "src/hxhim/Results.cpp: hxhim::Results::*, hxhim_results_*, hxhim_result_*")],
  "path-sensitive analysis of each accessor with helpers inlined: every output and every success must be covered by the checks of position, kind and status made on its path; origin analysis of what is given out",
  "all paths of all accessors; the values of the parts are those of the response (decided by P02 and P05)")

P("P31", "Options are kept as they were given, until the instance runs",
  "Setting an option of an instance that does not exist, is not initialized or is running fails and changes nothing; so does giving it a value it does not take. A setter that succeeds has stored every value it was given, unchanged and in its own option, replacing what was set before; numbers are refused only for being zero, negative or unknown. The exceptions are containers (endpoints, tracked predicates), to which the value is added.",
  ["inputs", "histories"], "every sequence of settings, with any values, before and after opening",
  "the tests set each option once with one value before opening",
  ["src/hxhim/options.cpp"], [("setters", "src/hxhim/options.cpp: hxhim_set_*, hxhim_add_*, hxhim_clear_*, hxhim_datastore_histograms")],
  "path-sensitive typestate analysis of every setter (which checks of the instance hold, which options have been written from which arguments) and a comparison of the options written by different setters",
  "all paths of all setters; whether several options fit together is not decided, nor which names and enumerators are accepted (beyond failing without a change)")

P("P28", "An instance is open exactly if everything it needs was started",
  "Opening starts the parts of an instance so that each has what it needs: ranks are known before datastores and transport, the instance runs and has its datastores before the transport answers requests, queues exist before the thread that uses them. It reports success only if every part was started and all ranks got that far; a part that could not be started is reported as a value that is not that of success. An instance that could not be opened is closed, after the other ranks were met if they are known. An instance that does not exist, was not initialized or is running already is neither started nor touched; one datastore is opened by one rank only.",
  ["fault_sequences", "inputs"], "every part that may fail to start, on every rank, and every state an instance may be in when it is opened",
  "the tests open instances of which every part starts",
  ["src/hxhim/hxhim.cpp", "src/hxhim/init.cpp", "include/hxhim/constants.h"], [("order and cleanup", "src/hxhim/hxhim.cpp: Open, OpenOne"), ("failures of parts", "src/hxhim/init.cpp: hxhim::init::*")],
  "path-sensitive typestate analysis of opening (which parts were tried, which succeeded, whether the ranks met, whether the instance was closed) on every path, with helpers inlined; of every part: no status of a step unseen, no failure reported as success",
  "all paths; that every rank fails at the same step is not decided")

P("P29", "Closing stops everything and releases everything once",
  "Closing an instance stops it, wakes and waits for the thread that sends PUTs if there is one, and only then releases queues and results; no request can come in any more when datastores are closed; every datastore is closed before it is released; every queued request, every datastore, the transport and results nobody asked for are released once; the instance itself is released last and not used afterwards. This works from every state in which an instance can be, opened or not; closing one that does not exist fails without touching it.",
  ["schedules", "histories"], "every state in which an instance is closed (not opened, opening failed at any step, requests queued, results pending), every number of datastores and queued requests",
  "the tests close instances that are open and have nothing queued",
  ["src/hxhim/hxhim.cpp", "src/hxhim/destroy.cpp", "src/transport/transports.cpp", "src/datastore/datastores.cpp"], [("order", "src/hxhim/hxhim.cpp: Close"), ("parts", "src/hxhim/destroy.cpp: hxhim::destroy::*; Transport::destroy; Datastore::destroy")],
  "path-sensitive typestate analysis of closing with all its parts inlined, including the loops over queues and datastores (each element released before the next)",
  "all paths; how a transport stops its own threads is part of P12; PUTs that were not flushed are dropped, which is taken to be intended")

P("P33", "The hash and the datastores are changed by all ranks together",
  "Changing the hash or the name of the datastores of a running instance answers all requests made before, lets all ranks meet, makes the change, and lets all ranks meet again before it returns the results of these requests; no change is made outside of that. Afterwards the given hash (name, function, arguments) or base name is in effect and every datastore of the rank has been changed once, to a name made from what was given and its own id. The C functions hand on everything they are given. An instance that does not run is not touched.",
  ["schedules", "histories"], "every number of datastores and ranks, and every interleaving of the ranks",
  "the tests change names with one rank and one datastore",
  ["src/hxhim/hxhim.cpp"], [("changes", "src/hxhim/hxhim.cpp: ChangeHash, ChangeDatastoreName")],
  "path-sensitive typestate analysis of both changes (synced, barriers passed, options set, datastore of the loop changed) and origin analysis of the new names",
  "all paths; collisions of names made from different hash names are not decided")

P("P15", "A stored key gives back the subject and predicate it was made of",
  "The key of a subject and a predicate is the bytes of the subject, the bytes of the predicate, an end mark 0xff, both lengths and both types, and nothing else, in a buffer of exactly that size: different subject/predicate pairs have different keys and records with the same leading bytes stay together. Taking a key apart gives back subject and predicate with their bytes, lengths and types, for all lengths including 0 and all contents; the parts own copies of the bytes exactly if copies were asked for. A stored value is the object's bytes followed by its type, and reading it gives back both.",
  ["inputs"], "every subject, predicate and object of every length, content and type",
  "the tests make and split keys of two short strings; they do not vary lengths, types or copying",
  ["src/datastore/triplestore.cpp", "src/datastore/datastore.cpp", "src/utils/Blob.cpp"], [("keys", "src/datastore/triplestore.cpp: sp_to_key, key_to_sp"), ("values", "src/datastore/datastore.cpp: append_type, remove_type; Blob::pack_size")],
  "symbolic layout analysis: on every path, which bytes of the buffer are filled with what, with offsets as linear sums of the lengths; the segments must tile the allocated buffer, and every read of the inverse function is resolved against these segments",
  "all paths and all lengths, on little-endian machines; keys read from a damaged database are not covered")

P("P16", "Values are transformed by the functions of their type, the same both ways",
  "What is stored of a subject, predicate or object is what the encode function registered for its type makes of it, and what is returned is what the decode function of the same type makes of that: with their own extra data; copied as a whole if the type has no function; refused if the type is not known; failing exactly if the function fails. By default every number type is encoded and decoded as the same C type with the same symbols, with the precision set for it, from all of its bytes and into memory of the right size, and bytes and pointers are copied both ways. Functions and numeric settings given in the options replace the defaults in the instance.",
  ["inputs"], "every type, every value, every set of functions and numeric settings given in the options",
  "the tests transform a few numbers with default settings; no test has a function fail or replaces a default",
  ["src/datastore/datastore.cpp", "src/datastore/transform.cpp", "include/datastore/transform.tpp", "src/hxhim/init.cpp"], [("use", "src/datastore/datastore.cpp: Datastore::encode, decode"), ("defaults", "src/datastore/transform.cpp: default_callbacks; include/datastore/transform.tpp"), ("options", "src/hxhim/init.cpp: init::transform")],
  "path-sensitive typestate analysis of lookup and call (direction, type, function pointer, extra data, status), pairing of the registered template instantiations by their type arguments, and origin analysis of the arguments in every instantiation",
  "all paths and instantiations; that the digits elen produces order and read back like the numbers they stand for is arithmetic on unbounded strings and not decided")

P("P26", "Results of PUTs sent in the background are handed over exactly once",
  "The background thread takes everything queued at once, leaves an empty queue with a place for every datastore before others can queue, sends what it took exactly once and keeps its results with those not fetched yet before it tells those who wait; it stops only with nothing taken left unsent. FlushPuts waits for the PUTs being sent and those queued since, then returns the kept results once followed by those of the PUTs it sends itself; queued PUTs are dropped only when the instance is closed.",
  ["schedules", "histories"], "every interleaving of queueing, background sending, flushing and closing",
  "the tests queue a few PUTs and flush; a result lost or returned twice needs the thread to be in the middle of a batch",
  ["src/hxhim/init.cpp", "src/hxhim/private.cpp", "src/hxhim/ops/FLUSH.cpp"], [("sending", "src/hxhim/init.cpp: async_put_thread"), ("waiting", "src/hxhim/private.cpp: wait_for_background_puts"), ("fetching", "src/hxhim/ops/FLUSH.cpp: FlushPuts")],
  "path-sensitive typestate analysis of the queue, the kept results and the wait protocol, with the locks held on each path and bounded counting of the waiting rounds",
  "all paths of the three functions and their helpers; that the thread is scheduled at all is not decided")

P("P40", "Encoded numbers order and read back like the numbers they stand for",
  "For any two numbers of a type, the encodings compare as byte strings like the numbers compare, and decoding an encoding gives the number back to the requested precision.",
  ["inputs"], "every pair of integers and floating point numbers and every choice of symbols and precision",
  "the elen tests sample a few dozen numbers",
  ["src/utils/elen.cpp", "include/utils/elen.tpp", "src/datastore/transform.cpp"], [("encoding", "include/utils/elen.tpp")],
  na="it is arithmetic on digit strings of unbounded, recursively encoded length and on the rounding of floating point formatting; no dataflow or type argument bounds that. P16 decides that the pair of functions of the right type is used")

P("P41", "PUTs that were answered with success survive a crash",
  "A PUT that was reported as successful is found again after the process or the machine stopped at any later point and the datastores were opened again.",
  ["crash_points"], "every crash point after a response",
  "the tests never stop a process",
  ["src/datastore/LevelDB.cpp", "src/datastore/RocksDB.cpp"], [("writes", "src/datastore/LevelDB.cpp: BPutImpl")],
  na="what is durable when a write returns is decided inside LevelDB, RocksDB and the file system, none of which is source in this repository; hxhim does not ask for synchronous writes and documents no durability")

P("P42", "Every flush ends",
  "Every flush returns after finitely many steps provided all ranks keep serving requests.",
  ["schedules"], "every schedule of the ranks and of the background thread",
  "a single rank with few items always ends",
  ["include/hxhim/private/process.hpp", "src/hxhim/private.cpp"], [("rounds", "include/hxhim/private/process.hpp: process")],
  na="termination depends on fair scheduling, on MPI and on other ranks' progress; statically only the safety half is decided (P25: no deadlock or lost wake-up, P01: every round takes at least what it sends)")

P("P43", "All ranks reach the collective calls together",
  "Opening, closing, flushing statistics and changing the hash or the datastores make every rank of the communicator take part in the same collective calls in the same order.",
  ["schedules", "histories"], "every combination of what ranks do and fail at",
  "the tests run one rank",
  ["src/hxhim/hxhim.cpp"], [("collectives", "src/hxhim/hxhim.cpp: Sync, ChangeHash, ChangeDatastoreName")],
  na="which calls the application makes on other ranks, and failures that hit only some of them, are outside the source; the part that is the library's own order of collective calls is decided under P33 and P28")

P("P44", "Histogram buckets describe the values they were built from",
  "The buckets a histogram generates cover the values of its first PUTs, and the counts of buckets approximate the distribution of the values to the rule's documented accuracy.",
  ["inputs", "histories"], "every sequence of values",
  "the tests use a few short sequences",
  ["src/utils/Histogram.cpp"], [("generators", "src/utils/Histogram.cpp")],
  na="it is a statistical statement about floating point arithmetic over whole value sequences; the structural part (each value counted once, in the bucket its comparisons select) is decided under P21")

P("P38", "An open instance tells about itself what was asked, and changes nothing",
  "Asking an instance for its rank, communicator and size, the number of range servers and datastores, the client to server ratio, the place of a datastore, the hash, the existence of a histogram or the time it was opened gives exactly that through every pointer that is not null and succeeds; an instance that is not open (for the time: does not exist), a datastore that does not exist and an answer with nowhere to put it are refused without looking into the instance; nothing of the instance is changed.",
  ["inputs", "configurations"], "every accessor, C and C++, every combination of null pointers, every state of the instance",
  "the tests ask a few of them on an open instance with all pointers given",
  ["src/hxhim/accessors.cpp", "src/hxhim/private.cpp"], [("accessors", "src/hxhim/accessors.cpp"), ("open or not", "src/hxhim/private.cpp: started")],
  "path-sensitive typestate analysis with provenance: on every path, which tests of the instance and the pointer come before a write through it, and which field the value comes from",
  "all paths of the eight accessors in C and C++, helpers inlined; the print buffer and the per-datastore statistics are not covered")

P("P36", "The data of a blob is freed by exactly one owner",
  "A blob that owns its data frees it exactly once, when it is destroyed, deallocated or given other data, and one that only refers to data never frees it. A reference to a blob never owns, moving hands ownership over and leaves the source empty, copied data is owned by the copy, unpacked data is owned exactly if it was copied; assigning a blob to itself changes nothing; what a blob tells about its data, length and type is what it was made of.",
  ["inputs", "histories"], "every sequence of making, copying, moving, assigning, unpacking and destroying blobs",
  "a leak or a double free usually passes the tests unnoticed",
  ["src/utils/Blob.cpp"], [("ownership", "src/utils/Blob.cpp: constructors, assignments, dealloc, unpack")],
  "path-sensitive typestate analysis of pointer, length, type and ownership of both blobs, with the freeing of old data, through delegated constructors and inlined members",
  "all paths of the members of Blob; that the pointer given to an owning blob is not freed elsewhere is not decided")
