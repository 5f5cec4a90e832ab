#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that it stays valid JSON)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, state=state or [], mechanism=mech,
                               observe_at=observe, hook_needed=hook)))
def m(name, where): return dict(name=name, where=where)

prop("C01", "Flushed writes are visible to every rank, last writer wins",
  "Once a flush of a PUT or DELETE has returned success, every GET of that subject-predicate pair that any rank starts afterwards returns the newest write (or a write concurrent with the GET), with its exact bytes, length and type. A GET never returns a value that was not written to that pair, nor one already overwritten before the GET started; the history of each pair is linearizable.",
  ["schedules", "programs", "histories", "configurations"],
  "for every interleaving of ranks, listener threads, background PUT threads and message deliveries, every program of queued operations and flushes, and every number of ranks, client:server ratio, datastores per server, hash function, listener count and packet limit",
  "The tests run one rank in one process, so no request ever crosses the MPI transport and no two clients or threads race on a datastore; they sample a handful of keys.",
  ["include/hxhim/private/process.hpp", "src/hxhim/ops/FLUSH.cpp", "src/hxhim/ops/impl.cpp", "src/hxhim/hash.cpp", "src/datastore", "include/transport", "src/transport"],
  [m("per-datastore FIFO packet queues, popped one per round", "include/hxhim/private/process.hpp"), m("one mutex per datastore around every operation", "src/datastore/datastore.cpp operate()"), m("deterministic placement by hash", "src/hxhim/hash.cpp")],
  ["results returned by Flush*/Sync"])
prop("C02", "Every queued operation yields exactly one result, matched to it",
  "Each accepted operation (single or bulk, any kind) appears exactly once in the results of exactly one later flush of its kind, carrying the subject and predicate the caller queued, its own operation type, and the identity of the datastore that served it. No result is lost, duplicated, attributed to a different operation, or reported twice across flushes. An operation that cannot be delivered (null transport, or a server outside the endpoint group) still yields its result, with an error. All of this holds for the C++ and the C interface alike.",
  ["schedules", "programs", "configurations"],
  "for every program of PUT/GET/GETOP/DELETE/HISTOGRAM calls in single and bulk form over any topology and packet limits, and every schedule",
  "The tests flush one or two operations against one datastore; packets split over several datastores of one remote server, multi-round processing and many clients are never run.",
  ["include/hxhim/private/process.hpp", "src/hxhim/Results.cpp", "include/transport/backend/MPI/EndpointGroup.tpp", "include/transport/backend/local/RangeServer.hpp", "src/message"],
  [m("response carries the caller's original pointers back", "src/message/*.cpp orig"), m("AddAll converts each response entry to one result", "src/hxhim/Results.cpp")],
  ["results returned by Flush*/Sync", "hxhim_results_size"])
prop("C03", "Outcome is independent of topology, tuning and backend",
  "A program whose concurrent operations do not conflict produces the same statuses and objects for every operation whatever the number of ranks, client:server ratio, datastores per server, placement hash, number of listener threads, packet limits, transport and storage backend. These settings change where and how data moves, never what the caller observes (one exception: whether deleting an absent pair is reported as an error is up to the storage backend).",
  ["configurations", "programs", "schedules"],
  "for every pair of valid configurations and every conflict-free program, under every schedule of either run",
  "The tests fix one rank, one datastore per server and default limits; only options parsing is varied.",
  ["src/hxhim/init.cpp", "src/hxhim/Datastore.cpp", "src/hxhim/RangeServer.cpp", "src/transport/backend/MPI/Init.cpp", "include/hxhim/private/process.hpp"],
  [m("datastore id -> rank/offset mapping", "src/hxhim/Datastore.cpp"), m("endpoint map", "src/transport/backend/MPI/Init.cpp")],
  ["results returned by Flush*/Sync"])
prop("C04", "Remote requests and responses are delivered intact to the right peer",
  "Each request sent to another rank is processed there exactly once and its response reaches the client thread that issued it, complete and unmodified, for any payload size. Requests and responses of different clients, of different listener threads of one server, and of a client's foreground and background threads never mix, truncate or overwrite each other.",
  ["schedules", "configurations", "inputs"],
  "for every delivery order and delay MPI permits (per-pair, per-tag FIFO only), any number of clients, listeners per server and datastores per server, and payloads from empty-adjacent to many kilobytes",
  "The transport tests construct endpoints without ever exchanging a message between two ranks.",
  ["include/transport/backend/MPI/EndpointGroup.tpp", "src/transport/backend/MPI/RangeServer.cpp", "src/transport/backend/MPI/EndpointGroup.cpp", "src/message/Packer.cpp", "src/message/Unpacker.cpp"],
  [m("size message then data message from the same source on separate tags", "src/transport/backend/MPI/RangeServer.cpp recv"), m("round of parallel sends followed by a round of parallel receives", "include/transport/backend/MPI/EndpointGroup.tpp")],
  ["wire messages at the MPI calls", "results returned by Flush*"])
prop("C05", "A successful Sync makes earlier writes survive power loss",
  "When a collective Sync has reported success for a datastore, every write whose flush finished before that Sync (or was part of it) is still readable, exactly, after any later crash or power loss and reopen with the same datastores. Writes not yet synced are afterwards either fully present or absent; nothing is garbled, nothing deleted and synced comes back, and no value older than the synced one reappears.",
  ["crash_points", "schedules", "histories", "fault_sequences"],
  "for every crash point (between and inside storage operations), every subset of unsynced bytes lost or torn, every program, topology and persistent backend",
  "No test crashes the process or drops unsynced data; reopening is tested once, cleanly.",
  ["src/hxhim/ops/SYNC.cpp", "src/datastore/datastore.cpp", "src/datastore/LevelDB.cpp", "src/datastore/RocksDB.cpp"],
  [m("Sync flushes, meets in a barrier, then issues a synchronous write on each local datastore", "src/hxhim/ops/SYNC.cpp"), m("synchronous empty batch forces the log to disk", "src/datastore/LevelDB.cpp SyncImpl")],
  ["results of GETs after reopen", "Sync results"])
prop("C06", "Close then Open preserves everything, in the same job or a new one",
  "After all ranks Close a session, opening it again with the same number of datastores - in the same running job or in a new one, any number of times - finds every flushed write, sees no deleted pair, and behaves as a fresh session (no stale messages, results or queued work from the previous one). Close itself makes flushed data durable against later power loss.",
  ["schedules", "histories", "crash_points", "configurations"],
  "for every schedule of ranks entering and leaving Open and Close, any number of sessions, every topology, with and without a crash after Close",
  "OpenClose tests open and close once on one rank without checking data of a previous session over MPI.",
  ["src/hxhim/hxhim.cpp", "src/hxhim/destroy.cpp", "src/hxhim/init.cpp", "src/transport/backend/MPI/RangeServer.cpp", "src/datastore/datastore.cpp"],
  [m("ordered teardown with a barrier", "src/hxhim/hxhim.cpp Close"), m("datastore Close syncs before releasing the backend", "src/datastore/datastore.cpp Close")],
  ["results in the next session", "open return codes"])
prop("C07", "Background PUTs are equivalent to foreground PUTs",
  "With background PUTs enabled at any threshold, every PUT is applied exactly once and in queue order, and its result is returned by the next flush of PUTs exactly once; after that flush all earlier PUTs are readable. Once at least the threshold number of PUTs is waiting, they are sent without a flush. Foreground operations running at the same time are unaffected.",
  ["schedules", "programs", "configurations"],
  "for every interleaving of the background thread with queueing, flushing, closing and other foreground operations, and every threshold and topology (several datastores per server included)",
  "background_put.cpp runs a few PUTs on one rank and one schedule decided by the host.",
  ["src/hxhim/init.cpp", "src/hxhim/private.cpp", "src/hxhim/ops/FLUSH.cpp", "src/hxhim/ops/PUT.cpp", "src/hxhim/ops/BPUT.cpp", "src/hxhim/ops/single_type.cpp"],
  [m("puts mutex and start_processing condition", "src/hxhim/init.cpp async_put_thread"), m("wait_for_background_puts forces the thread to drain twice", "src/hxhim/private.cpp")],
  ["results of FlushPuts/Flush", "later GETs"])
prop("C08", "Every API call and session shutdown terminates",
  "With all ranks alive and messages eventually delivered, Open, every queueing call, every flush, Sync, the collective changes and Close return within a bounded number of steps on every rank, whatever order ranks reach them and whatever other ranks are still doing. In particular a rank that closes early never strands ranks that still have work for it.",
  ["schedules", "programs", "configurations", "fault_sequences"],
  "for every schedule, delay, stall of a rank or thread and spurious wake-up, every program and topology",
  "Hangs need a second rank or an unlucky thread order; the tests have neither.",
  ["src/hxhim/hxhim.cpp", "src/hxhim/private.cpp", "src/hxhim/init.cpp", "src/transport/backend/MPI/RangeServer.cpp", "include/transport/backend/MPI/EndpointGroup.tpp"],
  [m("polling loops end on completion or on the running flag", "src/transport/backend/MPI/RangeServer.cpp Flush"), m("condition variables with predicates", "src/hxhim/private.cpp")],
  ["return of each call in simulated steps"])
prop("C09", "Storage errors are reported and never corrupt data",
  "If the storage under a datastore fails (write, sync, rename, open or read error, disk full), affected operations report an error and unaffected ones keep working; an operation reported as successful really took effect, and a synced write survives. After the fault clears and the session is reopened, each pair holds either its last acknowledged value or one of a failed write, never anything else, and no call crashes or hangs.",
  ["fault_sequences", "schedules", "histories", "crash_points"],
  "for every placement and kind of injected disk fault, combined with schedules, crashes and reopen",
  "No test makes storage fail.",
  ["src/datastore/LevelDB.cpp", "src/datastore/RocksDB.cpp", "src/datastore/datastore.cpp", "src/datastore/datastores.cpp", "include/transport/backend/local/RangeServer.hpp", "src/hxhim/ops/SYNC.cpp"],
  [m("backend status mapped to per-operation status", "src/datastore/LevelDB.cpp"), m("unusable datastore handling", "src/datastore/datastore.cpp operate")],
  ["statuses in results", "GETs after reopen"])
prop("C10", "Range reads are ordered, contiguous, bounded and true",
  "A GETOP returns at most the requested number of records, each a pair currently stored on the queried datastore with its current object, in strictly ascending (FIRST, NEXT, LOWEST) or descending (LAST, PREV, HIGHEST) key order without skipping a stored pair. EQ returns exactly the named pair or an error; LOWEST and HIGHEST return only pairs with the given prefix starting from its low or high end; FIRST and LAST start at the ends of the datastore; when nothing matches no record is invented.",
  ["programs", "histories", "schedules", "configurations"],
  "for every content of a datastore (empty included), every operation, prefix, count (zero included), packet split and concurrent traffic to other pairs, on every backend, locally and remotely",
  "The tests scan one fixed 10-triple data set on one rank with a few counts.",
  ["src/datastore/InMemory.cpp", "src/datastore/LevelDB.cpp", "src/datastore/RocksDB.cpp", "include/datastore/datastore.tpp", "src/datastore/datastore.cpp", "src/hxhim/Results.cpp", "src/message/BGetOp.cpp"],
  [m("key layout subject+predicate+0xff+lengths+types", "src/datastore/triplestore.cpp"), m("iterators and prefix tests", "src/datastore/*.cpp BGetOpImpl")],
  ["results of FlushGetOps"])
prop("C11", "DELETE removes exactly its pair, for good",
  "After the flush of a DELETE returned success the pair reads as absent on every rank until it is put again, also after Sync, crash and reopen, Close and reopen, or a datastore-name round trip. Deleting never affects any other pair, including pairs whose concatenated subject and predicate look alike, and deleting an absent pair changes nothing.",
  ["histories", "schedules", "crash_points", "configurations"],
  "for every program mixing PUT and DELETE on similar pairs, every schedule, crash point, topology and backend",
  "Each datastore test deletes once on one datastore and checks directly.",
  ["src/datastore/InMemory.cpp", "src/datastore/LevelDB.cpp", "src/datastore/RocksDB.cpp", "src/datastore/triplestore.cpp", "src/message/BDelete.cpp"],
  [m("lengths and types appended to the key keep look-alike pairs distinct", "src/datastore/triplestore.cpp"), m("batched delete under the datastore mutex", "src/datastore/LevelDB.cpp")],
  ["results of FlushDeletes and later GETs"])
prop("C12", "Histograms count every matching successful PUT once, and persist",
  "The sum of a histogram's bucket counts over all datastores equals the number of successful PUTs of a float or double object whose predicate is the histogram's name (once the first values are cached and turned into buckets; later values below the smallest bucket edge belong to no bucket and are not counted), whatever ranks and threads issued them. With persistence enabled, a histogram read back after Sync, Close and reopen or a datastore-name round trip is the one that was written, and an unknown name yields an error.",
  ["schedules", "histories", "configurations", "crash_points"],
  "for every program, topology, schedule, background PUTs on or off, sessions and crashes after a Sync",
  "Histogram tests add values directly on one rank; concurrency, remote histograms and several datastores are untested.",
  ["src/datastore/datastore.cpp", "src/utils/Histogram.cpp", "src/hxhim/ops/BHISTOGRAM.cpp", "src/message/BHistogram.cpp", "src/datastore/LevelDB.cpp"],
  [m("update under the datastore mutex after a successful PUT", "src/datastore/datastore.cpp operate(BPut)"), m("serialised under a reserved subject", "src/datastore/LevelDB.cpp WriteHistogramsImpl")],
  ["results of FlushHistograms"])
prop("C13", "Changing the datastore name switches data sets without leaking or losing",
  "After the collective name change returns, reads and writes on every rank see only the data set of the new name; operations queued before it are completed against the old one and their results returned. Switching back (or reopening under the old name) shows the old data set exactly as it was left.",
  ["schedules", "histories", "crash_points", "configurations"],
  "for every sequence of name changes interleaved with operations, every schedule of ranks, topology, backend that persists, and background PUTs on or off",
  "ChangeDatastoreName.cpp runs one rank and one switch.",
  ["src/hxhim/hxhim.cpp", "src/datastore/datastore.cpp", "src/datastore/datastores.cpp"],
  [m("Sync, barrier, change, barrier", "src/hxhim/hxhim.cpp ChangeDatastoreName"), m("close before open", "src/datastore/datastore.cpp Change")],
  ["results before and after the change"])
prop("C14", "Changing the hash is a clean collective switch",
  "The collective hash change first completes and syncs everything queued, then every rank places pairs by the new function on the datastores belonging to it; later operations on any rank are mutually visible and correctly placed, and a fresh or previously used data set of that hash name is opened on every datastore exactly once. Changing back shows the data written under the earlier name where that name addresses the same data set.",
  ["schedules", "histories", "configurations"],
  "for every sequence of hash changes, topology (several datastores per server included), schedule and persistent backend",
  "No test calls it.",
  ["src/hxhim/hxhim.cpp", "src/hxhim/hash.cpp", "src/hxhim/Datastore.cpp"],
  [m("Sync, barrier, reopen, barrier", "src/hxhim/hxhim.cpp ChangeHash")],
  ["results after the change", "data sets opened"])
prop("C15", "Request packets respect the configured limits",
  "No request packet holds more operations than the configured maximum per request, and no packet of more than one operation is larger than the configured maximum size. Splitting over packets preserves the order of operations for a datastore and drops or duplicates none.",
  ["programs", "configurations", "schedules"],
  "for every pair of limits (operations 1 and up, sizes from below one operation up, zero meaning unlimited), every mix of sizes and types of data and every kind of operation, background PUTs on or off",
  "enqueue.cpp checks a few fixed shapes in one process and never what is sent.",
  ["src/hxhim/ops/impl.cpp", "src/message/Message.cpp", "src/datastore/datastore.cpp", "include/hxhim/private/process.hpp"],
  [m("setup_packet opens a new packet when full", "src/hxhim/ops/impl.cpp")],
  ["request packets at the transport", "results"])
prop("C16", "A PUT stores exactly the requested permutations",
  "A PUT of a triple with a set of permutations stores one record for each permutation in the set and no other, each readable under its own subject-predicate order with the remaining element as object and all types preserved. It yields one result per stored record, wherever the records are placed.",
  ["inputs", "configurations", "schedules"],
  "for every set of permutations and mix of data types, in single and bulk form, over any topology and schedule, background PUTs on or off",
  "Tests use SPO, with one test of permutations on one rank.",
  ["src/hxhim/ops/impl.cpp", "include/hxhim/constants.h", "src/hxhim/ops/PUT.cpp", "src/hxhim/ops/BPUT.cpp"],
  [m("loop over HXHIM_PUT_PERMUTATIONS", "src/hxhim/ops/impl.cpp PutImpl")],
  ["results of flushes and GETs of every order"])
prop("C17", "No memory error or lost memory under any schedule or fault",
  "No operation, schedule, fault or shutdown order makes the library read or write memory it does not own, use caller buffers after the flush that consumed them returned, free twice, or dereference null. Request, response and result objects are all released once results are destroyed and the session closed, so that repeating a workload does not accumulate memory.",
  ["schedules", "programs", "fault_sequences", "configurations"],
  "for every program, topology, schedule and storage fault",
  "The tests are not run under a memory checker and never run the remote request, response and error paths.",
  ["src/message", "src/hxhim/Results.cpp", "src/transport/backend/MPI", "include/transport/backend", "src/datastore", "src/utils/Blob.cpp"],
  [m("ownership passed by move/steal between packets and results", "src/message/*.cpp steal"), m("reference blobs for caller data", "src/utils/Blob.cpp")],
  ["address sanitizer and allocation accounting inside the simulated process"])
prop("C18", "Open either succeeds on all ranks or fails cleanly on all",
  "If any rank cannot open its datastores, Open returns an error on every rank, releases everything it acquired (threads, messages, storage locks), and does not damage stored data; opening again after the cause is gone succeeds and shows the data stored before.",
  ["fault_sequences", "schedules", "configurations"],
  "for every rank and storage operation at which opening can fail, every topology, schedule and persistent backend",
  "No test fails an Open on a rank while others succeed.",
  ["src/hxhim/hxhim.cpp", "src/hxhim/init.cpp", "src/hxhim/destroy.cpp", "src/datastore/datastores.cpp"],
  [m("error path of Open", "src/hxhim/hxhim.cpp Open")],
  ["return codes of Open", "results after a later successful Open"])
prop("C19", "Threads share session state without data races",
  "The caller's thread, the background PUT thread and the listener threads of a session never access the same session state at the same time without synchronisation when at least one of them writes it.",
  ["schedules", "programs", "configurations"],
  "for every program, topology, number of listeners, background threshold and schedule",
  "Races need several threads in one session doing work at once; tests run one listener-less rank on one schedule without a race detector.",
  ["src/hxhim/init.cpp", "src/hxhim/private.cpp", "include/hxhim/private/process.hpp", "include/transport/backend/MPI/EndpointGroup.tpp", "src/transport/backend/MPI/RangeServer.cpp", "src/hxhim/Stats.cpp", "src/datastore/datastore.cpp"],
  [m("mutexes on the PUT queue, results and datastores; atomic running flag", "include/hxhim/private/hxhim.hpp")],
  ["instrumented memory accesses with vector clocks in the simulator"])
prop("C20", "User transform functions decide the stored form, and their refusals are honoured",
  "With transform functions set for a data type, every subject, predicate and object of that type is encoded on its way into a datastore and decoded on its way out, on every datastore, rank, backend and session, so that reads return what was written; the functions set last are the ones used, with the extra arguments given for them, and data of other types is stored as without them. When an encoding function refuses an element, exactly that operation reports an error and nothing of it is stored, deleted or counted; when a decoding function refuses stored data, or stored data cannot be decoded (numbers stored with other symbols or other widths), the GET or GETOP that meets it reports an error instead of returning wrong data or ending the program. Range reads follow the order of the encoded form.",
  ["inputs", "programs", "schedules", "configurations"],
  "for every mix of types with and without user functions, every set of refused elements among single and bulk operations, local and remote datastores, backends, schedules and restarts",
  "No test sets transform functions through the API, and none refuses anything.",
  ["src/datastore/datastore.cpp", "src/hxhim/init.cpp", "src/hxhim/options.cpp", "include/datastore/transform.tpp", "include/datastore/datastore.tpp", "src/datastore/InMemory.cpp", "src/datastore/LevelDB.cpp", "src/datastore/RocksDB.cpp"],
  [m("callbacks looked up by data type around every access to the backend", "src/datastore/datastore.cpp encode, decode"), m("defaults overridden per type at Open", "src/hxhim/init.cpp transform")],
  ["results of flushes", "contents read back after reopening"])
prop("C21", "A session uses the settings its configuration sources name",
  "A session that reads its configuration takes each setting from the last source that names it: built-in defaults, then hxhim.conf in the working directory, then the file named by HXHIM_CONFIG, then HXHIM_* environment variables, then calls of the setters. A source that is missing or names only some settings leaves the others at their earlier values. Reading always terminates, keeps values with blanks whole, never crashes on a value it cannot use, and gives a session that behaves exactly as one in which the same values were set through the API: same datastores and files, placement, packet limits, listeners, background PUT threshold, endpoint group, histograms and number encoding.",
  ["inputs", "configurations", "schedules", "histories"],
  "for every way of spreading settings over the sources (overriding, partial, missing, with blanks, comments and spellings that are allowed), every topology, backend, schedule and restart; HASH is only read together with TRANSPORT MPI",
  "Tests parse streams and never open a session from a configuration file, nor combine sources.",
  ["src/hxhim/config.cpp", "include/hxhim/private/config.hpp", "src/utils/Configuration.cpp", "include/utils/Configuration.hpp", "src/hxhim/options.cpp"],
  [m("ConfigSequence: sources are read in order, later ones override", "src/hxhim/config.cpp, src/utils/Configuration.cpp"), m("parse functions per setting", "src/hxhim/config.cpp")],
  ["return code of reading", "introspection calls", "results and packets of the session", "datastore files"])
prop("C22", "Instances answer truthfully and refuse what their state does not allow",
  "On every rank of an open session the accessors agree with the session that runs: ranks and communicator size, numbers of clients, range servers and datastores, ratios, where each datastore lives (rank and offset), the hash in use also after a change, which predicates have histograms. A running session refuses every setting and a second Open and stays as it was. An instance that is uninitialised, not yet open, already closed, or NULL refuses operations, flushes, collective calls, accessors and Close with an error and without crashing, and a refused call has no effect. A setter called with an invalid value reports an error and leaves the earlier value in force. OpenOne works only in a job of one process and reads and writes exactly the datastore it names. Results belong to the caller: they stay readable and unchanged until destroyed, also while later operations run and after Close.",
  ["histories", "configurations", "schedules"],
  "for every topology, configuration, backend, order of setting, opening, using, reopening and closing, and schedule of the ranks",
  "Tests check a few accessors on one rank with one datastore and the trivial refusals of some setters.",
  ["src/hxhim/accessors.cpp", "src/hxhim/options.cpp", "src/hxhim/private.cpp", "src/hxhim/hxhim.cpp", "src/hxhim/ops/FLUSH.cpp", "src/hxhim/Results.cpp", "include/hxhim/private/accessors.hpp"],
  [m("hx->p->running guards setters and operations", "src/hxhim/options.cpp, src/hxhim/ops"), m("valid() checks of the instance", "src/hxhim/private.cpp"), m("results own copies of what they show", "src/hxhim/Results.cpp")],
  ["return codes", "accessor outputs", "results read again later"])
prop("C23", "Timing records and statistics account for every operation",
  "Every result carries the timing record of its own operation: hashing and queueing lie inside the call that queued it; packing, sending, receiving and unpacking follow in that order, as far as the operation got when it could not be delivered; the result is made after that and before the flush returns, and GETs, GETOPs, DELETEs and HISTOGRAMs are sent after their flush began. The first operation of each request packet, and no other, carries the allocation of the packet, made in the call that queued that operation; the records of one GETOP share the timing of the first. No timestamp precedes the epoch of the session, which is the same through C and C++. The summary logged at Close counts every single and every bulk call under its own kind with durations no longer than the calls took, every request packet under the datastore it went to, and an average fill which accounts for all operations sent. A datastore that is closed for good logs how many PUTs and reads it performed, and at least as many bytes as they stored and returned.",
  ["histories", "schedules", "configurations"],
  "for every program, topology, packet limit, background threshold, undeliverable destination and schedule",
  "Tests check that single timestamps exist for a transport stub; none relates them to the operation they belong to, and the counts depend on how calls, packets and background flushes interleave.",
  ["src/hxhim/Results.cpp", "src/hxhim/Stats.cpp", "src/hxhim/ops", "src/hxhim/accessors.cpp", "src/hxhim/hxhim.cpp", "src/utils/Stats.cpp", "src/message/Message.cpp", "src/datastore/datastore.cpp", "include/hxhim/private/process.hpp", "include/transport/backend/local/RangeServer.hpp", "include/transport/backend/MPI/EndpointGroup.tpp"],
  [m("timestamps travel with the request and are handed to the response", "src/message/Message.cpp, include/transport/backend/MPI/EndpointGroup.tpp return_timestamps"), m("counters under a mutex of the statistics", "include/hxhim/private/process.hpp")],
  ["Results::Timestamps", "GetEpoch", "summary logged at Close"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), "properties")
