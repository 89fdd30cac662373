import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","Acknowledged writes survive crash and reopen and read back exactly",
"Once a put or delete has been acknowledged, every later get of that key, on the same handle, through another bee on the same core, or after the process crashed at any point and the storage directory was opened again, returns exactly the latest acknowledged value (with the sequence number the write reported) or absence, unless a later write superseded it. The old and new sequence numbers returned by put and delete always name the block that held the previous value and the block that holds the new one. Opening an existing store never changes or loses what is in it.",
["histories","crash_points","inputs"],
"every history of puts, deletes, compare-and-swaps and gets over any byte keys and values (empty, binary, absent value), with crashes and reopens at any point, trees of any shape and height, through the plain handle and through sub handles",
"The unit tests replay a handful of fixed orders of decimal keys on one in-memory instance; none crashes, reopens mid-history, mixes absent values with deletes, or checks sequence numbers along the way.",
["src/put.rs","src/del.rs","src/tree.rs","src/blocks.rs","src/lib.rs","src/hb.rs"],
[("append of one block per write before returning","src/blocks.rs Blocks::add_changes"),("root is always node 0 of the last block","src/tree.rs Tree::get_root"),("search path / binary search","src/lib.rs nearest_node, get_index_of_key"),("open without overwrite","src/tree.rs Tree::from_storage_dir")],
[("core log","append-only blocks; the only durable state","hypercore (simulated)"),("block cache","decoded blocks by sequence number, never evicted","src/blocks.rs Blocks::cache")],
["return values of get/put/del","blocks in the log","state after reopen"])

p("C02","A write that fails takes effect entirely or not at all",
"If a put, delete or compare-and-swap returns an error (storage failure, full disk, a core that may not be written), then from then on either the whole write is visible or none of it is, in agreement with the log; a failed write whose block did not reach the log is never visible to any later read. A failed read changes nothing. When the fault is gone the same handle serves every operation correctly again, without being reopened.",
["fault_sequences","histories"],
"every placement of read errors, append errors before or after the block became part of the log, full-disk periods and read-only cores inside any history of operations on any tree shape",
"No test injects a storage error or uses a core that may not be written; all run on infallible memory storage.",
["src/put.rs","src/del.rs","src/blocks.rs","src/tree.rs"],
[("in-progress changes collected before append","src/changes.rs Changes"),("error propagation with ?","src/put.rs, src/del.rs, src/blocks.rs"),("nodes obtained from the shared cache","src/blocks.rs Blocks::get")],
[("cached tree nodes","nodes shared between all operations on the handle","src/blocks.rs Blocks::cache")],
["results of operations after a failed one","log contents"])

p("C03","Concurrent operations on one bee are linearizable",
"Any number of tasks may call get, put, delete, compare-and-swap and version at the same time on one shared bee and on sub handles made from it (and read through other bees on the same core), and every call behaves as if it happened at one instant between its start and its return, in an order that all calls agree on. No acknowledged write is lost or applied twice, and no read sees a state that never existed.",
["schedules","histories"],
"every interleaving of the tasks at lock acquisitions and storage waits, cold or warm cache, contended or disjoint keys",
"All tests await one call at a time; there is no test with two operations in flight on one handle.",
["src/put.rs","src/del.rs","src/tree.rs","src/hb.rs","src/prefixed.rs","src/blocks.rs"],
[("tree and block locks","src/hb.rs Hyperbee::tree, src/tree.rs Tree::blocks"),("sequence number taken from the core's length","src/put.rs, src/del.rs"),("cache fill","src/blocks.rs Blocks::get")],
[("core length","decides both the root and the next sequence number","src/tree.rs Tree::version")],
["invocation and return events with log length","log contents"])

p("C04","Compare-and-swap decides on the current value and is atomic",
"The function given to a compare-and-swap put or delete is called at most once, with exactly the entry (sequence number, key, value) that is current at the moment the operation takes effect, and for a put with the entry that would be written. If it returns false nothing is written and the result says so; if it returns true the write takes effect with no other write to the bee in between. Hence of several swaps racing from the same observed value at most one succeeds.",
["schedules","fault_sequences","histories"],
"every interleaving of compare-and-swap puts and deletes with each other and with plain writes, with read and append errors, on present and absent keys",
"The two unit tests call four swaps in sequence on one key with constant functions; none races and none looks at the arguments.",
["src/put.rs","src/del.rs","src/hb.rs","src/prefixed.rs"],
[("lookup, comparison and append in one call","src/put.rs put_compare_and_swap, src/del.rs del_compare_and_swap")],
None,["arguments and results of the comparison function","log contents"])

p("C05","Every committed version is a valid B-tree",
"Every block appended by a write or delete describes a complete, valid B-tree holding exactly the live keys of that version: keys strictly ascending throughout the tree, all leaves at the same depth, at most 8 keys per node, at least 4 in every node except the root, one more child than keys in internal nodes, and no internal node without keys. Every reference in it points to an existing node or key at or before that block. This holds for every version, whatever failed, was cancelled, crashed or ran concurrently before it.",
["histories","schedules","fault_sequences","crash_points"],
"every appended block in every history of inserts, replacements and deletes (splits, rotations and merges in both directions, cascades, root growth and collapse) under any interleaving and faults",
"check_tree runs on two fixed shuffles of 100 keys, in memory, one operation at a time, and does not check references, uniform depth or older versions.",
["src/put.rs","src/del.rs","src/changes.rs","src/blocks.rs"],
[("split","src/put.rs Node::split"),("rotate / merge / repair","src/del.rs Side, repair_one, repair"),("parent reference update","src/put.rs propagate_changes_up_tree"),("node reordering","src/blocks.rs reorder_nodes")],
None,["the encoded block, decoded independently"])

p("C06","Blocks are byte-identical to the reference Hyperbee format",
"The bytes of the header and of every block depend only on the sequence of writes that took effect, and equal what the JavaScript Hyperbee algorithm and wire format produce for that sequence: same node contents, same choice of split, rotation, merge and replacement key, same node order, same field encoding. Cache contents, reopening, failed or cancelled operations, other readers and interleaving never change them. Conversely a log produced by the reference algorithm is read and extended correctly.",
["histories","schedules","fault_sequences"],
"every sequence of effective writes, under every history of reopens, failures, cancellations and interleavings that leads to it",
"The JavaScript comparison tests cover a few fixed ranges without faults and need npm packages; the other tests never look at the bytes.",
["src/blocks.rs","src/put.rs","src/del.rs","src/changes.rs","src/schema.proto","src/tree.rs"],
[("depth-first renumbering of changed nodes","src/blocks.rs reorder_nodes"),("wire schema","src/schema.proto"),("repair order and replacement-key choice","src/del.rs repair_one, replace_removed_internal_key_with_a_key_from_leaf")],
None,["bytes passed to the core's append"])

p("C07","Exactly one block per effective write, exactly one header, nothing else",
"The log begins with exactly one header block, created before the first entry, by the first put that is attempted (even one whose condition then refuses) or by an explicit header creation, which fails if the log is not empty. Every write or delete that takes effect appends exactly one block carrying its key and value; operations without effect (gets, traversals, deleting an absent key, refused swaps, failed writes not in the log) append nothing. The version is the number of blocks and never decreases.",
["histories","schedules","fault_sequences","crash_points"],
"every history including racing first writes and header creations, failures of the header append, crashes between header and first entry, cancellations and retries",
"Tests only write sequentially on fresh memory storage and never look at how many blocks an operation appended, except two seq assertions.",
["src/tree.rs","src/put.rs","src/del.rs","src/blocks.rs"],
[("header check before first write","src/tree.rs get_root, ensure_header, create_header"),("single append per change set","src/blocks.rs add_changes")],
None,["log contents","version()"])

p("C08","A traversal yields exactly the keys in range of one version, in order",
"A traversal yields every key of the bee within its bounds exactly once with its sequence number and value, ascending or (reversed) descending, honouring inclusive and exclusive bounds whether or not the bound is a key, and then ends. What it yields is the state of one single version, current when the traversal was created, no matter which writes happen while it is being consumed, and also after the bee or sub bee it was made from has been dropped.",
["schedules","inputs","histories"],
"every tree shape, every pair of bounds, direction and inclusiveness, and every interleaving of the consumption with concurrent writes, deletes and reads",
"Tests traverse two static trees of 10 and 25 keys; no write ever happens while a stream is open.",
["src/traverse.rs","src/keys.rs","src/tree.rs","src/lib.rs"],
[("per-node index iterator and bounds check","src/traverse.rs make_child_key_index_iter, in_bounds"),("nested child streams","src/traverse.rs Traverse::poll_next"),("infinite bounds","src/keys.rs InfiniteKeys")],
None,["items of the stream"])

p("C09","A traversal reports storage errors and always comes to an end",
"If a block needed by a traversal cannot be read, the traversal yields an error item instead of silently leaving out the keys behind it, everything else it yields is still correct and in order, and polling it on until it ends never panics and always ends. A traversal waiting for storage is always woken when the storage answers, however its polls are scheduled.",
["fault_sequences","schedules"],
"every placement of read errors and delays on the blocks a traversal visits, every polling schedule, both directions and any bounds",
"No test has a failing or slow core; a poll never returns Pending for a real reason in the tests.",
["src/traverse.rs","src/blocks.rs"],
[("error items and state machine","src/traverse.rs Traverse::poll_next"),("wake-ups","src/traverse.rs cx.waker().wake_by_ref()")],
None,["items of the stream","wake-ups of the consuming task"])

p("C10","A sub bee sees exactly its own keys and nothing else",
"Operations on a sub bee act on exactly the keys made of its prefix, its separator and the given key: get, put, delete and swaps through it equal the same operation on the full key of the parent, and touch no other key. A traversal of a sub bee yields exactly the keys that begin with prefix plus separator and lie within the given bounds, stripped of prefix and separator, for every prefix and separator, including empty ones, ones ending in 0xff, and ones that are a prefix of each other or of unrelated keys. A sub bee keeps working after the bee it was made from has been dropped.",
["inputs","histories","schedules"],
"all prefixes and separators, all contents of the parent and sibling subs, all bounds, with concurrent writes through parent and siblings",
"Two tests use one prefix with neighbours that do not collide.",
["src/prefixed.rs"],
[("key prefixing","src/prefixed.rs with_key_prefix"),("range of a sub traversal","src/prefixed.rs Prefixed::traverse, increment_bytes")],
None,["results through subs compared with the parent's contents"])

p("C11","Replicas show only real versions of the writer and converge",
"A bee opened on a replicated core shows at any time, for every read that succeeds, the contents of one version the writer really had, never an older one than it showed before; reads needing blocks that have not arrived fail without side effects and succeed later. Once connections stay up, every replica serves the writer's latest contents within a bounded time, whichever side opened the stream and however often streams were cut before. A write attempted on a replica fails and changes nothing anyone can see.",
["fault_sequences","schedules","histories"],
"every order of arrival of blocks, delays, cut and re-added streams, partitions, relays through other replicas, replica restarts, reads racing with replication",
"One test replicates a single key over a perfect in-memory stream.",
["src/hb.rs","src/tree.rs","src/blocks.rs","src/error.rs"],
[("stream handed to the core","src/blocks.rs add_stream"),("blocks immutable, root from current length","src/tree.rs get_root"),("missing block is an error and is not cached","src/blocks.rs get")],
None,["results of reads on the replica against the writer's log"])

p("C12","Damaged or malformed blocks give errors, never panics or hangs",
"If the stored bytes of a block are damaged or malformed in any way (flipped bits, truncation, garbage, well-formed messages with impossible references, missing or odd child references, cycles), every operation still returns in bounded time without panicking. Reads whose path does not touch a damaged block return the correct result, and damage that makes a block undecodable or its references impossible is reported as an error by every read that needs it.",
["fault_sequences","inputs"],
"every corruption of any set of blocks of any tree, at rest or before the next read, followed by any operations",
"No test feeds a damaged block.",
["src/blocks.rs","src/lib.rs","src/error.rs"],
[("decoding","src/blocks.rs BlockEntry::new, make_node_vec, get_tree_node"),("child access","src/lib.rs Children::get_child")],
None,["results of operations over a log with damaged blocks"])

p("C13","Dropping an operation in flight leaves the bee consistent",
"An operation whose future is dropped at any await point (timeout, cancelled task, closed request), or that a panicking comparison function ends, has taken effect entirely or not at all, in agreement with the log. Every other operation, running or later, on the same bee behaves as if it had been one or the other, and nothing stays locked.",
["schedules","fault_sequences"],
"every await point of every operation, with other operations in flight, any tree shape",
"No test drops a future.",
["src/put.rs","src/del.rs","src/tree.rs","src/blocks.rs"],
[("guards released on drop","src/tree.rs, src/blocks.rs"),("nothing visible before append","src/blocks.rs add_changes")],
None,["results after cancellation","log contents"])

p("C14","Every operation completes: no deadlock, livelock or lost wake-up",
"Every operation on a bee, and every item of a traversal, completes within a bounded number of steps once storage answers, whatever other operations are in flight, cancelled or failed. No combination of concurrent operations, including header creation, replication set-up and open traversals, can block each other for ever.",
["schedules","fault_sequences"],
"every interleaving of any mix of operations at lock acquisitions and storage waits, with failed and cancelled operations",
"Tests never have two operations in flight, so no lock is ever contended.",
["src/tree.rs","src/hb.rs","src/put.rs","src/del.rs","src/blocks.rs","src/traverse.rs"],
[("read/write locks on tree, blocks, cache, nodes, children","src/lib.rs, src/tree.rs, src/blocks.rs")],
None,["task completion in the simulator"])

p("C15","The C interface answers every get exactly once",
"Every accepted get through the C interface calls its callback exactly once: with error code 0, the right sequence number and value when the key is present, with error code 0, sequence number 0 and no value when the key is absent, with sequence number and no value when the key has no value, and with a non-zero error code and a message when the lookup fails. Any number of gets may be in flight at once. Opening uses the store in exactly the directory named by the bytes given; a store that cannot be opened, or a runtime that cannot be made, gives a null handle. Value buffers and messages given to a callback stay unchanged until they are released and can be released exactly once; the key buffer is the caller's again as soon as the call returns.",
["schedules","fault_sequences","inputs"],
"all keys, any number of concurrent gets, any completion order, storage read errors and open failures",
"One test fetches one present key through C, and it needs JS data and a C build.",
["src/external.rs"],
[("spawned lookup and callback","src/external.rs hb_get"),("open","src/external.rs hyperbee_from_storage_directory")],
None,["callback invocations"])

p("C16","The foreign-language binding behaves as the Rust interface",
"Every operation of the generated foreign-language binding (get, put, delete, version, sub and its operations, opening from a directory) returns exactly what the Rust operation would: the same sequence numbers and values, absence as absence, and a storage failure as an error to the caller rather than a panic, an abort or a wrong answer. This holds for concurrent calls and for calls dropped by the foreign side, and every buffer passed in or out is released exactly once.",
["schedules","fault_sequences","inputs"],
"all operations, keys and values through the exported entry points, concurrently, with storage errors, dropped calls and reopen",
"The Python tests run a few sequential calls and need a Python build of the library.",
["src/ffi.rs","src/error.rs"],
[("wrapper objects","src/ffi.rs Hyperbee, Prefixed"),("error conversion","src/error.rs")],
None,["return buffers and call status of the exported functions"])

p("C19","Height and printed form describe one committed version",
"The reported height of a bee is the number of levels of the tree of one version that was current during the call, and the printed form lists every key of one such version exactly once, in order, each indented by its depth in that tree. A storage failure gives an error, never a wrong height or a form with keys left out, a key that is not text gives an error from print and never a panic, and the debug form of a bee or sub bee can be made at any moment, whatever other operations are in flight.",
["schedules","histories","fault_sequences"],
"every tree shape reached by any history of writes and deletes, with concurrent writers, read errors, crashes and reopens, and keys that are not text",
"One test prints two fixed trees built in memory and compares them with stored text; height is only asserted on two static trees and nothing else runs at the same time.",
["src/traverse.rs","src/tree.rs","src/lib.rs"],
[("height by descending the first child","src/lib.rs Node::height, src/tree.rs height"),("printed form","src/traverse.rs print, src/tree.rs print"),("debug form","src/lib.rs, src/hb.rs, src/prefixed.rs")],
None,["results of height and print","format of the handles"])

p("C20","A bee that is no longer used releases its store",
"Once every handle on a bee is gone (the bee itself, its sub bees, traversals made from it, operations that completed, failed or were dropped half way, and the handles of the C and foreign-language interfaces after they are closed or freed), the core underneath is released, and with it the storage and everything cached: nothing the bee kept and no work left in the background holds on to it, whatever the bee was used for and however its operations ended.",
["histories","fault_sequences","schedules"],
"every history of operations, failures, dropped operations, crashes and reopens, through each interface",
"Tests end with the process; none looks at what is left after a bee is dropped.",
["src/blocks.rs","src/tree.rs","src/lib.rs","src/prefixed.rs","src/traverse.rs","src/external.rs","src/ffi.rs"],
[("cache of blocks and the nodes made from it","src/blocks.rs BlockEntry, src/lib.rs Node"),("closing","src/external.rs close_hyperbee, close_runtime")],
None,["references to the core"])

p("C21","Reads ask storage only for blocks the operation needs",
"An operation asks storage only for blocks that hold a node or a key it needs in a version that was current during the call: a get, put or compare-and-swap put only nodes on the way to its key and their keys, a delete of a key that is there besides these only the nodes and keys on the way to the replacement key and the nodes next to that way (their children are joined or exchanged with it), the version none, and a traversal only nodes and keys whose part of the tree meets its range, no further than one entry ahead of what was taken from it. So a sparse replica answers from the blocks it has, a lookup in a large bee fetches a handful of blocks, and a traversal that is stopped early does not fetch the rest.",
["histories","schedules","inputs"],
"every tree shape, key, range and amount taken from a traversal, with concurrent writers, caches of any size and sub bees",
"Every test holds the complete log in memory, where reading too much cannot be seen.",
["src/tree.rs","src/lib.rs","src/blocks.rs","src/traverse.rs","src/del.rs","src/put.rs","src/hb.rs"],
[("search for a key","src/lib.rs nearest_node"),("traversal order and bounds","src/traverse.rs"),("replacement and repair","src/del.rs")],
None,["blocks asked of the core by each operation"])

p("C22","An operation that waits is left alone until it can go on",
"While an operation or a traversal waits for storage, for another operation or for a peer, it asks to be polled again only through what it waits for: it does not wake itself, try again in a loop or poll on timers, so waiting takes no processor time however long storage takes, and it is woken once that is ready.",
["schedules","fault_sequences"],
"every wait of every operation, with slow storage, contended locks, concurrent operations, dropped operations and failures",
"Test storage answers at once, and a test that passes does not show how often it was polled.",
["src/traverse.rs","src/blocks.rs","src/tree.rs","src/put.rs","src/del.rs","src/external.rs","src/ffi.rs"],
[("state machine of a traversal","src/traverse.rs Traverse::poll_next"),("waiting for locks and storage","src/tree.rs, src/blocks.rs")],
None,["polls of the tasks of the operations"])

p("C17","Traversal configurations are accepted exactly when the range is possible",
"Building a traversal configuration fails exactly when its bounds can contain no key (lower above upper, equal bounds not both inclusive, positive infinity as lower or negative infinity as upper bound) and succeeds otherwise, whether bounds were given explicitly or left at their defaults.",
["inputs"],
"all combinations of finite and infinite bounds and inclusiveness flags",
"Only a few combinations are built in tests.",
["src/traverse.rs"],
[("builder validation","src/traverse.rs validate_traverse_config_builder")])
p("C18","Infinite bounds compare below and above every key",
"The negative infinite bound is smaller than, and the positive infinite bound greater than, every byte string, in either operand order, and neither equals any key.",
["inputs"],
"all byte strings",
"One test compares against two strings.",
["src/keys.rs"],
[("comparison operators","src/keys.rs")])
with open('/verif/properties.jsonl','w') as f:
    for x in P: 
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x)+"\n")
