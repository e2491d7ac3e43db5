#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run: python3 tools/mkprops.py)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mechanism,observe,state=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,
        state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mechanism],
        observe_at=observe,hook_needed=hook)))

p("C01","Concurrent get/put/replace/remove on one tree are linearizable",
 "For any number of threads running get, put (insert or update), replace, remove and insert-if-absent on the same table, under any interleaving, every call returns a result that is consistent with one total order of the calls that respects real time, starting from the table's initial content. A key that is present and never removed is found by every get, whatever splits, layer creations, node deletions and root changes other threads are performing on the way to it. After all threads finish, the content is what that order produces.",
 ["schedules","programs"],"every interleaving of every mix of point operations by any number of threads, any keys (same leaf, neighbouring leaves, shared 8-byte prefixes, suffix collisions)",
 "The mttest/mtclient concurrency tests run real threads on the default 15-wide nodes and check only the surviving keys of their own thread; they sample a handful of the interleavings and almost never hit the few-instruction windows around splits, leaf deletion and layer creation.",
 ["masstree_get.hh","masstree_insert.hh","masstree_split.hh","masstree_remove.hh","masstree_struct.hh","masstree_tcursor.hh","nodeversion.hh","query_masstree.cc","query_masstree.hh"],
 [("optimistic descent with version validation and B-link advance","masstree_struct.hh: node_base::reach_leaf, leaf::advance_to_key"),
  ("lock coupling of split up to the root","masstree_split.hh: tcursor::make_split"),
  ("leaf removal and layer GC","masstree_remove.hh: tcursor::remove_leaf, gc_layer"),
  ("twig / new layer creation","masstree_insert.hh: tcursor::make_new_layer")],
 ["query<row>::run_get1/run_put/run_replace/run_remove results","unlocked_tcursor::find_unlocked","tcursor::find_insert/find_locked"])

p("C02","The table is an exact ordered map over arbitrary byte-string keys",
 "Executed one at a time, point operations, forward scans and reverse scans behave exactly like an ordered map from byte strings of any length from 0 to the maximum key length to rows, compared lexicographically as unsigned bytes with a proper prefix ordered first; embedded NULs, 8-byte-aligned lengths and arbitrarily long shared prefixes make no difference. The reported outcome of each operation (inserted, updated, found, removed, number of keys scanned) is exact. Scans visit every key from the start key on, in order, include or exclude the start key as asked, and stop exactly when the visitor says so.",
 ["inputs","programs","histories"],"every finite sequence of operations on every set of byte-string keys and every scan start, direction and length",
 "The tests use decimal or fixed-width binary keys with a few sizes, rarely delete down to empty layers and reinsert, hardly ever use reverse scans, and compare against no model.",
 ["masstree_key.hh","masstree_struct.hh","masstree_insert.hh","masstree_split.hh","masstree_remove.hh","masstree_scan.hh","ksearch.hh","stringbag.hh","string_slice.hh","query_masstree.cc","masstree_get.hh"],
 [("key slicing, shift/unshift, comparison","masstree_key.hh: class key"),
  ("search in a leaf / internode","ksearch.hh"),
  ("suffix storage","masstree_struct.hh: leaf::assign_ksuf; stringbag.hh"),
  ("scan stack and helpers","masstree_scan.hh: scanstackelt, forward_scan_helper, reverse_scan_helper")],
 ["query<row> run_* results","basic_table::scan/rscan callbacks"])

p("C03","Concurrent scans are ordered, duplicate-free, complete and truthful",
 "A forward or reverse scan running concurrently with inserts, updates and removes returns keys strictly increasing (or strictly decreasing), all within the requested range, none twice. Every key of the covered range that is present throughout the scan is returned, no key absent throughout is returned, and each returned row is a row the key held at some moment during the scan. The scan neither crashes nor fails because of concurrent structural change.",
 ["schedules","programs"],"every interleaving of scans in both directions with any concurrent point operations, including splits, removals, layer creation and layer collapse under the scan position",
 "Existing scan tests run mostly on quiescent trees; the concurrent ones check only sortedness on 15-wide nodes with few samples, and the one that does stress layer creation is known to abort about once in thirty runs.",
 ["masstree_scan.hh","masstree_struct.hh","masstree_remove.hh","masstree_split.hh","query_masstree.cc"],
 [("scan state machine with revalidation","masstree_scan.hh: scanstackelt::find_next/find_retry/find_initial"),
  ("duplicate suppression in reverse scans","masstree_scan.hh: reverse_scan_helper::is_duplicate")],
 ["basic_table::scan/rscan callbacks","query<row>::run_scan/run_rscan output"])

p("C04","Structural change never loses, duplicates or misorders keys",
 "After any concurrent mix of operations that split nodes, grow and shrink layers and delete leaves, once all threads are idle, point lookups of every key, a full forward scan and a full reverse scan all describe one and the same content, and the tree remains fully usable: later single-threaded inserts, removes and scans again behave as an ordered map. Emptying the table and refilling it, any number of times and concurrently, leaves it as good as new.",
 ["schedules","programs","histories"],"every interleaving of split, leaf-delete, layer-create and layer-delete activity, then any further operations",
 "The tests never compare the three views of a tree after concurrent structural churn, and do not drive deletion of whole subtrees and layers concurrently with inserts into them.",
 ["masstree_split.hh","masstree_remove.hh","masstree_struct.hh","btree_leaflink.hh","masstree_insert.hh"],
 [("leaf list link/unlink","btree_leaflink.hh"),("parent pointer maintenance","masstree_split.hh: make_split; masstree_remove.hh: redirect/collapse"),
  ("layer garbage collection","masstree_remove.hh: gc_layer, gc_layer_rcu_callback")],
 ["post-run lookups, forward scan and reverse scan"])

p("C05","Memory is never reclaimed or reused while a reader may still hold it",
 "A row, key suffix, leaf or interior node that one thread takes out of the table is not freed or reused before every thread that could have obtained a pointer to it has left the read-side section it was in at that time, for every interleaving of operations, section boundaries and global epoch advances. No operation ever touches freed memory, and nothing is freed twice.",
 ["schedules","programs"],"every interleaving of table operations with section starts/ends and epoch advances by the timer",
 "Premature reclamation needs an epoch tick inside a window of a few instructions (ticks are 10-1000 ms apart in the tests), and memory from the pool stays mapped so the wrong read goes unnoticed.",
 ["kvthread.hh","kvthread.cc","masstree_remove.hh","masstree_struct.hh","query_masstree.cc","query_masstree.hh","value_bag.hh","mtd.cc"],
 [("epoch limbo lists","kvthread.cc: hard_rcu_quiesce, limbo_group::clean_until"),
  ("minimum active epoch","kvthread.hh: threadinfo::min_active_epoch, rcu_start/rcu_stop"),
  ("retirement points","masstree_remove.hh, query_masstree.hh: deallocate_rcu calls")],
 ["allocation, retirement and release of objects through the per-thread allocator; memory accesses of running operations"])

p("C06","Everything retired is eventually reclaimed; emptying the table leaks nothing",
 "Once threads keep quiescing and the epoch keeps advancing, every retired object is freed exactly once after a bounded number of epochs, however many objects are retired in one epoch and however retirement and reclamation interleave. After all keys have been removed and everyone has quiesced, the only live allocations are a bounded number of empty nodes independent of history; after destroying the table none remains.",
 ["histories","programs","schedules"],"every sequence of operations, retirements, epoch advances and quiesces",
 "No test counts allocations, and leaks or stuck limbo entries do not change any result the tests look at.",
 ["kvthread.hh","kvthread.cc","masstree_remove.hh","masstree_struct.hh","value_bag.hh","query_masstree.cc"],
 [("limbo group recycling and partial cleaning","kvthread.cc: hard_rcu_quiesce"),("empty leaf and layer removal","masstree_remove.hh"),("suffix bag ownership","masstree_struct.hh: leaf::assign_ksuf, hard_assign_ksuf")],
 ["allocator balance at quiescence"])

p("C07","Node locks exclude each other and validated optimistic reads are atomic",
 "At any time at most one thread holds a node's lock, including through lock hand-off at splits. A reader that takes a stable version, reads, and then finds the version unchanged has seen a state in which no insert or split of that node was in progress or completed in between; every completed insert changes the insert part and every completed split the split part, until the counters wrap, and flag bits (leaf, root, deleted) survive lock, unlock and counter overflow.",
 ["schedules","histories"],"every interleaving of lock, try-lock, mark, unlock and stable/changed reads; every reachable version word including counter wraparound",
 "Tests only exercise version words implicitly, and counter wraparound is never reached.",
 ["nodeversion.hh"],[("version word arithmetic","nodeversion.hh: basic_nodeversion"),("spin lock","nodeversion.hh: lock(), try_lock(), unlock()")],
 ["nodeversion operations and predicates on real version objects"])

p("C08","Slot permutations behave as lists of distinct slots",
 "For every supported width, a permutation value always represents an arrangement of all slots with a size; inserting, removing, exchanging, rotating and allocating from the back each produce exactly the documented list, never lose or repeat a slot, and leave the untouched positions in place. Every value produced from any legal value is again legal.",
 ["inputs","histories"],"every width, every reachable permutation, every legal argument",
 "No unit test exercises the permutation type on its own; only widths used by the default table and the arguments its workloads produce are ever run.",
 ["kpermuter.hh"],[("packed nibble arithmetic","kpermuter.hh")],["results of kpermuter member functions"])

p("C09","Multi-column updates are atomic and keep unmentioned columns",
 "A put of several columns takes effect at once: no get or scan ever returns some of its columns new and others old. Columns a put does not mention keep the value they had when it took effect, including when two puts on different columns race, columns beyond the old width read as empty until written, and a row already returned to a reader never changes under it. Rows kept as a bag of bytes (the default) and rows kept as an array of columns agree in this.",
 ["schedules","inputs"],"every interleaving of puts, replaces and gets on one row; every set of columns and sizes",
 "Tests write single columns or compare after the fact; racing column updates on the same row are checked only by counting.",
 ["value_bag.hh","value_array.hh","value_array.cc","query_masstree.cc","query_masstree.hh"],
 [("copy-on-update rows","value_bag.hh: update; value_array.cc: update"),("in-lock row replacement","query_masstree.cc: apply_put")],
 ["run_get / run_scan column values"])

p("C10","Timestamps of successive changes to a key strictly increase",
 "Every change to a key (insert, update, replace, remove, and re-insert after remove) carries an update timestamp strictly greater than that of every earlier change to the same key, whichever threads performed them and even when the key's leaf was split, deleted or its layer collapsed in between. The timestamp stored with a live row is that of its latest change.",
 ["schedules","programs"],"every interleaving and every history of changes to a key across threads",
 "Recovery correctness depends on it, but no test reads timestamps, and violations need a remove and a re-insert by different threads across a leaf deletion.",
 ["query_masstree.cc","query_masstree.hh","kvthread.hh","masstree_insert.hh","masstree_remove.hh","masstree_split.hh","masstree_struct.hh","kvrow.hh"],
 [("timestamp generation from old row","query_masstree.hh: assign_timestamp"),("phantom epochs of removed rows","kvthread.hh: observe_phantoms; masstree_struct.hh: phantom_epoch_")],
 ["query times of put/remove/replace; row timestamp"])

p("C11","Unchanged node versions mean no phantom in what was read",
 "When a lookup that found nothing, or a scan, records the leaves it visited with their version values, and those values are later unchanged (apart from changes the reader itself made and was told about through the cursor's previous/next versions and new-node list), then no key has been inserted into, or removed from, the range it covered in the meantime. An insert's own reported version transitions are exactly sufficient to carry the reader's recorded versions forward.",
 ["schedules","programs"],"every interleaving of a recording reader with concurrent inserts, splits, removals and layer creations",
 "Only one probabilistic test uses scan versions and it checks no outcome.",
 ["masstree_tcursor.hh","masstree_insert.hh","masstree_scan.hh","masstree_struct.hh","masstree_split.hh"],
 [("full version values","masstree_tcursor.hh: full_version_value, previous_full_version_value, next_full_version_value, new_nodes")],
 ["version values reported to visitors and cursors"])

p("C12","After a crash, recovery yields a consistent prefix that includes all synced work",
 "Whenever the server process stops (at any instant, with any unsynced suffix of its log files lost), restarting it produces exactly the state left by some set of the acknowledged or in-flight changes that is closed under precedence: if a change is recovered, so is every change that completed before it began. Every change that had been logged and synced for a whole log epoch on all active logs is included, nothing else appears, and with no further traffic every change is included within a bounded time.",
 ["crash_points","schedules","histories"],"every crash point in every interleaving of any number of logging threads, flushes, epoch advances, quiescence and wake-up, with every admissible loss of unsynced data",
 "The recovery test kills the server at a few arbitrary moments, uses inserts only, loses no unsynced data, and fails or is excluded at baseline.",
 ["log.cc","log.hh","mtd.cc","query_masstree.cc","checkpoint.cc"],
 [("log epochs, quiesce and wake records","log.cc: loginfo::logger, record; log.hh: acquire/release"),("global minimum/maximum epoch analysis","log.cc: logreplay::info, mtd.cc: recover, recovery phases")],
 ["log file contents at the crash; table content after recovery"])

p("C13","Replay result does not depend on how changes are spread over logs",
 "For any history of puts, column modifications, replaces and removes, replaying its log records from any distribution over any number of logs, each log in its own order and the logs in any relative order or in parallel, produces the same table: per key, the result of applying the changes in timestamp order, including removal of deleted keys. Replaying records already applied changes nothing.",
 ["histories","schedules","inputs"],"every per-key change history, every assignment of its records to logs and every replay order",
 "Recovery tests log inserts of distinct keys only; column deltas, deletes and cross-log races on one key are never replayed.",
 ["log.cc","kvrow.hh","value_bag.hh","query_masstree.cc","mtd.cc"],
 [("marker rows and delta lists","log.cc: logrecord::run, apply; kvrow.hh: row_marker, row_delta_marker")],
 ["table content after logreplay"])

p("C14","A checkpoint plus later logs restores the same state as the logs alone",
 "A completed checkpoint, taken while updates are running, together with the logs from its recorded epoch on, recovers to a state allowed by the crash-recovery guarantee; nothing acknowledged and synced before, during or after the checkpoint is lost or rolled back, and removed keys do not come back. An incomplete or superseded checkpoint is never used, and a crash at any point while a checkpoint is being written leaves the previous one usable.",
 ["crash_points","schedules","histories"],"every interleaving of checkpointing with updates and every crash point before, during and after it",
 "Checkpoints are exercised by one smoke test; no test crashes inside one or compares the restored contents.",
 ["mtd.cc","checkpoint.cc","checkpoint.hh","log.cc","file.cc","query_masstree.cc","kvio.cc"],
 [("parallel range checkpointing and commit by rename","mtd.cc: conc_checkpointer, write_checkpoint; checkpoint.cc"),("log reclamation bound","mtd.cc: recover, rec_ckp_min_epoch")],
 ["checkpoint files, table content after recovery"])

p("C15","Recovery can be repeated and work after it is durable",
 "Restarting again without new writes, or crashing at any point during recovery and restarting, gives the same content as an uninterrupted recovery. Changes made after a recovery take precedence over everything recovered, and after the next crash they are recovered under the same guarantee; records that an earlier recovery had discarded never come back.",
 ["crash_points","histories"],"every sequence of runs, crashes (also inside recovery) and restarts",
 "No test restarts the server more than once.",
 ["mtd.cc","log.cc","query_masstree.cc","kvthread.hh"],
 [("log truncation and restart epoch","log.cc: logreplay::replay_truncate, replay_copy; mtd.cc: recover"),("recovered timestamps","log.cc: min/max timestamps, initial_timestamp")],
 ["table content after each restart"])

p("C16","A torn or damaged log tail is cut off, never misread",
 "If a log file ends in a partial record, in leftover bytes or in a damaged record (one whose type, size or lengths do not fit together), recovery uses exactly the undamaged records before that point and treats the log as ending there; it neither crashes nor invents, alters or reorders changes. Empty and missing log files are treated as logs with no records.",
 ["fault_sequences","inputs","crash_points"],"every truncation length and every byte-level damage of the tail of a log, for every record type",
 "Tests never truncate or damage a log.",
 ["log.cc","log.hh","msgpack.hh"],
 [("record extraction and size checks","log.cc: logrecord::extract, logreplay::info")],
 ["table content after recovery from the damaged log"])

p("C17","The server answers every request exactly once, in order, however bytes arrive",
 "For each connection, the server sends exactly one reply per request, in request order, echoing its sequence number with the matching reply code and the result the request has when executed in that order, no matter how the request bytes are split or batched into network reads, how many requests are pipelined, or what other connections do. Malformed or unsupported requests end at most their own connection.",
 ["inputs","schedules","histories"],"every sequence of valid requests and every fragmentation and pipelining of it; any number of connections",
 "The client test programs always send well-formed requests in a few write patterns over fast loopback.",
 ["mtd.cc","kvproto.hh","kvio.cc","msgpack.hh","mtclient.hh","query_masstree.cc"],
 [("incremental request parsing","mtd.cc: conn, tcp threadfunc, onego"),("output buffering","kvio.cc")],
 ["bytes exchanged on the connection"])

p("C18","Operations always finish: no deadlock, no lost lock, no endless retry",
 "Under any schedule in which every thread keeps getting turns, every point operation and scan returns; no set of concurrent operations can block one another forever, and no operation returns or retires a node with a lock still held.",
 ["schedules","programs"],"every fair interleaving of any operations",
 "A deadlock needs a specific lock-order interleaving between split, leaf removal and layer collapse; tests that do not hit it pass.",
 ["masstree_split.hh","masstree_remove.hh","btree_leaflink.hh","masstree_struct.hh","masstree_scan.hh","nodeversion.hh"],
 [("bottom-up lock order, try-lock on unlink","btree_leaflink.hh: unlink; masstree_struct.hh: locked_parent"),("retry loops","masstree_struct.hh: reach_leaf; masstree_get.hh: find_unlocked")],
 ["completion of all operations under fair schedules"])

p("C19","Concurrent link and unlink keep the leaf list a consistent doubly linked list",
 "Whenever leaves are split and unlinked concurrently anywhere along a layer's leaf list, once in-progress changes finish the list read forwards contains exactly the live leaves in order and read backwards the same leaves in reverse; a reader following next pointers during the changes never skips a leaf that stays in the list, never sees an unlinked leaf re-enter and reaches the end.",
 ["schedules"],"every interleaving of link-after-split and unlink on neighbouring and distant leaves, with concurrent traversals",
 "Neighbouring concurrent unlinks are rare in the tests and a broken back link shows only in reverse scans.",
 ["btree_leaflink.hh"],[("marked next pointers","btree_leaflink.hh: btree_leaflink<N, true>")],
 ["next/prev traversal of real list nodes"])

p("C20","String and JSON values behave as independent values",
 "Copying, slicing, assigning, appending to and modifying strings, string accumulators and JSON values never changes any other value, whatever storage they share, and each holds the bytes or structure its own sequence of operations defines; this includes values assigned to, appended to, or stored into themselves or their own elements. Shared storage is released exactly once, when its last user is gone. (Pointers and references into a value may be invalidated by any other operation on it; a moved-from value may only be assigned to; separate arrays or objects with equal contents need not compare equal.)",
 ["programs","histories"],"every sequence of copy, substring, append, assignment, element access and mutation on any set of values",
 "The unit tests check a fixed list of expressions; aliasing bugs need particular sharing patterns.",
 ["string.cc","string.hh","json.cc","json.hh","straccum.cc","straccum.hh","string_base.hh"],
 [("reference counting and copy-on-write","string.hh: rep_type; json.hh: uniqueify; string.cc: append")],
 ["observable values of all live strings/JSONs"])

p("C21","The wire and log encoding is faithful under any chunking",
 "Every value written by the encoder decodes to an equal value, and the incremental decoder produces the same value and consumes the same number of bytes however its input is cut into pieces; a truncated encoding is reported as incomplete and never as a value. Integers, strings, arrays and maps of every size class use an encoding that decodes to the same kind and value.",
 ["inputs"],"every value and every division of its encoding into chunks",
 "Unit tests decode a fixed list of strings in two chunkings.",
 ["msgpack.cc","msgpack.hh","json.cc","json.hh"],
 [("streaming parser state machine","msgpack.cc: streaming_parser::consume"),("compact writer","msgpack.hh: unparser, compact_unparser")],
 ["decoded values and consumed counts"])

p("C22","Epoch and timestamp comparisons stay correct across wraparound",
 "Circular counters used for log epochs and timestamps compare, increment and take differences consistently with the order in which values were produced as long as the values lie within half the range of each other, including across the point where the underlying integer wraps; the reserved zero value is never produced by advancing a non-zero counter.",
 ["inputs","histories"],"every pair of counter values of every width",
 "Counters never wrap in any test.",
 ["circular_int.hh","timestamp.hh","log.hh"],[("circular comparison","circular_int.hh")],["results of circular_int operations"])

out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x)+"\n")
print(len(P))
