_TREE = "TLA+ monitor specification (%s) judged by TLC over executions of the real tree under a deterministic scheduler"
_TN = "Every distinct recorded behaviour is decided exactly by TLC; the executions are sampled schedules of generated small scenarios, sequentially consistent. "
NOTES = {
 "C01": (_TREE % "KeyLin", _TN + "Linearizability per key, which composes to the table."),
 "C02": ("TLA+ design of the layered key layout (TrieMap) explored by TLC against the ordered map; trace specification MapTrace judges long sequential histories of the real table", "Every operation's outcome and every scan is compared by TLC with the ordered map; histories are random, with keys of all lengths and narrow nodes so that splits, layers and leaf deletion are frequent."),
 "C03": (_TREE % "KeyLin, ScanShape", _TN + "A scan is one read per covered key plus a shape."),
 "C04": (_TREE % "KeyLin, ScanShape", _TN + "After the concurrent part, lookups of all keys, both full scans and sequential updates continue the same histories."),
 "C05": (_TREE % "Reclaim", _TN + "Every access, section boundary, retirement and release of every object is recorded."),
 "C06": (_TREE % "Leak", _TN + "Live allocations are counted after emptying, refilling and destroying."),
 "C08": ("TLA+ specification of slot permutations (Permuter), exhaustively explored by TLC; conformance (PermTrace) of every operation on every value of the real kpermuter", "All values and operations for widths 1 to 4 or 5, random walks beyond up to 15; TLC compares lists."),
 "C09": (_TREE % "KeyLin", _TN + "Rows of three columns whose values identify the put that wrote them; the harness is built with both row layouts (bag and array)."),
 "C10": (_TREE % "KeyLin with timestamps", _TN),
 "C11": (_TREE % "KeyLin with held reads", _TN + "A successful revalidation of recorded leaf versions keeps the recorded read valid."),
 "C07": ("TLA+ design NodeVersion explored by TLC; trace specifications NVTrace and NVSeq judge executions of the real nodeversion under a deterministic scheduler", "Locking, marking, hand-off to a split sibling, optimistic reads, 32- and 64-bit layouts, counters close to overflow."),
 "C19": ("TLA+ design LeafLink explored by TLC (safety and liveness); trace specification LinkTrace judges executions of the real btree_leaflink under a deterministic scheduler", "Walks during links and unlinks, and the final list in both directions."),
 "C22": ("TLA+ specification of circular counters (Circular) explored by TLC; conformance (CircTrace) of the real circular_int", "All pairs of 8-bit values; boundary and random pairs of wider ones."),
 "C21": ("TLA+ specification of messages (Msgpack) and design of the incremental decoder (MsgStream) explored by TLC for all short messages in all divisions; conformance (MsgpackTrace) of the real encoder and decoders", "TLC decides every recorded encoding, decoding, skip and header against the specification; values, divisions, truncations and damages are sampled, with all size classes."),
 "C20": ("TLA+ designs of storage sharing (Sharing: buffers of strings and accumulators; TreeSharing: copy on write of JSON nodes) explored by TLC; trace specification ValuesTrace over the value semantics (Values) judges programs run on the real String, StringAccum and Json under AddressSanitizer", "After every operation the contents of all nine variables are compared with the specification; allocations are counted. All sequences of four of sixteen string operations, and random programs mixing about sixty operations."),
 "C18": (_TREE % "KeyLin", _TN + "Deadlock and livelock are detected by the scheduler."),
}
_DS = "TLA+ specification (%s) decided by TLC on behaviours recorded from the real server (mtd.cc, log.cc, checkpoint.cc, query code) in a simulated world: deterministic scheduler, clock, files that lose unsynced data, sockets"
NOTES.update({
 "C12": (_DS % "EpochLog, LogReplay, DurTrace", "EpochLog (group commit, epochs, wake and quiescence records) is explored by TLC, with the protocol's necessary conditions shown necessary by violated variants. Programs with several connections run against the server, a crash keeps an arbitrary legal subset of unsynced file contents, the server recovers, and TLC searches for a consistent set of surviving changes that explains what is read. Directory durability is not simulated."),
 "C13": (_DS % "Replay, LogReplay", "The design Replay (changes of one key spread over logs, replayed in any order, with markers and deltas) is explored exhaustively; logs written by the harness in every small distribution and order are replayed by the real recovery code and compared by TLC."),
 "C14": (_DS % "EpochLog with checkpoints, DurTrace", "Checkpoints run while clients write, with crashes before, during and after them, pivots of arbitrary bytes, and logs that begin at any epoch."),
 "C15": (_DS % "EpochLog, DurTrace", "Chains of crash, recovery and further work, including crashes during recovery."),
 "C16": (_DS % "LogReplay", "Logs are cut at every byte or damaged at structural fields; what recovery finds must be the records before the damage, in all logs consistently. There are no checksums, so damage inside a payload is outside the property."),
 "C17": ("TLA+ design Connection (safety and liveness) explored by TLC; trace specification Session judges what connections of the real server observe in a simulated network", "Requests in random pieces, pipelined, abandoned, malformed (dozens of kinds), datagrams, slow and vanishing clients; other connections must keep being served."),
})
NA = {}
