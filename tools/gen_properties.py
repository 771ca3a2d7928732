#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script only so that the file stays well-formed)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
      why_tests_cant=why, anchors=dict(files=files,
        state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
        mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=hook)))

p("C01", "A successful change is exactly one appended block",
  "A put or delete that reports a change has appended exactly one data block to the log (preceded by the header block only if the log was empty) before it reports it. An operation that changes nothing - a rejected compare-and-swap, a delete of an absent key - appends no data block. An operation that fails reports an error, and has appended no data block unless the failure is that of the append itself.",
  ["inputs","histories","fault_sequences"], "every call of every write operation of every handle, on every tree, whatever the log answers to each read and append",
  "The tests look at the tree after successful calls on an in-memory log; they never count blocks on failing, rejected or no-op calls, nor observe a log that refuses a read or an append.",
  ["src/put.rs","src/del.rs","src/blocks.rs","src/tree.rs"],
  [("single commit at the end of the operation","Blocks::add_changes called from Tree::put_compare_and_swap / Tree::del_compare_and_swap")],
  [("log","the hypercore the tree is stored in","Blocks.core")], ["number of blocks appended per call vs the call's result"])
p("C02", "Reading never writes",
  "Getting, traversing, asking for the version, and making a sub-tree handle never append anything to the log, not even the header of an empty one.",
  ["inputs","histories"], "every read operation of every handle (Rust, sub-tree, FFI, C) on every tree",
  "A read that writes still returns the right answer, so no existing assertion sees it; only one test looks at the version of an empty tree.",
  ["src/tree.rs","src/hb.rs","src/prefixed.rs","src/traverse.rs","src/ffi.rs","src/external.rs"],
  [("header is only written when asked for","Tree::get_root(ensure_header)")], [("log","the hypercore","Blocks.core")], ["appends performed by a read"])
p("C03", "Compare-and-swap decides before anything changes",
  "A compare-and-swap put or delete shows the caller's predicate the entry currently stored under the key (for a put: or that there is none, and the entry about to be written), exactly once, before any change. If and only if it answers true the change is made, and the result says which happened.",
  ["inputs","histories"], "every predicate, key, value and tree",
  "One test per operation, on a tree with a single key.",
  ["src/put.rs","src/del.rs"], [("predicate call","Tree::put_compare_and_swap, Tree::del_compare_and_swap")],
  [], ["predicate calls and their arguments, appends, in-memory node changes, result"])
p("C04", "Concurrent writes on one tree take effect one at a time",
  "Writes issued concurrently through any handles of one opened tree (the main handle, sub-trees, foreign-language handles) are serialised: from the moment a write reads the current state of the tree until its block is appended, no other write to that tree reads or appends. No acknowledged write is lost to another.",
  ["schedules"], "every interleaving of any number of concurrent calls on handles of one opened tree",
  "All tests are sequential, and each await point is a possible interleaving.",
  ["src/hb.rs","src/prefixed.rs","src/tree.rs","src/ffi.rs"], [("tree lock","Hyperbee.tree / Prefixed.tree: Shared<Tree>")],
  [("tree lock","guards reading the root and appending","Hyperbee.tree")], ["guards held at each log access of a write"])
p("C05", "No call waits for itself and locks have one order",
  "No operation ever waits for a lock that it already holds, and no two operations take the tree's internal locks in opposite orders. Any set of concurrent calls therefore completes as long as the underlying log answers.",
  ["schedules"], "every interleaving of concurrent calls on one tree",
  "A lock cycle needs two tasks at particular await points; tests run one task.",
  ["src/lib.rs","src/blocks.rs","src/tree.rs","src/put.rs","src/del.rs","src/hb.rs","src/prefixed.rs"],
  [("tokio RwLock guards and their scopes","throughout")], [("lock classes","tree, block store, cache, block, node, child list","lib.rs Shared<T>")], ["held-while-acquiring pairs"])
p("C06", "A stored block never changes in memory",
  "The decoded form of a block that is already in the log is never modified: a put or delete works on private copies of the nodes it changes. So a change that fails part-way leaves every later read exactly as it was, and a traversal in progress is not disturbed by later writes.",
  ["fault_sequences","schedules","histories"], "every failure of a log read or append inside a write, and every write issued while a traversal is open",
  "No test injects a failing read or append, and none writes during a traversal.",
  ["src/blocks.rs","src/lib.rs","src/put.rs","src/del.rs"], [("nodes are copied out of the block cache","BlockEntry::get_tree_node")],
  [("cache","decoded blocks by index","Blocks.cache")], ["which objects the mutations of a write reach"])
p("C07", "Reported sequence numbers identify the right block",
  "The sequence number that a write reports for the new entry is the index of the block it appended, and the one reported for a replaced or deleted entry is the index of the block where that entry was stored. The sequence number and value returned by a get belong to the block that stores the matching key.",
  ["inputs","histories"], "every put, delete and get on every tree",
  "Asserted for one or two keys only; off-by-one and stale lengths show when the header is missing, on replacement, or in deep trees.",
  ["src/put.rs","src/del.rs","src/tree.rs","src/lib.rs","src/changes.rs"], [("seq = log length before the append","Tree::put_compare_and_swap"),("key lookup","Node::get_key_value")],
  [], ["returned numbers"])
p("C08", "Every node a write changes is stored and linked",
  "Each tree node that a put or delete changes is part of the block it appends, and each node in that block other than the root is linked from its parent at the position of the node it replaces. No subtree is dropped, orphaned or linked in the wrong place.",
  ["inputs","histories"], "every put and delete on every tree shape (leaf, split, cascading split, rotate, merge, cascading repair, root replacement)",
  "Tests sample a few hundred shapes; a lost link shows only in particular cascades.",
  ["src/put.rs","src/del.rs","src/changes.rs","src/blocks.rs"], [("Changes::add_node returns the reference to link","src/changes.rs"),("propagate_changes_up_tree","src/put.rs"),("repair","src/del.rs")],
  [("changes","nodes to be stored by this write","Changes.nodes")], ["changed nodes vs recorded nodes at the append"])
p("C09", "Nodes stay within their size limits",
  "After every successful put or delete each node holds at most 8 keys, each node other than the root at least 4, and a node with children has exactly one more child than it has keys.",
  ["inputs","histories"], "every put and delete applied to every tree that satisfies the limits",
  "Random samples of up to 100 keys reach depth 3 at most and few of the repair cascades.",
  ["src/put.rs","src/del.rs","src/lib.rs"], [("split when full","Tree::put_compare_and_swap, Node::split"),("repair when deficient","repair, Side::can_rotate, Side::maybe_merge")],
  [("MAX_KEYS","8","src/lib.rs")], ["sizes of the nodes stored by a write"])
p("C10", "Restructuring preserves key order",
  "Splits, rotations, merges and the replacement of a key removed from an inner node keep all remaining keys, each exactly once, in sorted in-order position: what leaves one end of a sibling arrives at the facing end of its neighbour by way of the separating key of the parent.",
  ["inputs","histories"], "every put and delete on every tree shape",
  "The left/right cases are mirror images that tests reach by chance of the sampled keys.",
  ["src/del.rs","src/put.rs","src/lib.rs"], [("Side: mirrored donor/deficient operations","src/del.rs"),("Node::split, Node::insert","src/put.rs, src/lib.rs")],
  [], ["positions at which keys and children are removed and inserted"])
p("C11", "Keys are ordered as byte strings; infinity lies beyond all of them",
  "Keys and bounds compare as plain byte strings in lexicographic order; the infinite bounds are strictly above or strictly below every key and equal to none, from either side of the comparison. A search descends to the side the comparison indicates and reports a match only for an equal key.",
  ["inputs"], "every pair of keys or bounds, every node and searched key",
  "Only three keys are compared with the infinities by the unit test, none for equality and not for empty keys; search is sampled.",
  ["src/keys.rs","src/traverse.rs","src/lib.rs"], [("InfiniteKeys comparisons","src/keys.rs"),("LimitValue comparisons","src/traverse.rs"),("get_index_of_key","src/lib.rs")],
  [], ["comparison results per ordering case; branch taken per comparison result"])
p("C12", "A traversal yields only keys within its bounds",
  "No traversal, forwards or backwards, ever yields a key below its lower or above its upper bound, or equal to a bound that is exclusive. A builder given both bounds refuses a lower bound above the upper, and equal bounds that are not both inclusive; it accepts every other pair in order, including explicitly infinite ones.",
  ["inputs","configurations"], "every combination of finite/infinite bounds, inclusive/exclusive flags and direction, on every tree",
  "The tests use keys 0..9 and a dozen of the combinations; bounds given explicitly as infinite on one side, or both ends equal, are not reached.",
  ["src/traverse.rs"], [("in_bounds gate","TraverseConfig::in_bounds"),("builder validation","validate_traverse_config_builder")],
  [], ["gate of each yielded item; truth table of the gate and of the validation"])
p("C13", "A traversal omits no key within its bounds and keeps the order",
  "A traversal visits, in every node it enters, each key and each child between its starting bound and the far end, in ascending order or, when reversed, in descending order, and drains each child completely before moving on. So every stored key within the bounds is yielded once, in order.",
  ["inputs","configurations"], "every bound, direction, and node shape (leaf or inner, bound matched or not, at any position)",
  "Tests use at most two tree levels and ten keys.",
  ["src/traverse.rs"], [("start and end of the in-node iteration","make_child_key_index_iter"),("state machine","Traverse::poll_next")],
  [], ["first and last visited position and step per case"])
p("C14", "A traversal never stalls, panics or hides an error",
  "Each poll of a traversal yields an item, ends it, or arranges for the task to be woken; a completed inner operation is never polled again, also when the consumer goes on after an error item. A failure to read a node or key is yielded as an error, not skipped.",
  ["schedules","fault_sequences"], "every readiness pattern of the underlying reads and every read failure, for every number of polls until the end",
  "The in-memory log of the tests is always ready and never fails.",
  ["src/traverse.rs"], [("Traverse::poll_next","src/traverse.rs")], [("next_key, next_child, child_stream, iter_fut","pending inner operations","Traverse")], ["each return of poll_next"])
p("C15", "A sub-tree only sees and touches its own keys",
  "Every operation on a sub-tree acts on exactly the key formed of prefix, separator and given key. Its traversal is confined to keys that begin with prefix and separator, for every prefix and separator (also empty ones or ones ending in 0xFF), yields all of them that the bounds admit, and strips precisely prefix and separator from each.",
  ["inputs","configurations"], "every prefix, separator, key and bounds, with any other keys in the tree",
  "Tests use one prefix and separator, with no other keys that merely share the prefix's bytes.",
  ["src/prefixed.rs"], [("with_key_prefix!","src/prefixed.rs"),("traverse bounds","Prefixed::traverse")], [], ["keys and bounds passed to the tree; bytes stripped"])
p("C16", "The first block is the header and only the header",
  "A log that the library starts holds, as its block 0, the header with the protocol name, written at most once and before any data block; creating a header on a log that is not empty fails without writing. The header block is never interpreted as tree data.",
  ["inputs","histories"], "every first write, explicit header creation and read on logs of every length",
  "Only the common order is exercised.",
  ["src/tree.rs","src/put.rs","src/lib.rs"], [("Tree::create_header, ensure_header, get_root","src/tree.rs")], [], ["order and guard of header and data appends; blocks read as nodes"])
p("C17", "The stored format is the one other implementations read",
  "Blocks are encoded with the field numbers, types and cardinalities of the JavaScript implementation, under protocol name hyperbee, with nodes of at most 8 keys, child references as (block, offset) pairs, and the same sub-tree separator by default. What is written in a field is read back from the same field.",
  ["inputs","programs"], "every block written or read",
  "The comparison tests need npm and cannot run offline; round-trip tests with one library cannot notice a symmetric change of format.",
  ["src/schema.proto","src/lib.rs","src/blocks.rs","src/tree.rs","src/prefixed.rs"], [("schema.proto","src/schema.proto"),("Node::to_level / make_node_vec","src/lib.rs, src/blocks.rs"),("PROTOCOL, MAX_KEYS, DEFAULT_PREFIXED_SEPERATOR","src")], [], ["generated message types, constants, flow from fields to fields"])
p("C18", "No storage or decoding error is swallowed",
  "Whenever reading, decoding, encoding or appending a block fails, the operation that needed it returns an error to its caller. No failure is dropped, replaced by a default or by 'not found', or turned into a panic.",
  ["fault_sequences"], "every fallible step of every operation",
  "No test makes the log fail.",
  ["src/blocks.rs","src/tree.rs","src/put.rs","src/del.rs","src/lib.rs","src/traverse.rs","src/hb.rs","src/prefixed.rs","src/ffi.rs"], [("? and HyperbeeError conversions","throughout")], [], ["fate of each Result"])
p("C19", "Malformed blocks are reported, not fatal",
  "Content of a block that is not a well-formed tree node - wrong child/key counts, odd child list, an offset to a node that is not there, a node that refers to itself or back up its own block, undecodable bytes - makes the reading operation return an error. It never panics, indexes out of range, or goes round for ever.",
  ["inputs"], "every byte string found in a block (the log may come from a remote peer or another implementation)",
  "All blocks in the tests were written by a correct implementation.",
  ["src/blocks.rs","src/lib.rs"], [("decoding","make_node_vec, BlockEntry::get_tree_node")], [], ["panicking operations reachable with values from a decoded block"])
p("C20", "The C interface answers every get exactly once",
  "A get issued through the C interface invokes the caller's callback exactly once, whether the key is found, has no value, is absent, or the lookup fails, with sequence number 0 exactly when no entry was found and a non-zero error code exactly on failure. The runtime and tree handles stay owned by the caller until closed, and each buffer handed out is released by exactly one matching deallocation call.",
  ["inputs","fault_sequences"], "every key and every outcome of the lookup",
  "The one C test gets one present key.",
  ["src/external.rs"], [("hb_get, from_c, to_c, deallocate_*","src/external.rs")], [], ["callback invocations per path and their arguments; ownership transfers of raw pointers"])
p("C21", "Every public surface performs the operation it names",
  "Each operation of the main handle, of a sub-tree and of the foreign-language handles performs the same-named operation of the tree once, with the caller's key, value, predicate and configuration, and returns its result with no field dropped, swapped or altered.",
  ["inputs"], "every call through every surface",
  "FFI and sub-tree wrappers are only tested for a few calls, in Python, which cannot run here.",
  ["src/hb.rs","src/prefixed.rs","src/ffi.rs"], [("delegating methods","src/hb.rs, src/prefixed.rs, src/ffi.rs")], [], ["delegated operation, argument and result flow"])
p("C22", "Reads reflect the log as it is now",
  "Each operation consults the current length of the log and starts from the root in its last block; no length, root or absence of a block is remembered from an earlier call. A block kept in memory is only ever served for the index it was read from.",
  ["histories","schedules"], "every sequence of local writes and blocks arriving by replication between reads",
  "Replication cannot run in the tests here, and a single handle that writes itself hides stale state.",
  ["src/tree.rs","src/blocks.rs"], [("version()/get_root","src/tree.rs"),("Blocks::get and its cache","src/blocks.rs")], [("cache","decoded blocks by index","Blocks.cache")], ["source of the root index; key and value of cache entries"])
p("C23", "Opening a tree keeps and uses the given log",
  "Opening a storage directory never overwrites what it contains, and a tree opened on a given log, in memory or on disk reads, writes and replicates exactly that log. Replication streams are attached to the same log with the role the caller chose.",
  ["inputs","configurations"], "every constructor and every stream attached",
  "Reopening is only tested through the JavaScript comparison, which cannot run here.",
  ["src/tree.rs","src/hb.rs","src/blocks.rs","src/ffi.rs","src/external.rs"], [("from_storage_dir, from_ram, from_hypercore","src/tree.rs"),("add_stream","src/blocks.rs")], [], ["arguments to the storage and replication APIs"])
p("C24", "A block lists its nodes root first, depth first",
  "In every appended block the root is the first node, the other nodes follow in depth-first order, and each reference to a node of the same block carries that node's final position. References into earlier blocks are left alone.",
  ["inputs","histories"], "every set of nodes a write records, of any shape",
  "Byte comparison with JavaScript cannot run here, and a wrong order is invisible to a Rust-only round trip unless an offset is wrong too.",
  ["src/blocks.rs"], [("reorder_nodes","src/blocks.rs")], [], ["traversal of recorded nodes and rewriting of offsets"])
p("C25", "Deletion rebalances in the agreed order",
  "A deficient node is repaired by the first applicable of: rotate from the left sibling, rotate from the right, merge with the left, merge with the right; a key removed from an inner node is replaced from the subtree whose edge leaf has more keys, the left one on a tie. Insertion splits at the middle key. This makes the stored tree shape the one other implementations produce.",
  ["inputs","histories"], "every delete and insert that restructures the tree",
  "The byte-comparison tests against JavaScript cannot run here, and any order passes the Rust-only invariant checks.",
  ["src/del.rs","src/put.rs"], [("repair_one, replace_removed_internal_key_with_a_key_from_leaf","src/del.rs"),("Node::split","src/put.rs")], [], ["order of attempts and their guards"])
p("C26", "The tree is a faithful ordered map over any history",
  "After any sequence of puts and deletes, a get returns the value of the latest put of that key that was not deleted since, and a full traversal lists exactly those entries in key order.",
  ["histories"], "all operation histories",
  "Unbounded histories; tests sample a few.",
  ["src/put.rs","src/del.rs","src/tree.rs","src/traverse.rs"], [("whole library","src")])
p("C27", "Stored bytes are identical to JavaScript Hyperbee's",
  "The same sequence of operations produces byte-for-byte the same log as the JavaScript library.",
  ["histories"], "all operation histories",
  "Needs the JavaScript library as an oracle; histories are unbounded.",
  ["src/blocks.rs","src/put.rs","src/del.rs"], [("whole library","src")])
p("C28", "Replicated readers converge to the writer's tree",
  "A reader connected to a writer eventually serves every entry the writer has acknowledged, and never serves an entry the writer did not write.",
  ["schedules","fault_sequences"], "all network schedules and disconnections",
  "One smoke test with two in-process cores.",
  ["src/blocks.rs","src/hb.rs"], [("ReplicatingCore::add_stream","src/blocks.rs")])
p("C29", "An acknowledged write survives a crash",
  "After a crash at any point, reopening the storage shows every acknowledged write, and at most the one in flight in addition.",
  ["crash_points"], "all crash points during a write",
  "No crash testing.",
  ["src/blocks.rs","src/tree.rs"], [("append to hypercore storage","src/blocks.rs")])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P))
