P("C01", "An inclusion proof is accepted exactly when it recomputes the root",
  "SparseMerkleProof::verify with a value, and verify_existence, accept if and only if the proof has at most 256 siblings, carries a leaf for exactly the queried key whose value hash is the hash of the given value, and folding the leaf's hash with the siblings from the bottom up, on the side given by the key's bits, yields the expected root. Every other proof is rejected with an error.",
  ["inputs"], "for every proof (any leaf, any number and kind of siblings), root, key and value, and every hash function",
  "forged proofs form an unbounded space: tests only try proofs the tree produced and a few random mutations",
  [DEF, PRF], [("SparseMerkleProof::verify / verify_existence", DEF), ("SparseMerkleNode::hash, leaf and internal hashes", PRF)])
P("C02", "A non-inclusion proof is accepted exactly when it excludes the key",
  "SparseMerkleProof::verify without a value, and verify_nonexistence, accept if and only if the proof has at most 256 siblings, its leaf (if any) has a different key sharing at least as many leading bits with the queried key as there are siblings, and folding that leaf's hash (or the placeholder when there is no leaf) along the queried key's bits yields the expected root. Every other proof is rejected with an error.",
  ["inputs"], "for every proof, root and key, and every hash function",
  "a wrong acceptance needs an adversarial leaf or sibling list; tests only try honest proofs",
  [DEF, PRF], [("SparseMerkleProof::verify / verify_nonexistence", DEF)])
P("C03", "An update proof is accepted exactly when it proves the root transition",
  "verify_update accepts if and only if there is one proof per update and, starting from the old root and in order, each proof authenticates the updated key's position against the running root (its leaf, or the leaf the new key splits, or the empty subtree) and the root recomputed after the change - replaced, inserted, split with default siblings up to the common prefix, or deleted with single leaves moved up past default siblings - becomes the next running root, ending at the new root. Every other proof is rejected with an error.",
  ["inputs"], "for every list of proofs and updates, every pair of roots and every hash function",
  "soundness against forged update proofs cannot be sampled; the tests replay honest histories only",
  [DEF], [("UpdateMerkleProof::verify_update", DEF), ("SparseMerkleProof::check_compute_new_root", DEF),
          ("compute_new_merkle_path_on_split", DEF)])
P("C04", "A range proof is accepted exactly when it recomputes the root",
  "SparseMerkleRangeProof::verify accepts if and only if left and right siblings together number at most 256 and folding the rightmost known leaf's hash from the bottom up, taking the next left sibling where the leaf key's bit is one and the next right sibling where it is zero, never runs out of siblings and yields the expected root. Every other proof is rejected with an error.",
  ["inputs"], "for every range proof, rightmost leaf, list of left siblings, root and hash function",
  "restoration trusts this check against untrusted peers; tests only try proofs produced by the tree",
  [DEF], [("SparseMerkleRangeProof::verify", DEF)])
NT = "src/node_type.rs"
PANICS = "panic-freedom: every assert, unwrap, index and slice in the MIR call graph refuted on every path"
P("C05", "Proof verification never panics, whatever the proof contains",
  "SparseMerkleProof::verify, verify_existence and verify_nonexistence, UpdateMerkleProof::verify_update and SparseMerkleRangeProof::verify return Ok or Err for every proof that can be decoded (any leaf, any number and kind of siblings, any number of proofs) and every root, key, value, update list or list of left siblings: no arithmetic overflow, index out of bounds, unwrap of an absent value or other panic is reachable.",
  ["inputs"], "for every proof value a peer can send, not only those a tree produces",
  "proofs come from untrusted peers; a panic needs a malformed one, and the tests only verify honest proofs",
  [DEF, PRF], [("SparseMerkleProof::verify", DEF), ("UpdateMerkleProof::verify_update", DEF), ("SparseMerkleRangeProof::verify", DEF)],
  technique=PANICS)
P("C06", "Every hash is taken over a domain-separated, injective preimage",
  "A leaf's hash is H(\"JMT::LeafNode\" || key hash || value hash), both for tree leaves and proof leaves; an internal proof node's hash is H(\"JMT::IntrnalNode\" || left hash || right hash); an empty subtree hashes to the placeholder constant; ValueHash::with and KeyHash::with are H of exactly the given bytes, and SimpleHasher::hash is new, update with the bytes, finalize; a Digest used as a SimpleHasher is started, fed exactly the given bytes once and finished as that Digest, its output returned as it is. Nothing else is hashed and neither tag is a prefix of the other.",
  ["inputs"], "for every key, value, child hash and every SimpleHasher",
  "a swapped or dropped component is consistent within one version of the code: round-trip tests cannot see it, other implementations and stored trees break",
  [PRF, "src/lib.rs", NT], [("SparseMerkleLeafNode::hash, SparseMerkleInternalNode::hash", PRF), ("KeyHash::with, ValueHash::with, SimpleHasher::hash", "src/lib.rs"), ("LeafNode::hash", NT)])
P("C07", "A tree node's hash is the hash of the binary subtree it stands for",
  "The hash of a range of an internal node's sixteen children is the placeholder if the range is empty, the child's own hash if its only child there is a leaf (or the range has width one), and otherwise the internal hash of its left and right halves; a node's hash is that of the whole range, with existence and leaf bitmaps that mark exactly the present children and exactly the present leaves.",
  ["inputs"], "for all sixteen positions, all 31 aligned ranges and every population of children",
  "there are 2^32 populations of a node and tests build a few; an error in one range or position changes roots only for some key sets",
  [NT], [("InternalNode::merkle_hash, make_hash, has_only_child", NT), ("InternalNode::generate_bitmaps", NT), ("Node::hash, InternalNode::hash", NT)])
P("C08", "A proof sibling is exactly the node standing for the other half",
  "The sibling built for a range of an internal node's children is Null if the range is empty; if its only child there is a leaf or the range has width one, the node stored under that child's version and the path extended by that child's nibble, as a leaf with the stored key and value hashes or as an internal node with the hashes of the stored node's two halves; otherwise the internal node of the hashes of the range's two halves.",
  ["inputs"], "for all sixteen positions, all 31 aligned ranges and every population of children",
  "the hash of a wrong sibling kind can still verify, and only for some populations; tests compare few trees",
  [NT], [("InternalNode::build_sibling", NT)])
P("C09", "Descending one nibble returns the right child and its four-level siblings",
  "For every nibble, the descent halves the children four times towards it and stops at the first range that is empty (no child), or, in only-child mode, that holds a single leaf or has width one, returning that child's key (its version, the path extended by its nibble), or, in plain mode, that holds exactly the child at the nibble; one sibling per halving is returned, top-down, each for the half not entered. The variant without siblings returns the same child as the only-child mode.",
  ["inputs"], "for all sixteen nibbles, both modes and every population of children",
  "errors show only for particular populations at particular nibbles",
  [NT], [("InternalNode::get_child_with_siblings_helper", NT), ("get_child_with_siblings, get_only_child_with_siblings, get_only_child_without_siblings", NT)])
P("C10", "Node bookkeeping: slots, counts and child keys stay exact",
  "Inserting or removing a child changes exactly the slot of its nibble and adjusts the number of children by exactly the change in present slots; a node built from children has as leaf count the sum over its children (one per leaf, the stored count per internal child), and cannot be built without children or with a leaf as its only child; leaf_count and node_type report those values; a child's node key is the given version with the parent's path extended by the nibble, a parent's key drops the last nibble, and setting a version keeps the path.",
  ["inputs", "histories"], "for every node, nibble, child and order of insertions and removals",
  "leaf counts and canonical shape are invariants over all histories; tests check some final trees",
  [NT], [("Children::insert, remove", NT), ("InternalNode::new", NT), ("NodeKey", NT)])
P("C11", "Keys are read bit for bit, most significant bit first, everywhere",
  "Reading nibble i of a key or path yields its bits 4i..4i+3 and reading bit i yields its i-th bit, most significant first, for every position and from both ends of the bit iterator; pushing or popping a nibble changes exactly the last half byte (an unused low half stays zero) and the count; the nibble iterator yields the nibbles in order and reports exactly the visited and remaining ones; peeking shows the next nibble or bit and moves nothing, and is_finished holds exactly when none is left; the bit iterator of a key says exactly how many bits are left; a path collected from nibbles holds them in order, and skip_common_prefix moves both walks past exactly the nibbles that agree; the common prefix length in nibbles is the bit length divided by four.",
  ["inputs"], "for all 64 nibble and 256 bit positions, odd and even lengths, and all contents",
  "every traversal, proof and hash relies on these; a slip at one position or parity needs a particular key",
  ["src/types/nibble/nibble_path.rs", "src/bytes32ext.rs", "src/types/nibble.rs"],
  [("NibblePath get_bit, get_nibble, push, pop, last", "src/types/nibble/nibble_path.rs"), ("HashValueBitIterator, get_nibble", "src/bytes32ext.rs")],
  technique="bit-provenance dataflow over rustc MIR, every position enumerated, paths compared with a decision table")
P("C12", "Equality, order and clone consider every field of the public data types",
  "Two nodes, keys, children, proofs, hashes, batches or statistics compare equal if and only if they are the same variant and all their fields are equal; cloning copies every field; node keys, stale-node indices, paths and hashes are ordered lexicographically by their fields in declaration order (version first), consistently with equality.",
  ["inputs"], "for every pair of values of the listed types",
  "storage ordering and node comparison depend on it; a hand-written comparison that skips a field passes tests that never differ there alone",
  [NT, PRF, DEF, "src/writer.rs"], [("NodeKey ordering", NT), ("SparseMerkleLeafNode, proof equality", PRF), ("StaleNodeIndex ordering", "src/writer.rs")])
TR = "src/tree.rs"
P("C13", "Looking a key up yields the version's value and the proof for exactly that key",
  "get_with_proof(key, version) starts at the root node of that version and follows the key's nibbles in order, each time to the child's own stored key, for up to 64 levels, collecting each level's siblings; it returns, with the siblings bottom-up, the value stored at that version and the leaf when the leaf met has the key, no value and the leaf when it has another key, no value and no leaf when the child is missing or the root is null. A missing root is MissingRootError for that version; an unreadable node or value, a null node below the root or a missing value is an error, never absence.",
  ["inputs", "histories"], "for every stored tree, key, version and storage failure",
  "which of the paths is taken depends on the stored tree and on storage failures; tests sample a few trees",
  [TR], [("JellyfishMerkleTree::get_with_proof", TR)])
P("C14", "A range proof contains exactly the right-hand siblings",
  "get_range_proof fails if the lookup fails or the key is absent at that version, and otherwise contains, in the order of the inclusion proof, exactly those of its siblings that stand to the right of the key's path, i.e. the siblings at the levels whose key bit is zero, default ones included.",
  ["inputs", "histories"], "for every stored tree, version and rightmost key",
  "a dropped or misordered sibling shows only for some key bits and tree shapes",
  [TR], [("JellyfishMerkleTree::get_range_proof", TR)])
P("C15", "Root, leaf count and plain reads answer for exactly the version asked",
  "get_root_hash_option is the hash of the node stored at (version, empty path) or None if there is none; get_root_hash and get_leaf_count fail if there is none and otherwise give that node's hash and leaf count (0 for null, 1 for a leaf, the stored count otherwise); get(key, version) is the storage's value for that key at that version. Storage errors are passed on, never turned into absence.",
  ["inputs", "histories"], "for every stored tree, version and storage failure",
  "tests rarely make the storage fail or query other versions than they just wrote",
  [TR], [("get, get_root_hash, get_root_hash_option, get_leaf_count", TR)])
P("C16", "An exclusion proof proves the two nearest keys",
  "get_with_exclusion_proof returns the value and proof when the key is present, and otherwise inclusion proofs for the greatest smaller key and the least greater key (only one at the ends; an error when there is none): the search stops at the leaf or empty child on the key's path, the neighbour on a side is the extreme key of the nearest sibling subtree on that side found by climbing from there, nearest parent first, and the extreme key is reached by always taking the least (or greatest) child. Any storage error is passed on.",
  ["inputs", "histories"], "for every stored tree, version and absent key",
  "the neighbour depends on the shape of the tree around the key; tests try few shapes",
  [TR], [("get_with_exclusion_proof, get_bounding_path", TR), ("search_for_closest_node, search_closest_extreme_node, get_extreme_key_hash", TR)])
P("C17", "An update changes exactly the path of its key",
  "Writing a key descends by its nibbles from the root of the tree being built and changes nothing off that path. An insert at a leaf of the same key replaces the leaf (keeping nothing of it); at a leaf of another key it builds the shared path with a node at every common nibble and both leaves below; at a null node or an empty slot it puts the new leaf there; at an internal node it replaces exactly the child at the key's nibble by the node that resulted below. A delete of the key's leaf removes it, collapses a node left with one leaf child into that leaf, moved to the node's place, keeps a node with more, and is no change for an absent key; every new node is stored once, at the version being built and the path where its parent refers to it, with the right hash and leaf count, and the root is recorded.",
  ["inputs", "histories"], "for every tree, key, value, version and storage failure",
  "the shape of a tree is an invariant over all histories of inserts and deletes; tests check a few final trees",
  [TR], [("JellyfishMerkleTree::put", TR), ("insert_at, insert_at_internal_node, insert_at_leaf_node", TR)])
P("C18", "Every node an update replaces is retired exactly once, and no other",
  "While a key is written, every node on its path that is rewritten, moved or removed is taken out of the tree exactly once, before its replacement is stored and with the right leaf flag, a collapsed leaf's old position included; a node that is not changed (delete of an absent key, an untouched sibling) is not.",
  ["inputs", "histories"], "for every tree, key, value, version and storage failure",
  "a live node in the stale index is lost at the next pruning and a retired one that is missing leaks: neither shows in reads at once",
  [TR], [("JellyfishMerkleTree::put", TR), ("insert_at, insert_at_internal_node, insert_at_leaf_node", TR)])
P("C19", "The tree's update proofs are the old leaf and the siblings of the changed path",
  "When a proof is asked for and the tree changed, the proof of an update holds the leaf met on the key's path before the update (none if there was none) and the siblings of that path in the tree before the update, bottom-up, one level's siblings after those of the levels below; and none is returned when none is asked for.",
  ["inputs", "histories"], "for every tree, key and value",
  "a wrong sibling order or a leaf read after the change shows only for some trees, and only when the proof is verified",
  [TR], [("JellyfishMerkleTree::put", TR), ("insert_at, insert_at_internal_node, insert_at_leaf_node", TR)])
P("C20", "Value sets are applied in order, one version each, and returned as built",
  "put_value_sets(sets, first) writes, for the i-th set, every key in order with the hash of its value (or its deletion) at version first+i on the cache as the previous write left it, records each (key, value or deletion) at that version, and closes the version once after its last key, also for an empty set; it returns the closed versions' root hashes in order and the finished cache's nodes, values, stale indices and statistics. With proofs it does the same and returns per set, paired with its root hash, one proof per key in order, each the one returned when that key was written. The single-set variants apply exactly one set; append_value_set does it at the given version on top of the latest version; a failure of any step is returned and nothing else.",
  ["inputs", "histories"], "for every list of value sets, first version, stored tree and storage failure",
  "an update lost, moved to another version or applied before its predecessor shows only for particular lists of sets",
  [TR], [("put_value_sets, put_value_set", TR), ("put_value_sets_with_proof, put_value_set_with_proof", TR), ("append_value_set", TR)])
P("C21", "Batch insertion builds the same paths, run by run",
  "batch_put_value_sets records, per set i at version first+i, every distinct key once with its last value, and inserts the sorted keys with the hashes of those values from the current root, sets the new root and closes the version. Sorted keys are split at each level into the maximal runs that share the nibble there, every key in one run. A run continues at the child stored for its nibble (under that child's own key) or builds a new subtree at the version being written; a single key becomes a leaf, an existing leaf is kept beside the new keys at the first nibble that separates them or replaced by its own key's new value, an internal node keeps its other children; every new node is stored once under its path at that version with the record its parent holds (the hash of the node, or the given one for its path), every replaced node is removed once, and any failure is returned.",
  ["inputs", "histories"], "for every list of value sets, stored tree, provided hashes and storage failure",
  "the split into runs and the place of an existing leaf depend on the particular keys; tests insert random ones, for which shared prefixes are short",
  [TR, "src/types/nibble.rs"], [("batch_put_value_sets, batch_insert_at", TR), ("batch_create_subtree, batch_create_subtree_with_existing_leaf", TR), ("NibbleRangeIterator", "src/types/nibble.rs")])
TC = "src/tree_cache.rs"
P("C22", "An update in progress sees its own writes over the versions before it",
  "While versions are being built, a node is looked up first among the nodes of the version being written, then among those of the versions closed earlier in the same call, then in storage, whose answer and errors are passed on; get_node fails where no node is found. Storing a node under a key already used in this version is an error; otherwise the node is added, and counted as a new leaf exactly if it is a leaf. Removing a node of this version forgets it (uncounting it if it is a leaf); removing an earlier one marks its key stale (counted as a stale leaf exactly if it is a leaf); a value is recorded for exactly its version and key, the last write of a key in a version counting; a build at version 0 starts from the pre-genesis root if storage has one and from an empty root at version 0 otherwise; a build at version v > 0 starts from the root of v - 1; an in-place build (migration) starts from the given version's root, and fails unless that is the version of the rightmost leaf; every build starts with nothing recorded.",
  ["inputs", "histories"], "for every history of writes, stored tree and storage failure",
  "which of the three places answers depends on the versions a batch spans; tests rarely mix them, and none checks the counters after each write",
  [TC], [("get_node, get_node_option", TC), ("put_node, delete_node, put_value, set_root_node_key", TC), ("TreeCache::new, new_overwrite", TC)])
P("C23", "Closing a version freezes exactly what was written, under its own root",
  "Closing a version appends the hash of the current root (the empty tree's hash if there is no root node) to the root hashes, adds this version's nodes and values to those of the versions closed before, adds one stale index per node marked stale, since exactly this version, and appends the numbers of new nodes, new leaves, stale nodes and stale leaves of this version. Nothing else is added: if the version changed nothing, its root is the previous root, stored again under this version; if there is no root, an empty root is stored under this version. The next version starts with nothing recorded and the same root; errors while reading the root are passed on; the finished cache hands over exactly the root hashes, nodes, values, stale indices and statistics of the closed versions.",
  ["inputs", "histories"], "for every history of writes, number of versions, stored tree and storage failure",
  "a root lost or misfiled shows only for versions that change nothing or empty the tree, and only in the versions after it",
  [TC], [("TreeCache::freeze", TC), ("From<TreeCache> for (Vec<RootHash>, TreeUpdateBatch)", TC)])
WR = "src/writer.rs"
P("C24", "A node batch holds what was put into it; reads fail only where nothing is stored",
  "A NodeBatch made from nodes and values holds exactly those; inserting a node replaces the one stored under its key and returns it; inserting a value records it as present under (version, key), replacing what was there; extend and merge add every node and every value of the argument, deletions included, the later entry winning; clear leaves nothing; get_node, nodes and values show what is held; is_empty holds exactly if there are neither nodes nor values. TreeReader::get_node and get_value return what get_node_option and get_value_option found, and an error where they found nothing or failed.",
  ["inputs", "histories"], "for every sequence of operations on batches, and every reader",
  "what is lost when batches are merged depends on which keys overlap; tests never merge overlapping batches",
  [WR, "src/reader.rs"], [("NodeBatch", WR), ("TreeReader::get_node, get_value", "src/reader.rs")])
MK = "src/mock.rs"
P("C25", "The in-memory store keeps every version and prunes only what is stale",
  "MockTreeStore returns the node stored under a key, the preimage stored for a key hash, the newest value of a key (or its deletion) not after the version asked for, and the leaf with the greatest key hash. Values of a key are recorded in version order: an older one is refused with an error, one of the same version replaces the last, a newer one is added. Writing a batch stores every node and every value, refusing to replace a node unless overwriting is allowed, and every stale index, a duplicate being an error; put_leaf stores a leaf under a free key with its value at the key's version; purging up to a version removes exactly the nodes and indices stale since that version or earlier, and fails if such a node is missing; every other call leaves the store as it was.",
  ["inputs", "histories"], "for every content of the store, batch and version",
  "the tests use the store as their oracle: an error in it hides errors in the tree, or shows only for histories with deletions, gaps and pruning",
  [MK], [("impl TreeReader, TreeWriter, HasPreimage for MockTreeStore", MK), ("put_value, put_leaf, write_tree_update_batch, purge_stale_nodes", MK)])
IT = "src/iterator.rs"
P("C26", "Iterating from a key or position yields every later pair once, in key order",
  "JellyfishMerkleIterator::new(reader, v, k) stands before the least key not less than k of the tree at version v; new_by_index(reader, v, n) before the n-th pair in key order. next() yields the pairs from there on in ascending key order, each once, with the value its leaf stands for, then None. Concretely: the walk from the root of v follows k's nibbles and the versions recorded in the children; at every node on the way the iterator remembers that the child at k's nibble, or else the next existing child to its right, comes next; a leaf less than k, or a node with no child at or right of the nibble, is left behind together with every ancestor whose last child it was; only a tree that is empty or consists of a smaller leaf is finished at once; by index, children are passed over in order, their leaf counts added up, while all their leaves come before the n-th; an index not below the leaf count yields nothing; next() descends to the first child of each node it enters, reads the leaf's value from storage, and afterwards moves to the next child of the nearest ancestor that has one; every error of storage, a missing node or value and a null node below the root are returned as errors, never as the end.",
  ["inputs", "histories"], "for every tree, starting key, index, set of children of a node, and storage failure",
  "which sibling comes next depends on the 65536 sets of children a node can have, and where to start on the first nibble the key does not share with the tree; tests use a few hundred random keys",
  [IT], [("JellyfishMerkleIterator::new, new_by_index, next", IT), ("NodeVisitInfo, cleanup_stack, skip_leaves", IT)])
RE = "src/restore.rs"
P("C27", "A chunk is checked as a whole before any of it is written",
  "add_chunk(pairs, proof) refuses an empty chunk, and any key not greater than the last one accepted before it, in this chunk, an earlier one or before a restart. Each pair's value is batched as present under the version being restored and its key, the leaf of its key and its value's hash is added to the tree, and it becomes the last accepted pair. Then the whole is checked: the siblings to the left of the last key come from the restored part of the tree, in each node the hash of the binary subtree over the children of that half (placeholder if there are none, the leaf itself if there is only one leaf); placeholders below the deepest sibling are dropped; the proof must not have more right siblings than the key has 0 bits, and together with the last leaf and the left siblings, deepest first, it must verify against the expected root; only then are the batched nodes and values written, in one call, and cleared if that succeeded; when a check or the write fails the call returns an error, and where a check fails nothing is written.",
  ["inputs", "histories"], "for every chunk, proof, state of the restoration and storage failure",
  "an attacker chooses chunk and proof; tests restore only correct chunks, and a check that is skipped or comes too late shows only for wrong ones",
  [RE], [("JellyfishMerkleRestore::add_chunk, verify", RE), ("compute_left_sibling", RE)])
P("C28", "A restored tree has exactly the nodes its keys imply, and the expected root",
  "Adding a pair whose key is greater than all before it puts its leaf where the key first differs from all others: into the free slot of the deepest unfinished node on its way, or, where another leaf is in the way, into a new node at the end of their common prefix, with a chain of unfinished nodes above it. Everything left of the new key becomes final: the previous leaf under the path of its place, each unfinished node the new key does not pass as an internal node of its children (leaf or internal, with hash, leaf count and the restored version) under its own key, its hash and leaf count entered in its parent. After a restart the previous leaf, which is stored already, is not stored again; finish() makes everything final and writes it: a single leaf as the root itself, no pairs as the empty tree, otherwise the root as internal node; all this only if the hash of the root is the expected root hash, else it returns an error and writes nothing; a storage error is returned.",
  ["inputs", "histories"], "for every key sequence (the shapes of up to six nested unfinished nodes with every slot, and the 64-nibble paths, are enumerated; hashes, leaves, versions and keys' remaining nibbles are symbolic)",
  "which nodes become final depends on where two neighbouring keys part, 64 depths with 16 slots each; random test keys part at the first few nibbles",
  [RE], [("add_one, insert_at_leaf, freeze, finish", RE), ("InternalInfo::into_internal_node", RE)])
P("C29", "A restoration resumes where the last one stopped",
  "JellyfishMerkleRestore::new finds the rightmost leaf in storage. Without one it starts with an empty root node; else the leaf is the last pair accepted, and the unfinished nodes are the ancestors of the leaf that are missing in storage, from the root down to the deepest missing one: each with the children stored under the version being restored (internal ones with hash and leaf count), for the deepest at any slot, for the others left of the way to the leaf, on which the next unfinished node is a child still without hash. A leaf stored at the root, a root that is already stored, a null node as child and any storage error are reported as errors; new_overwrite starts with an empty root node in any case; nothing is batched and no pair counted at the start.",
  ["inputs", "histories", "crash_points"], "for every crash point of a restoration (the missing ancestors and stored children are enumerated over shapes up to six levels, with every slot; nodes, versions and leaves are symbolic)",
  "which nodes are stored when a restoration is interrupted depends on the keys and the crash point; tests interrupt after a few random keys",
  [RE], [("JellyfishMerkleRestore::new, new_overwrite, recover_partial_nodes", RE)])
IC = "src/tree/ics23_impl.rs"
P("C30", "An ICS23 proof recomputes the tree's root from the key and value it names",
  "get_with_ics23_proof(key, v) takes the answer of get_with_exclusion_proof for the hash of the key. If the key is present it returns its value with an existence proof of key and value: the leaf step hashes the leaf domain separator, the hash of the key and the hash of the value; then follows one step per sibling, the lowest first, which hashes the separator of internal nodes, and around the hash so far the sibling's hash: before it where the key hash's bit at that depth is one, after it where the bit is zero. If the key is absent it returns no value and a non-existence proof of the key with the existence proofs of its neighbours, left and right not exchanged, each made from the neighbour's preimage, its value at v and its proof; a side without neighbour is empty; an unreadable or missing preimage or value is an error; ics23_spec() describes just these proofs: the same leaf step, child order left before right, inner prefix of the length of the separator, children of 32 bytes, the placeholder as empty child, comparison by hashed keys, and no limit on depth that a proof can exceed.",
  ["inputs", "histories"], "for every key, version, tree answer and storage failure (proofs with 0 to 256 siblings and mixed key hashes are enumerated; siblings, values and preimages are symbolic)",
  "the step for depth d is on the path of only few random keys for d above 20: tests never see siblings at most of the 256 depths",
  [IC], [("get_with_ics23_proof", IC), ("sparse_merkle_proof_to_ics23_existence_proof", IC), ("ics23_spec", IC)])
P("C31", "What is encoded is decoded unchanged",
  "Encoding with Borsh and decoding again yields the same value and consumes exactly the bytes written, for every public type that has an encoding: nodes, node keys, paths, children, stale indices, statistics, batches, hashes and proofs. Every field that carries data is written once, whole, and read back into the same field; an enum's tag selects the variant that was written. With serde the same holds for formats with field names (each field is read under the name it was written under, and always written) and without (the i-th value read is the i-th written; the number of fields announced is the number written; a variant's number and name select that variant); encoding fails only if the writer fails; RootHash converts to and from its 32 bytes unchanged.",
  ["inputs"], "for every value of the types and every format and writer", "round-trip tests exist for two proof types only; nodes and batches are persisted and exchanged by users, and a field left out or cut goes unnoticed until the tree is read back",
  ["src/node_type.rs", DEF, PRF, "src/types/nibble.rs", "src/types/nibble/nibble_path.rs", "src/writer.rs", "src/lib.rs"],
  [("BorshSerialize/BorshDeserialize and Serialize/Deserialize of Node, NodeKey, InternalNode, LeafNode, Child, Children, NodeType", "src/node_type.rs"), ("encodings of the proofs", DEF), ("encodings of batches, statistics and stale indices", "src/writer.rs")],
  technique="abstract interpretation of encoders and decoders over rustc MIR: sequence of (type, field) written against sequence of (type, field) read")
P("C32", "A failed store access makes the operation fail",
  "Whenever a call of TreeReader, HasPreimage or TreeWriter made by the tree, its cache, the iterator, the ICS23 queries or the restore returns an error, the operation that made it returns an error (the iterator yields one): it does not panic on it, it does not take the failure for an absent node, value, preimage or leaf, and it does not report success after a write that failed. The same holds for every function between the store and the public operation. (The mock store, which is an in-memory map, is not concerned.)",
  ["inputs", "fault_sequences"], "for every store and every access that fails", "the tests' store never fails, so no test runs an error path; a failure taken for absence yields a wrong answer or a corrupt tree",
  ["src/tree.rs", "src/tree_cache.rs", "src/iterator.rs", "src/restore.rs", "src/tree/ics23_impl.rs", "src/reader.rs", "src/node_type.rs"],
  [("every call of the store in the tree, the cache and the ICS23 queries", "src/tree.rs"), ("calls of the iterator", "src/iterator.rs"), ("calls of the restore", "src/restore.rs"), ("reads of siblings while a proof is built", "src/node_type.rs")],
  technique="interprocedural MIR lint: what becomes of the Result of every fallible storage call (typed call sites, error arms, panicking and discarding sinks)")
P("C33", "Operations of the in-memory store are atomic and cannot deadlock",
  "Each operation of the in-memory store (reading a node, a value, a preimage or the rightmost leaf, counting nodes, writing a node batch, a leaf, a preimage or a stale index, and pruning) does all its reading and writing of the shared state in one critical section, so that concurrent operations see all of its effects or none. No operation, the writing of a whole update included, requests the lock while the same thread holds it, on any path, and every guard is released.",
  ["schedules"], "for every interleaving of operations on a shared store", "the tests use the store from one thread",
  ["src/mock.rs"], [("RwLock of the store's state and its guards", "src/mock.rs")],
  technique="interprocedural lock analysis over rustc MIR: guard lifetimes, nested acquisition, number of acquisitions per path")
P("C34", "Results depend on nothing but the arguments and the store",
  "Two calls with the same arguments over stores that answer alike return the same results, batches, proofs, encodings and errors, on every machine and in every run: nothing in the crate reads the time, the environment, files, random numbers, thread identities, addresses or a hash table's seed. Where a hash table is iterated, the order does not show: the entries go into ordered or unordered collections, are sorted, counted or compared as a whole, and never end up in a sequence, a hash or a choice in the order the table gives them. (The in-memory store's rightmost leaf is asked for during a restore, when it holds a single version; with several it is not concerned.)",
  ["inputs", "configurations"], "for every seed of the hash tables, machine and run", "nodes of a network must agree on roots and batches; a test run sees one seed and a few entries at a time",
  ["src/tree_cache.rs", "src/tree.rs", "src/writer.rs", "src/mock.rs", "src/restore.rs", "src/iterator.rs"],
  [("hash tables of the version being built, drained when it is closed", "src/tree_cache.rs"), ("ordered batches", "src/writer.rs"), ("sorting of batched keys", "src/tree.rs")],
  technique="MIR lint with dataflow: ambient-input calls are forbidden; every hash-table iteration is followed to its sinks")
N("N01", "The tree behaves as a versioned map, whatever the history",
  "After any history of value sets written by any mix of single, multi-version and batch insertion, the root hash at every version is that of the binary tree over exactly the pairs live at that version, and reading, iterating and counting at that version give exactly those pairs.",
  ["inputs", "histories"], "for every history of insertions, overwrites and deletions",
  "the tests compare a handful of histories with a naive model", ["src/tree.rs", "src/node_type.rs"],
  [("insertion and batch insertion", "src/tree.rs")],
  "Relates whole histories with a model: every single step is decided statically (C07-C10, C13, C15, C17, C20-C23, C26), but the induction over an unbounded history that composes them is not made by a static analysis in reach.")
N("N02", "Every proof the tree makes is accepted by the verifier for its root",
  "For every history, version and key, the inclusion, exclusion, range, update and ICS23 proofs the tree returns are accepted by the corresponding verifier against that version's root.",
  ["inputs", "histories"], "for every history and key", "the tests verify proofs of a few small trees", ["src/tree.rs", DEF],
  [("proof construction", "src/tree.rs"), ("verification", DEF)],
  "Relates two programs over unbounded trees (the hashes a proof folds to and the hash stored at the root): each side is decided against one specification (C07-C09, C13, C14, C16, C19, C30; C01-C04), the relation itself quantifies over run-time trees.")
N("N03", "Different ways to write the same pairs give the same root",
  "Single insertion, batch insertion, in-place appending and restoration of the same pairs, in any order and partition the operation allows, result in the same root hash.",
  ["inputs", "histories"], "for every set of pairs and way of writing them", "the tests compare a few shapes", ["src/tree.rs", "src/restore.rs"],
  [("batch insertion", "src/tree.rs"), ("restoration", "src/restore.rs")],
  "Equivalence of different programs over unbounded inputs: the steps of each are decided (C17, C20, C21, C28), their equivalence needs an induction no static analysis in reach makes.")
N("N04", "A version once written stays readable until pruned, unchanged",
  "Once its batch is stored, a version's root, values and proofs are the same for ever, whatever is written or pruned later, as long as nothing stale since that version or before is pruned.",
  ["histories"], "for every later history", "the tests read a few old versions of short histories", ["src/tree.rs", "src/tree_cache.rs", "src/mock.rs"],
  [("stale node marking", "src/tree_cache.rs"), ("pruning", "src/mock.rs")],
  "A statement over the history of a store, whose nodes' reachability is a run-time quantity: the local facts (exactly the replaced nodes are retired, at this version; keys carry the version; the store prunes only what is stale) are decided by C18, C22, C23 and C25.")
N("N05", "An operation does work proportional to the depth of the tree",
  "Reading, proving and updating one key visits at most the nodes on its path, and writing a version of n keys at most n such paths.",
  ["inputs"], "for every tree", "the tests measure nothing", ["src/tree.rs"], [("descent by nibbles", "src/tree.rs")],
  "A bound on run-time quantities (number of nodes visited, of siblings, of pairs per run) over trees of any shape; only the limit of 64 levels of the walks is decided (C13, C26).")
