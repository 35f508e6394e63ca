import json
P=[]
BIN="src/binary/merkle_tree.rs"; SP="src/sparse/merkle_tree.rs"; SUM="src/sum/merkle_tree.rs"
ST={"name":"storage","meaning":"the caller's key-value store; the only state that survives a crash","where":"src/storage.rs"}
def add(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=(state or [])+[ST],mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe or [],hook_needed=None)))

HEAD={"name":"head","meaning":"list of complete subtrees (peaks) of the pushed leaves, held in memory","where":BIN}
ROOTN={"name":"root_node","meaning":"root of the sparse tree held in memory","where":SP}
SHEAD={"name":"head","meaning":"list of complete subtrees of the sum tree, held in memory only","where":SUM}

add("C01","Binary root commits to exactly the acknowledged leaves, in every history",
 "After any history of pushes, failed pushes, reloads and crashes, the root of the binary Merkle tree is the RFC 6962 Merkle tree hash of exactly the leaves whose push was acknowledged, in the order of their acknowledgement. This holds for every number of leaves below 2^60 and every leaf content, whatever storage calls failed in between, and asking for the root changes nothing. The in-memory variant has the same root for the same leaves.",
 ["histories","fault_sequences","inputs","crash_points"],
 "every sequence of push, root, prove, reload and crash, with any storage call failing, for any number of leaves below 2^60",
 "Unit tests push a handful of fixed leaf lists onto storage that never fails; the root depends on the whole history of partial failures, reloads and counts, of which tests sample a few fault-free ones.",
 [BIN,"src/binary/in_memory.rs","src/common/subtree.rs","src/common/position.rs","src/binary/hash.rs"],
 [("push / join_all_subtrees",BIN),("root_node",BIN),("build",BIN)],[HEAD],["root()"])
add("C02","Every inclusion proof verifies against the root it comes with",
 "Whenever a proof is returned for a leaf index below the number of leaves, its root is the tree's current root, its first element is the hash of that very leaf, and an independent RFC 6962 verifier accepts the proof for exactly that index, leaf count and root. Every index not below the number of leaves, including the greatest representable one, is answered with the invalid-index error, never with a proof or a panic. This holds after every history of pushes, storage failures, reloads and crashes, and for the in-memory variant.",
 ["histories","inputs","fault_sequences"],
 "every tree below 2^60 leaves, every 64-bit index, every history leading to the tree, with any read failing during the proof",
 "Tests check proofs of a few small trees at a few indices on storage that never fails; they neither reach the path arithmetic at large counts nor proofs on reloaded or partly failed histories.",
 [BIN,"src/binary/in_memory.rs","src/common/path_iterator.rs","src/common/position_path.rs"],
 [("prove",BIN),("position path and side positions","src/common/position_path.rs")],[HEAD],["prove(index)"])
add("C03","A failed binary push leaves the tree as it was and usable",
 "If a push fails because a storage call failed, the error is returned, and the tree's root, leaf count and proofs are those from before the push. The same or another leaf can be pushed afterwards, any number of failures later, with the same result as if the failed push had never been attempted.",
 ["fault_sequences","histories"],
 "every position of the failing storage call inside a push, every kind of failure (before or after taking effect, disk full), at every leaf count and repeated",
 "The tests' storage never fails, so no test reaches the error path of a push at all.",
 [BIN],[("push",BIN),("join_all_subtrees",BIN)],[HEAD],["push()","root()","prove()"])
add("C04","Binary tree recovers every acknowledged leaf after any crash",
 "If the process dies at any storage call and the tree is loaded at a leaf count that was acknowledged and made durable, its root, all its proofs and all later pushes are those of exactly these leaves. This holds whichever of the writes that were not yet durable survive, and whatever an interrupted or lost push left behind in storage.",
 ["crash_points","histories","fault_sequences"],
 "a crash before or after every storage call, with any prefix or subset of the unsynced writes surviving, followed by any further history including more crashes",
 "Tests never stop inside a push and only load from storage that holds exactly the finished tree.",
 [BIN],[("load / build",BIN),("peak_positions",BIN),("push",BIN)],[HEAD],["load(storage, count)"])
add("C05","Earlier binary tree versions stay readable while the tree grows",
 "A tree loaded at any earlier leaf count has the root and the proofs of that count, no matter how many leaves have been or are being pushed since, failed pushes and restarts of the writer included. Readers at several counts and one writer may interleave at every storage access without seeing each other's state.",
 ["schedules","histories","fault_sequences"],
 "every interleaving of the storage accesses of one writer and several readers at any earlier counts, with failures and restarts of the writer",
 "Tests use one tree at a time on one storage; they never load an older count after further pushes, let alone read it while a push is half done.",
 [BIN],[("only complete subtrees are stored under their position and never rewritten",BIN),("prove uses scratch storage for the incomplete nodes",BIN)],[HEAD],["load(storage, count)","prove()"])
add("C06","Missing binary nodes give an error or the right answer, never a wrong one",
 "If nodes are missing from storage, or a tree is loaded at a count for which not all nodes are stored, then load and prove either answer as they would with complete storage or return an error. They never return a wrong root or a proof that does not verify, never panic, and loading never succeeds unless every complete subtree of that count is stored. Once the nodes are back, the tree answers as before.",
 ["fault_sequences","inputs","histories"],
 "every set of nodes lost at any moment, also in the middle of an operation, and every count below 2^61",
 "Tests remove one chosen node in one or two fixed trees; the property ranges over all sets of lost nodes and all counts.",
 [BIN],[("LoadError in build and prove",BIN)],[HEAD],["load()","prove()"])
add("C07","Sparse root depends only on the current contents, not on the history",
 "After any history of updates, overwrites, deletes, storage failures, reloads and crashes, the root of the sparse Merkle tree is that of the compact sparse Merkle tree of the current key-value contents, and zero if there are none. This holds for every set of 256-bit keys, whatever prefixes they share and even if a key equals the hash of a node, and every value. The in-memory variant has the same root for the same contents.",
 ["histories","inputs","fault_sequences","crash_points"],
 "every history of updates and deletes over every set of keys, with any storage call failing or the process dying in between",
 "Tests compare a few fixed key sequences with known roots on storage that never fails; shared prefixes, adversarial keys and partly failed operations are out of their reach.",
 [SP,"src/sparse/node.rs","src/sparse/in_memory.rs"],[("update_with_path_set",SP),("delete_with_path_set",SP),("path_set",SP)],[ROOTN],["root()"])
add("C08","Deleting an absent sparse key changes nothing",
 "Deleting a key that is not in the sparse tree, or updating it with empty data, leaves the root, the contents and the stored nodes of the tree unchanged and does not fail on working storage. This holds however often it is repeated and for every key, including keys equal to the hash of a stored node or leaf, and to keys deleted before.",
 ["histories","inputs"],
 "every absent key in every tree reached by any history, with storage failures before and during the call",
 "Tests delete a few fixed absent keys from fixed trees; whether an absent key's path ends at a placeholder, at another leaf or at residue of earlier operations depends on the history.",
 [SP],[("delete",SP),("path_set",SP)],[ROOTN],["delete()","update(key, [])","storage contents"])
add("C09","A failed sparse update or delete leaves the old or the new tree, complete",
 "If a storage call fails during an update or delete, the error is returned, and the tree afterwards has either the root from before or the root of the completed operation, with every node below it present in storage. All later operations behave as on that tree, and repeating the failed operation on working storage completes it.",
 ["fault_sequences","histories"],
 "every position of the failing storage call inside an update or delete, every kind of failure, at every tree shape, repeated",
 "The tests' storage never fails; no test reaches the error paths.",
 [SP],[("order of inserts, root change and removals in delete_with_path_set",SP),("update",SP)],[ROOTN],["update()","delete()","root()","storage contents"])
add("C10","Sparse tree is complete under the old or the new root after any crash",
 "If the process dies at any storage call of an update or delete on storage that keeps its writes in order, then storage holds, complete, the tree of the last acknowledged root or of the interrupted operation's root, and it can be loaded and used from there. With unsynced writes lost from the end of the order, the same holds for some state since the last sync; with writes lost in any combination, it holds for the synced root as long as nothing was deleted since.",
 ["crash_points","histories","fault_sequences"],
 "a crash before or after every storage call, with write-through, prefix, subset (for histories without deletes) or transactional durability, followed by any further history",
 "Tests never stop inside an operation.",
 [SP],[("new nodes are stored before stale ones are removed",SP),("load",SP)],[ROOTN],["load(storage, root)","storage contents"])
add("C11","Reloading a sparse tree from its root loses nothing",
 "A sparse tree loaded from storage by the root it had, including the zero root of an empty tree, has that root and behaves in every later operation exactly as the tree that was never closed. This holds at every point of every history, also after failed operations and crashes.",
 ["histories","fault_sequences","crash_points"],
 "a reload at any point of every history of updates, deletes, failures and crashes",
 "Tests reload one or two fixed trees once.",
 [SP,"src/sparse/primitive.rs"],[("load",SP),("conversion between node and stored form","src/sparse/primitive.rs")],[ROOTN],["load(storage, root)"])
add("C12","Sparse updates never destroy earlier roots or other branches on the store",
 "As long as keys are only added or overwritten, every root that was ever returned stays loadable with all its contents, and trees continued from different earlier roots on one shared store never disturb each other. This holds for every interleaving of their storage accesses, with storage failures and crashes of some of them in between.",
 ["schedules","histories","fault_sequences"],
 "every interleaving of the storage accesses of several updating trees on one store, and every history of branching from earlier roots, with failures and crashes",
 "Tests never look at an older root after further updates, nor let two trees share a store.",
 [SP],[("update stores nodes under their hash and removes nothing",SP)],[ROOTN],["load(storage, root)","storage contents"])
add("C13","Missing or mistagged sparse nodes give an error, never a wrong root",
 "If stored sparse nodes are missing or carry an invalid type tag, then load, update and delete either behave as with intact storage or return an error and leave the tree at its old or its new root. They never panic and never produce the root of other contents, and once the nodes are back the tree works as before.",
 ["fault_sequences","histories"],
 "every set of nodes lost or mistagged at any moment, also in the middle of an operation",
 "Tests remove one chosen node of one fixed tree.",
 [SP,"src/sparse/node.rs","src/sparse/primitive.rs"],[("ChildError, LoadError, DeserializeError",SP),("prefix of the stored form is validated","src/sparse/primitive.rs")],[ROOTN],["load()","update()","delete()"])
add("C14","Sum root is the total fee and digest of the acknowledged leaves",
 "After any history of pushes, failed pushes, root queries and failed root queries, the sum tree's root carries exactly the sum of the fees of the acknowledged leaves, and the digest defined recursively over these leaves and their fees in order. This holds for every number of leaves, every content and all fees with a total below 2^64, also on storage that already holds nodes of earlier trees.",
 ["histories","inputs","fault_sequences"],
 "every history of pushes and roots with any storage call failing, every list of fees whose total fits into 64 bits",
 "Tests push a few fixed leaves with fixed small fees on storage that never fails.",
 [SUM,"src/sum/node.rs","src/sum/hash.rs"],[("push / join_all_subtrees",SUM),("root_node",SUM)],[SHEAD],["root()"])
add("C15","A failed sum push or root leaves the sum tree as it was",
 "If a push or a root query of the sum tree fails because a storage call failed, the error is returned and the tree still holds exactly the leaves acknowledged before; later pushes and roots succeed with the same results as if the failed call had never been made.",
 ["fault_sequences","histories"],
 "every position of the failing storage call in push and root, every kind of failure, at every leaf count and repeated",
 "The tests' storage never fails.",
 [SUM],[("push works on a copy of the list of subtrees",SUM),("root_node",SUM)],[SHEAD],["push()","root()"])
add("C16","All nodes below a returned sum root are stored and their fees add up",
 "When the sum tree returns a root for at least one leaf, storage holds every node below it under its digest: the fee of each inner node is the sum of its children's fees, its digest is the hash of them, and the leaves are the acknowledged ones in order. This stays true of every root ever returned, whatever is pushed or fails later, and across crashes once synced.",
 ["histories","fault_sequences","crash_points"],
 "every history of pushes, roots and crashes with any storage call failing",
 "Tests look only at returned roots, never at the stored nodes, and never let storage fail or crash.",
 [SUM,"src/sum/node.rs"],[("join_subtrees stores every joined node",SUM)],[SHEAD],["storage contents"])
add("C17","A failing storage call is never hidden behind a success",
 "On storage that has all its nodes, every call of a binary, sparse or sum tree during which a storage operation reported an error returns that very error, wrapped or not; it never reports success, another error or a missing node in its place. Calls during which no storage operation failed and no node was missing never fail, except for an invalid proof index.",
 ["fault_sequences","histories"],
 "every storage call of every operation of all three trees failing, in every history",
 "The tests' storage never fails.",
 [BIN,SP,SUM,"src/common/error.rs"],[("error propagation through the path iterators","src/sparse/node.rs"),("? operators",BIN)],[],["results of all calls"])
add("C18","Every call ends within a logarithmic number of storage calls and recovers",
 "Every call of every tree ends after a number of storage calls at most linear in the depth of the leaf or the logarithm of the leaf count, also in trees with up to 2^60 leaves, after failures, and with keys sharing any prefix. Once storage works again, the next call succeeds, whatever failed before.",
 ["histories","fault_sequences","inputs"],
 "every history and fault sequence followed by a period without faults; the bound is 8 storage calls per level plus 16",
 "Tests count no storage accesses and never let storage fail.",
 [BIN,SP,SUM],[("path iteration",SP),("build and root_node over the peaks only",BIN)],[],["number of storage calls per call"])
add("C19","Sparse replicas with equal contents have equal roots and converge",
 "Replicas that apply the same versioned writes in different orders, with messages lost, duplicated, delayed or cut off and replicas crashing, have equal roots exactly when they have equal contents, at every moment. Comparing roots therefore finds every difference, and after the network and disks work again all replicas reach the same root within a bounded time.",
 ["schedules","fault_sequences","crash_points","histories"],
 "every delivery order and fault sequence among two to four replicas, on disk or in memory, with failing and rolled-back storage transactions",
 "Tests run one tree; equality of roots across different histories of several trees with restarts is never tested.",
 [SP,"src/sparse/in_memory.rs"],[("history independence of update and delete",SP),("load",SP)],[ROOTN],["root()"])
add("C20","Binary replicas agree at every count; proofs verify across replicas",
 "Replicas of one append-only log on failing, crashing disks and a lossy network have the same root at the same leaf count, and catch up to the same log within a bounded time once faults stop. A proof given by any replica for any count it has verifies, by an independent verifier and by the one shipped with the library, against the root another replica reported for that count, and no proof damaged in transit does.",
 ["schedules","fault_sequences","crash_points","histories"],
 "every delivery order and fault sequence among a leader, followers on disk or in memory and a light client asking for proofs at current and earlier counts",
 "Tests verify proofs of one tree against its own root without failures.",
 [BIN,"src/binary/in_memory.rs","test-helpers/src/binary/verify.rs"],[("prove",BIN),("verify","test-helpers/src/binary/verify.rs")],[HEAD],["root()","prove()","verify()"])
add("C21","Position arithmetic leads to every stored node of a binary tree",
 "The public position and path arithmetic agrees with what a binary tree stores, at every leaf count below 2^60 and after every history: going from any leaf upwards by parent, sibling and uncle, downwards by children, or along the path to a leaf reaches exactly the tree's nodes in order, at the right height and kind. A process that has only the storage and the leaf count finds every complete subtree under its in-order index and recomputes leaf and root from what it reads there.",
 ["histories","inputs","fault_sequences","crash_points"],
 "every leaf of every tree below 2^60 leaves, walked at any moment of a history of pushes, failures and crashes, with reads failing during the walk",
 "Tests check the arithmetic at a few small positions with fixed answers; errors at great heights, near powers of two or on incomplete trees, and disagreement with what push stores, lie outside them.",
 ["src/common/position.rs","src/common/position_path.rs","src/common/path_iterator.rs","src/common/msb.rs",BIN],
 [("Position","src/common/position.rs"),("PositionPath and its iterator","src/common/position_path.rs"),("as_path_iter","src/common/path_iterator.rs")],[],
 ["Position","Position::path","as_path_iter","storage contents"])
add("C22","No leaf content can be passed off as an inner node",
 "In every tree, leaf hashes are taken over a zero byte followed by the content, and inner hashes over a one byte followed by the children (with their fees in the sum tree; the key and the hash of the value in a sparse leaf). So an adversary who writes leaves whose contents are the encoding of any inner node or leaf of the tree, present or earlier, never obtains the root, proof or stored node of a different list or set of leaves, whatever failures and crashes happen meanwhile.",
 ["inputs","histories","fault_sequences"],
 "every history in which leaf contents and sparse keys and values are built from the encodings and hashes of the tree's own nodes, of every length",
 "Tests compare a few constant hashes; none writes leaves built from the nodes of the tree under attack, on histories with failures.",
 ["src/binary/hash.rs","src/sparse/hash.rs","src/sum/hash.rs","src/common/prefix.rs","src/binary/node.rs","src/sparse/node.rs","src/sum/node.rs"],
 [("prefixes","src/common/prefix.rs"),("leaf_sum, node_sum","src/binary/hash.rs")],[],["root()","prove()","storage contents"])
add("C23","The shipped in-memory storage map is a map, also under a crashing tree",
 "In any sequence of calls to the shipped in-memory storage, by the trees or directly, through its fallible or infallible interface, owned, borrowed or mutably borrowed, reading a key returns the last value inserted and not removed, containment agrees with reading, insert and remove return the previous value, no call fails, and no other key or other map changes. This stays so for any number and content of keys and values.",
 ["histories","inputs","crash_points"],
 "every sequence of calls on several maps of several tables, and every history of all three trees on it, cut off by simulated crashes at any call",
 "Tests make a few calls with a few keys; wrong previous values, or entries affected by others, show only in particular sequences.",
 ["src/common/storage_map.rs","src/storage.rs"],
 [("StorageMap","src/common/storage_map.rs"),("infallible wrappers","src/storage.rs")],[],["StorageInspect, StorageMutate and the infallible calls on StorageMap"])
add("C24","Binary storage holds every complete subtree, and nothing else changes",
 "After every acknowledged push, storage holds the root hash of every complete subtree of the acknowledged leaves under its in-order index, together with that index, as any earlier or later version of the library expects to find it; nodes of incomplete subtrees are not stored. A push, failed or not, changes no entry but those of the subtrees it completes; load, root and prove change nothing. This holds in every history of failures, crashes and reloads.",
 ["histories","fault_sequences","crash_points"],
 "every history of pushes, proofs, reloads, failures and crashes at every leaf count below 2^60",
 "Tests look at roots and proofs, and at a few stored nodes of fixed trees; a consistent change of the layout, or a stray write that only a later history would read, passes them.",
 [BIN,"src/binary/primitive.rs","src/common/position.rs"],[("push / join_all_subtrees",BIN),("in-order index as key","src/common/position.rs")],[HEAD],["storage contents"])
add("C25","A sparse write changes storage by exactly its own path",
 "A completed update adds to storage exactly the nodes on the key's new path, each under its hash with its height, type and children, and removes nothing. A completed delete besides removes exactly the nodes of the deleted key's old path. A failed write adds or removes no other nodes than these, and load changes nothing, so the stored nodes below the current root are always well formed, whatever history of failures led there.",
 ["histories","fault_sequences"],
 "every update and delete in every tree reached by any history, with any storage call failing before or during it",
 "Tests look at roots only; nodes left behind, removed from under another version, or stored with a wrong height show only in particular later histories.",
 [SP,"src/sparse/node.rs","src/sparse/primitive.rs"],[("update_with_path_set",SP),("delete_with_path_set",SP),("create_node_on_path","src/sparse/node.rs")],[ROOTN],["storage contents"])
add("C26","Trees on separate storage never influence each other",
 "Any number of trees of all kinds, each on storage of its own, behave as if each were alone, however their calls and storage accesses are interleaved by threads or by one thread going from one to the other, and whatever failures and crashes the others meet, also when they hold the same keys or leaves.",
 ["schedules","histories","fault_sequences"],
 "every interleaving, at storage accesses and between calls, of the histories of several binary, sparse and sum trees",
 "Tests use one tree at a time and cannot choose interleavings.",
 [BIN,SP,SUM,"src/sparse/hash.rs","src/binary/hash.rs"],[("constants behind OnceLock-like statics","src/sparse/hash.rs"),("all state is in the tree and its storage",BIN)],[],["root()","prove()","storage contents"])
add("C27","The same history gives the same result in every build and every repetition",
 "The same history of calls and storage faults gives the same roots, proofs, errors and storage accesses whenever it is repeated, and in every build of the library: with and without the standard library, with and without debug assertions and overflow checks. Nodes that must agree may thus run different builds.",
 ["histories","fault_sequences","inputs"],
 "every history of all trees, replicas and interleavings that the other properties range over, in three builds",
 "Tests run in one build and compare with constants; they never compare builds on histories with failures, large counts or adversarial keys.",
 [BIN,SP,SUM,"src/lib.rs"],[("std feature","src/lib.rs"),("arithmetic that must not overflow","src/common/position.rs")],[],["results of all calls"])
add("C28","In-memory trees behave exactly as trees on storage",
 "The in-memory binary and sparse trees, given the same calls in the same order as a tree on storage, return the same roots and proofs at every moment, for every leaf, key and value, including absent keys, repeated and empty updates, deletes and invalid proof indices. Whatever the tree on storage meets (failures that are retried, crashes, reloads) leaves no difference once the same leaves or contents are in both.",
 ["histories","inputs","fault_sequences","crash_points"],
 "every history of calls to both variants in parallel, with faults, crashes and reloads of the one on storage",
 "Tests run a few fixed call sequences on each variant on its own; a divergence in a wrapper shows only after particular sequences of updates, deletes and proofs.",
 ["src/binary/in_memory.rs","src/sparse/in_memory.rs",BIN,SP],
 [("wrapper","src/binary/in_memory.rs"),("wrapper","src/sparse/in_memory.rs")],[HEAD,ROOTN],["root()","prove()","update()","delete()"])
add("C29","Sum trees sharing one store do not disturb each other",
 "Any number of sum trees may keep their nodes in one store, with equal or different leaves and fees: each one's roots are those of its own acknowledged leaves, all nodes below every root ever returned by any of them stay stored and intact, and a failed or crashed tree leaves the others untouched, however their calls are interleaved at storage accesses.",
 ["schedules","histories","fault_sequences","crash_points"],
 "every interleaving of the storage accesses of several sum trees on one store, with failures and crashes of some of them",
 "Tests use one sum tree on a fresh store; trees that share nodes, abandoned trees and interleavings are never tested.",
 [SUM,"src/sum/node.rs"],
 [("nodes are stored under their digest and never removed",SUM)],[SHEAD],["root()","storage contents"])
add("C30","A binary tree can be rolled back and continued with other leaves",
 "A binary tree loaded at any earlier leaf count and continued with other leaves on the same storage has the roots and proofs of the kept leaves followed by the new ones. What the abandoned leaves left in storage never shows: not in roots, proofs or later loads at counts that were acknowledged since; and trees at counts up to that of the rollback stay readable. This holds however often and far the tree is rolled back, and whatever fails or crashes meanwhile.",
 ["histories","fault_sequences","crash_points"],
 "every history of pushes and rollbacks to any earlier count, with failures, crashes and reloads in between, at every leaf count below 2^60",
 "Tests only append; none loads an earlier count and goes on from it, so stale nodes under keys that the tree will use again never occur.",
 [BIN,"src/common/position_path.rs"],
 [("load / build reads only the peaks of its count",BIN),("push overwrites by position",BIN),("prove prefers the nodes it computed over stored ones",BIN)],[HEAD],["load(storage, count)","root()","prove()"])
add("C31","Storage pruned to the live nodes serves every later call",
 "Nodes that are not part of the current tree may be removed from storage, or left out of a copy of it, without any effect. A sparse tree needs only the nodes below its root, for every later update, delete and load; a binary tree needs only the roots of its complete subtrees to load, grow and give its root, and for a proof besides only the leaf and the stored siblings on its path, also after growing on; a sum tree needs nothing stored to go on. This holds at any moment of any history, failures and crashes included.",
 ["histories","fault_sequences","crash_points"],
 "every moment of pruning in every history of all three trees, repeated, followed by any further history",
 "Tests always work on storage that holds everything ever written; a read of a node that is not needed succeeds there, and fails only for a pruned or synchronised node.",
 [BIN,SP,SUM],
 [("load / build over peaks",BIN),("prove",BIN),("path_set reads only nodes on the path and their siblings",SP)],[HEAD,ROOTN],["load()","push()","prove()","update()","delete()"])
add("C32","Every error names its true cause",
 "When a call on a binary or sparse tree fails, its error tells what is the matter: either it carries the very error a storage call returned during it, or it names, by its storage key, a node that the call needs and that is not in storage, or it reports the invalid prefix of a node that is on its way. The index of a refused proof is the one asked for and not below the leaf count. Whoever fetches the named node, and repeats the call, so gets ahead, at every moment of any history, whatever is missing, damaged or failing.",
 ["histories","fault_sequences","crash_points"],
 "every set of missing and damaged nodes, failing call and call sequence, for trees of any size and shape",
 "Tests look only at the kind of a few errors, with one node missing; none compares the key in an error with what is in storage.",
 [BIN,SP,"src/sparse/node.rs"],
 [("load and prove map an absent node to LoadError(key)",BIN),("children map absent and invalid nodes to ChildError","src/sparse/node.rs")],[HEAD,ROOTN],["load()","prove()","update()","delete()"])
add("C33","Sum tree storage only ever gains well-formed nodes of its own tree",
 "A push or root query of the sum tree, failed or not, changes storage only by adding nodes, each under its digest with its own fee, height, children and kind: the leaf being pushed, subtrees of complete height that end at it, and the joins of such subtrees that make up the root. No entry that is in storage is ever removed or altered, and no foreign node is added. So whoever shares, copies or walks the storage finds only genuine nodes, after any history of failures and crashes.",
 ["histories","fault_sequences","crash_points"],
 "every history of pushes, roots, restarts on used storage, failures and crashes, for all leaves and fees with a total below 2^64",
 "Tests look at returned roots only; a wrong height or kind in a stored node, a stray write or a removed entry shows only to a later reader of the storage.",
 [SUM,"src/sum/node.rs"],
 [("push / join_subtrees",SUM),("root_node joins on a copy",SUM),("create_leaf, create_node","src/sum/node.rs")],[SHEAD],["storage contents"])
add("C34","Memory stays proportional to the height of the tree",
 "What a tree keeps in memory between calls, storage apart, is at most proportional to its number of levels (binary and sum trees) or to the depth of its keys (sparse tree), however long its history and however many calls failed; nothing stays behind when it is dropped. Each single call takes at once no more memory than in proportion to that, plus the length of the data given to it.",
 ["histories","fault_sequences","inputs"],
 "every history of pushes, proofs, updates, deletes, loads, failures, crashes and lost nodes, at every leaf count below 2^60 and every key depth",
 "Tests never look at memory; a leak on an error path, a cache that grows, or a load that reads all leaves passes all of them and shows only after long histories or at large counts.",
 [BIN,SP,SUM,"src/common/subtree.rs"],
 [("only the list of complete subtrees is held","src/common/subtree.rs"),("only the root node is held",SP),("prove keeps the incomplete nodes of one proof",BIN)],[HEAD,ROOTN,SHEAD],["allocations made during calls"])
add("C35","A tree whose nodes somebody else stored loads and works like one's own",
 "The stored form is a format: a binary node under its in-order index with that index and its hash; a sparse node under its hash with height, kind, and its two children or its key and value hash. Storage filled with the nodes of a tree in that form by any other means (another version or implementation, a migration, a bulk load, in any order) is loaded by leaf count or root, and from there all roots, proofs, updates, deletes, failures and crashes behave exactly as on the tree that the library would have built itself. What the library stores for a tree has that same form, so that others can read it.",
 ["histories","inputs","fault_sequences","crash_points"],
 "every list of leaves and every set of contents imported at any moment, repeatedly, followed by any history with failures and crashes",
 "Tests load only what the same code stored; a consistent change of writer and reader, or a reader that relies on more than the stored form, passes them and breaks every existing database.",
 [BIN,SP,"src/binary/primitive.rs","src/sparse/primitive.rs","src/sparse/node.rs"],
 [("load / build",BIN),("load",SP),("conversion between node and stored form","src/sparse/primitive.rs")],[HEAD,ROOTN],["load()","prove()","update()","delete()"])
add("C36","A tree on partial storage completes every call by fetching the nodes it names",
 "Whoever knows only the leaf count of a binary tree, or the root of a sparse tree, and can get single nodes from a complete copy, can use the tree on storage that is empty, partial or evicted: each call fails for one absent node that the copy has, and after fetching it the call is repeated. So every load, proof, push, update and delete is completed with the right result after at most as many fetches as it needs nodes (linear in the depth of the key or the number of levels), across storage failures, crashes, own changes, going over to later states of the copy, and nodes that arrive late, twice or not at all.",
 ["histories","fault_sequences","schedules","crash_points"],
 "every history of up to three clients and a server with leaf counts below 2^60 and keys of any depth; every loss, delay, repetition of messages, partition and crash",
 "Tests have all nodes in storage or lose one and look at one error; whether repeating a call after each fetch ends, and where, depends on long sequences of failed calls on storage that changes in between.",
 [BIN,SP,"src/sparse/node.rs"],
 [("load and prove name the missing key",BIN),("children name the missing child","src/sparse/node.rs"),("a failed call leaves the tree as it was",SP)],[HEAD,ROOTN],["load()","prove()","push()","update()","delete()"])
add("C37","The shipped one-pass prover and verifier agree with the tree in every history",
 "A prover of the test helpers that is told the acknowledged leaves one by one has, at every count, the root of the tree, and gives for its leaf the very proof that the tree gives, however the tree was interrupted, reloaded or rolled back meanwhile. The verifier of the test helpers accepts every such proof and, at any count up to 2^60, rejects it for an altered, shortened, lengthened or reordered path, another root, another leaf's place, or an index out of range, and never panics.",
 ["histories","inputs","crash_points"],
 "every history of pushes, failures, crashes, rollbacks; every proof and every alteration of one",
 "Tests compare a handful of counts up to a dozen leaves; the prover's proof depends on the order in which subtrees of all sizes are completed, and the verifier's branches on index and count at any magnitude.",
 [BIN,"test-helpers/src/binary/verify.rs","test-helpers/src/binary/merkle_tree.rs"],
 [("one-pass proof","test-helpers/src/binary/merkle_tree.rs"),("verify","test-helpers/src/binary/verify.rs"),("prove",BIN)],[HEAD],["verify()","prove()","root()"])
add("C38","One binary tree serves several callers at once, each as if it were alone",
 "Reading a binary tree takes it by shared reference, so several callers may ask one tree for its root and for proofs at the same time. Each gets the answer it would get alone: the current root, the proof of the very leaf it asked for, the rejection of its own bad index, or the storage error that one of its own storage accesses met. No call waits for another that is stalled in storage, one that dies there by a panic takes nothing with it, and between such reads the tree, in the hands of any thread, takes pushes, fails, crashes and is loaded again as ever.",
 ["schedules","histories","fault_sequences"],
 "every interleaving of the storage accesses of up to four readers of one tree, with leaf counts below 2^60; every storage failure or death in storage of any of them, every push, failed push, crash and load in between",
 "Tests call from one thread, so no call ever begins while another is under way, and none fails while another goes on.",
 [BIN],
 [("prove",BIN),("root",BIN)],[HEAD,ROOTN],["prove()","root()"])
add("C39","On storage that never forgets, every root of a sparse tree stays a whole tree",
 "A sparse tree does not rely on its removals being carried out: on archival storage, where removed entries stay readable, every update, delete, load and root is the same as anywhere. There every root ever returned, before or after any number of updates and deletes, by any of several trees that share the storage, stays loadable with exactly its contents and can be continued by updates and deletes; no tree disturbs another; and after a crash this holds for every root that was durable.",
 ["histories","schedules","fault_sequences","crash_points"],
 "every history of updates, deletes, loads of earlier roots and continuations from them, by one tree or by up to four trees interleaved at every storage access, with failures and crashes",
 "Tests run on a map that forgets, so a tree that takes the presence of an old node as the presence of a key, or that writes over a node some earlier root needs, passes them all.",
 [SP,"src/sparse/node.rs"],
 [("update_with_path_set / delete_with_path_set",SP),("load",SP),("children read by hash","src/sparse/node.rs")],[ROOTN],["load()","root()","update()","delete()"])
add("C40","A storage call that panics leaves every tree as a failed call does",
 "When a storage implementation panics inside a call of the library, and the caller catches the unwinding and keeps the tree, the tree is as after a call that failed: the binary tree's root and leaf count, and a sum tree's root, are those before the call; a sparse tree's root is the one before the call or the one the call was to produce, and which of the two it is the root tells; a read that unwinds changes nothing. Every later call on that tree, a retry of the same push, update or delete included, answers and stores exactly what it does after an ordinary error, whatever mix of panics and errors there was, and a fresh load of what was stored agrees.",
 ["histories","fault_sequences"],
 "every history of pushes, updates, deletes, proofs, loads and roots of a binary, sparse or sum tree, and every position of any number of storage calls that unwind, before or after having taken effect, mixed with storage calls that fail",
 "A state that is taken out, counted or half written during a call and put back on the ordinary ways out shows only when a storage call is left by unwinding, which no test's storage does, and then only at the one position between the taking and the putting back.",
 [BIN,SP,SUM],
 [("push",BIN),("update / delete",SP),("push",SUM)],[HEAD,ROOTN],["push()","update()","delete()","prove()","root()","load()"])
with open('/verif/properties.jsonl','w') as f:
    for p in P: f.write(json.dumps(p)+"\n")

LN={"bin":"","x":""}
checks=[]
notes={
"C01":"bin","C02":"bin","C03":"bin","C04":"bin","C05":"bin and conc_bin","C06":"bin","C07":"sp","C08":"sp","C09":"sp","C10":"sp","C11":"sp","C12":"sp and conc_sp","C13":"sp","C14":"sum","C15":"sum","C16":"sum","C17":"bin, sp, sum, conc_bin, conc_sp","C18":"bin, sp, sum, conc_bin, conc_sp","C19":"net_sp","C20":"net_bin","C21":"bin, walked by a second process","C22":"bin, sp, sum, with forged leaves","C23":"map, and bin, sp, sum on the shipped map","C28":"bin, sp, each beside its in-memory tree","C29":"indep, on one store","C30":"bin","C31":"bin, sp, sum, pruned","C32":"bin, sp, with missing and damaged nodes","C33":"sum","C34":"bin, sp, sum, with counted allocations","C35":"bin, sp, with imported nodes","C36":"fetch_bin, fetch_sp","C37":"bin, with the test helpers beside it","C38":"shared_bin","C39":"sp and conc_sp, on storage that never removes","C40":"bin, sp, sum, outliving panics in storage","C24":"bin","C25":"sp","C26":"indep","C27":"all, compared between builds"}
for i in range(1,41):
    id="C%02d"%i
    checks.append(dict(property=id,quick_cmd="python3 bin/check.py %s"%id,thorough_cmd="VERIF_TIER=thorough python3 bin/check.py %s"%id,
      technique="deterministic simulation with fault injection (seeded search; scenario %s)"%notes[id],level="exploration",
      level_note="Sampled, not exhaustive: seeded random histories, faults, crash points and schedules of the real library code against an independent executable model, checked after every call. Trusts the simulated storage's durability modes, SHA-256 from the sha2 crate and the model in sim/src/model.rs. Failures replay exactly from the printed file (bin/replay.py)."))
M=dict(version=1,setup_cmd="python3 bin/setup.py",checks=checks,
 not_applicable=[],
 notes="No hooks in /repo: the library's storage traits are the seam. Sources: sim/ (Rust simulator), bin/ (drivers). Repairs made in /repo are listed in known-findings.txt and DESIGN.md.")
json.dump(M,open('/verif/MANIFEST.json','w'),indent=1); open('/verif/MANIFEST.json','a').write("\n")
