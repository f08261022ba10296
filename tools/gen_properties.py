import json
N="src/node/mod.rs"; L="src/lib.rs"; P="src/store/paged_file_store.rs"; B="src/store/blob_store.rs"; M="src/store/mem_store.rs"
def p(id,title,st,over,q,why,files,mech,obs):
    return dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=q),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=obs,hook_needed=None))
R=[]
R.append(p("C01","A detached tree is a map from byte strings to byte strings",
"After any sequence of inserts and removes (or collecting any list of pairs), looking up a key returns exactly the value last inserted for it and not removed since, and every other key is absent, including the empty key, keys that are prefixes of other keys, empty values, and keys and values of any length. Inserting or removing one key never changes what any other key returns, and removing an absent key changes nothing.",
["inputs","histories"],"all finite sequences of insert/remove/get/contains over arbitrary byte-string keys and values, and all lists of pairs given to FromIterator or radixtree!",
"In-crate proptests build trees from short digit keys and small values only: no empty-key/prefix-key mixes with removal, no 8/9-byte or 127/128-byte boundaries, no 256-way nodes, no histories of interleaved inserts and removes.",
[N,L],[("insert as outer combine","outer_combine_with / try_insert"),("remove as left combine","left_combine_with / try_remove"),("lookup","find"),("compact inline/Arc storage","CompactOwnedBlob, Header")],["RadixTree::get, contains_key, insert, remove, FromIterator"]))
R.append(p("C02","Iteration yields every entry exactly once in byte-lexicographic key order",
"Iterating a tree yields exactly its key/value pairs, each once, in strictly increasing lexicographic byte order of the keys; iterating values yields the same values in the same order; first and last value/entry are the ends of that sequence (with the caller's prefix prepended to the key). A key or value yielded by an iterator keeps its content however long the caller holds on to it.",
["inputs","histories"],"all tree contents reachable by any history, all points at which yielded keys are retained or dropped",
"Existing tests compare iteration with a BTreeMap for small digit keys only; retention of yielded keys, 256-way nodes, long prefixes and post-removal shapes are not sampled.",
[N],[("key iteration","KeyValueIter, IterKey (copy on write)"),("value iteration","ValueIter"),("ends","first_value, last_value, first_entry, last_entry")],["RadixTree::iter, values, first_*/last_*"]))
R.append(p("C03","Prefix queries select exactly the keys with that prefix",
"For every prefix, has_prefix is true exactly when some key starts with it, scan_prefix yields exactly the entries whose key starts with it in order with their full original keys, and remove_prefix removes exactly those entries. filter_prefix returns exactly those entries with the prefix replaced by the substitution, as an ordinary tree indistinguishable from one built directly from those entries; when nothing matches it is the empty tree.",
["inputs"],"all trees, all prefixes (inside a node, at a node, past a leaf, empty, absent) and all substitutions",
"Tests try prefixes drawn from the same tiny digit keys and only where the prefix ends inside a node; exact-node prefixes of nested nodes, the empty tree and the empty prefix with substitution are not asserted.",
[N],[("search","find / FindResult"),("selection","scan_prefix, filter_prefix, remove_prefix_with")],["has_prefix, scan_prefix, filter_prefix, remove_prefix"]))
R.append(p("C04","Outer combine is the union of two maps with f resolving collisions",
"outer_combine of two trees contains every key that is in exactly one of them with its value, and for every key in both the value chosen by f(left value, right value), or nothing if f yields none; f is called exactly once per common key, and never otherwise. The in-place outer_combine_with leaves the left tree in the same state as the functional form would, and neither form changes the right tree.",
["inputs","programs"],"all pairs of trees (including shared, equal, nested and empty ones) and all combiner functions, including those that delete or replace with arbitrary values",
"Tests use a few fixed combiners over digit keys; combiners that delete on some keys, extended/truncated key pairs, wide nodes and the call multiset are not covered.",
[N],[("outer join","outer_combine, outer_combine_children, OuterJoin"),("in place","outer_combine_with, outer_combine_children_with")],["outer_combine, outer_combine_with"]))
R.append(p("C05","Inner combine is the intersection of two maps with f choosing values",
"inner_combine contains exactly the keys present in both trees for which f(left value, right value) yields a value, with that value; f is called exactly once per common key and never otherwise; inner_combine_with leaves the left tree equal to it, and inner_combine_pred is true exactly when the predicate holds for some common key. The right tree is never changed.",
["inputs","programs"],"all pairs of trees and all combiner functions and predicates",
"As C04: tests sample a few combiners over tiny keys; predicates that fail on some common keys, deletion by f, and nested-prefix shapes are not covered.",
[N],[("inner join","inner_combine, inner_combine_with, inner_combine_pred and their _children functions")],["inner_combine, inner_combine_with, inner_combine_pred"]))
R.append(p("C06","Left combine keeps the left map, with f applied to common keys",
"left_combine contains every key of the left tree that is not in the right tree with its value, and each common key with f(left value, right value) or not at all if f yields none; f is called exactly once per common key; left_combine_with leaves the left tree equal to it. left_combine_pred is true exactly when some left key is absent from the right tree or satisfies the predicate with its counterpart.",
["inputs","programs"],"all pairs of trees and all combiner functions and predicates",
"As C04.",
[N],[("left join","left_combine, left_combine_with, left_combine_pred and their _children functions")],["left_combine, left_combine_with, left_combine_pred"]))
R.append(p("C07","Retain/remove by prefix set keep or drop exactly the covered keys",
"With the right tree first filtered to the keys whose value satisfies the predicate, retain_prefix_with keeps exactly the left entries whose key starts with one of those keys, and remove_prefix_with drops exactly those; kept entries are unchanged. A predicate that is always false gives the empty tree for retain and no change for remove.",
["inputs","programs"],"all pairs of trees and all predicates on right values, including right keys nested within each other and within left keys",
"Tests use always-true predicates and small digit keys; rejected right keys above accepted ones are not sampled.",
[N],[("prefix join","retain_prefix_with, remove_prefix_with and their _children functions")],["retain_prefix_with, remove_prefix_with, remove_prefix"]))
R.append(p("C08","group_by partitions the tree along its branch structure",
"The trees yielded by group_by are non-overlapping, come in key order, and together contain exactly the entries of the original with their full keys and values. The descend function is asked about the branch points and entries of the tree in order (the compressed radix structure of the key set): where it answers no, the whole subtree below is one group; where it answers yes, an entry exactly there forms a single-entry group and each child is asked in turn.",
["inputs","programs"],"all trees and all descend predicates on (path, node)",
"One unit test with one predicate on a fixed key set.",
[N],[("grouping iterator","GroupBy::next0, try_group_by")],["group_by"]))
R.append(p("C09","Equality and shape depend only on the entries, not on history",
"Two detached trees compare equal exactly when they hold the same set of key/value entries, whatever sequence of operations (inserts, removes, combines, filters, detaching, collecting) produced each. is_empty is true exactly for no entries; is_leaf, prefix and value likewise depend only on the entries.",
["histories","inputs"],"all pairs of histories of any operations; all pairs of contents",
"Tests compare results only with trees built in one way and never compare trees that differ in empty-string values versus absence, or leaf-versus-emptied-children shapes.",
[N],[("canonical form","canonicalize"),("equality","PartialEq for TreeNode/RadixTree"),("shape","is_empty, is_leaf, prefix, value")],["==, is_empty, is_leaf, prefix, value"]))
R.append(p("C10","Clones, iterators and values are isolated snapshots",
"A clone of a tree, an iterator taken from it, a value or key read from it, and any tree derived from it by a functional operation keep exactly their contents while any of the others is mutated or dropped, and mutations are visible only through the handle they were made on. This holds for detached and attached trees and for trees sharing structure after bulk operations.",
["histories","inputs"],"all interleavings of clone, derive, mutate, iterate step, and drop over a family of handles",
"No test mutates one handle and re-reads another; sharing (Arc copy-on-write) bugs show only in such histories.",
[N,B],[("copy on write","Arc::make_mut in load_children_mut/canonicalize, manual_clone/manual_drop"),("lifetime-extended iterators","OwnedTreeNodeIter::new_owned, KeyValueIter")],["Clone, iter, get, combine results"]))
R.append(p("C11","Attach, reattach, load and detach preserve contents",
"Attaching a tree to a store, reattaching after any in-memory changes, loading by the returned root id (also from a fresh handle on the same store), and detaching each yield a tree with exactly the same entries. Every root id ever returned keeps loading exactly the contents it was returned for, whatever is written later.",
["histories","inputs","configurations"],"all histories of mutate/reattach/load/detach, all contents, all conforming stores (any id length from 1 to 126 bytes, any page size)",
"Tests attach once to a MemStore with small digit keys; long prefixes and values stored indirectly, repeated reattach, old versions and unusual id lengths are not covered.",
[N,L,P,M],[("writing","serialize, try_attached, try_reattach"),("reading","deserialize, BorrowedTreeNode, detached, load_children")],["try_attached, try_reattach, try_load, try_detached"]))
R.append(p("C12","An attached tree behaves exactly like the detached tree it came from",
"Every single-tree operation (lookup, containment, prefix queries, iteration, first/last, grouping, insert, remove, remove/filter by prefix) on a tree whose nodes, prefixes and values live in a store gives the same answer and the same resulting contents as on the equivalent in-memory tree. It does not matter which parts have been loaded or modified in memory, and no operation panics.",
["inputs","histories","configurations"],"all contents, all histories mixing queries, mutations and reattach, all conforming stores",
"Attached trees are only queried in a few tests with small keys and never mutated in ways that leave nodes unloaded or prefixes stored by id.",
[N],[("lazy nodes","BorrowedTreeNode, BorrowedTreeNodeIter, load_children_mut, load_prefix"),("canonical form of partly loaded nodes","canonicalize")],["all try_* operations on one tree"]))
R.append(p("C13","Bulk operations agree across stores and converters",
"Every combine, retain and remove operation between two trees gives the same entries whether each side is detached, attached to the same store, attached to different stores, or partly modified in memory, and whichever applicable converter is used. The result of an in-place operation on an attached tree can be reattached and loaded again, and the right tree and its store contents are unchanged.",
["inputs","configurations","programs"],"all pairs of trees, all backing combinations, all applicable converters and all combiners",
"Tests only combine detached trees.",
[N],[("converters","DowncastConverter, IdentityConverter, DetachConverter"),("mixed joins","outer/inner/left_combine*, retain/remove_prefix_with over TreeNodeRef")],["try_outer/inner/left_combine(_with,_pred), try_retain/remove_prefix_with"]))
R.append(p("C14","Stored trees follow the documented serialized format",
"The root and child blobs written for a tree decode, by an independent reader of the documented format, to exactly that tree in compressed radix form: nodes as prefix/value/children header-plus-data fields, children sorted by first byte with distinct first bytes, data over 127 bytes stored by id, an indirect prefix carrying its first byte, and a record-size byte that is correct when it is non-zero. Any blob graph an independent writer produces following that format loads as the tree it describes.",
["inputs","configurations"],"all tree contents and all valid encodings of them (inline or by id where either is allowed), all id lengths",
"Tests pin a handful of hex examples.",
[L,N],[("format documentation","lib.rs Data format"),("writer","TreeNode::serialize, OwnedBlobRef::serialize"),("reader","BorrowedTreeNode::read_one, BorrowedTreeNodeIter")],["store blobs after try_attached/try_reattach; try_load"]))
R.append(p("C15","A failing store never panics, corrupts or loses data",
"When the store fails a read or a write, the operation returns that error (an iterator yields it and then ends) rather than panicking or returning a wrong result. After a failed in-place operation each key has either its value from before the call or the one the successful call would give it; when the store works again, repeating the operation or reattaching completes normally, and a failed attach or reattach leaves the in-memory tree and all earlier versions intact.",
["fault_sequences","histories"],"all operations on attached trees, every position at which a store read or write can fail, transient and persistent",
"No test injects a store failure.",
[N],[("error propagation","? in *_with and *_children_with, InPlaceVecBuilder drop behaviour"),("iterator termination","KeyValueIter/ValueIter/GroupBy::next")],["try_* operations over a faulty BlobStore"]))
R.append(p("C16","The paged file store returns every blob it accepted, across reopens",
"Every id returned by a write reads back exactly the bytes written, at any later time, through any clone of the store, and after closing and reopening the file with the same page size, for blobs of every length up to the page-size limit and every page alignment; earlier ids never change meaning. last_id names the last accepted blob, before and after reopening, blobs larger than the limit are rejected with an error, and a rejected write leaves the store unchanged.",
["histories","configurations","inputs"],"all sequences of write/read/sync/clone/reopen, all page sizes that are multiples of 8 (at least 16), all blob lengths",
"Tests use one page size and random sizes that rarely hit the page limit exactly; reopen-in-the-middle histories and tiny pages are not sampled.",
[P],[("append and page closing","Inner::append, close_page, pad_to, commit"),("reading","Inner::bytes, load_page, load_recent, Page::bytes"),("reopen","Inner::new, read_size")],["PagedFileStore::new, write, read, sync, last_id"]))
R.append(p("C17","A crash of the writer loses nothing that was acknowledged",
"If the process dies at any point between or during its file operations, reopening the file succeeds, every blob whose write had returned reads back exactly, last_id names the last acknowledged blob or the one in flight, completely written and never something else, and the store accepts further writes. A tree root returned by reattach before the crash loads with all its contents.",
["crash_points","histories"],"every prefix of the file operations of every write history, with the last data write cut at any byte (the 8-byte size field is written atomically)",
"No test crashes a writer.",
[P],[("write order: data, then size header","Inner::append, commit, close_page"),("recovery","Inner::new truncating to the recorded size")],["file contents after a cut; PagedFileStore::new, read, last_id"]))
R.append(p("C18","After sync returns, the data survives power loss",
"Once sync on the paged file store has returned successfully, every blob written before it is readable after a power failure that discards any subset of the file operations not yet flushed to stable storage, and the file reopens. The same holds for a tree reattached and then synced.",
["crash_points","histories"],"all histories of writes and syncs, all later points of power loss, all subsets of un-flushed operations surviving",
"No test models loss of un-flushed writes.",
[P,B],[("sync","PagedFileStore::sync")],["fsync/fdatasync calls relative to write calls; reopened image"]))
R.append(p("C19","Reading with an invalid id is an error, not a crash",
"Reading from any store with an id it never returned (wrong length, zero, out of range, mid-blob, arbitrary bytes) returns an error or, at worst, some byte string; it never panics, hangs or corrupts the store. Afterwards all valid ids still read back correctly.",
["inputs","histories"],"all byte strings as ids, in all store states",
"Tests never pass an invalid id.",
[P,M,B],[("id validation","PagedFileStore::read, Inner::bytes, load_recent, Page::bytes; MemStore::read")],["BlobStore::read"]))
R.append(p("C20","Stores and trees can be shared between threads",
"Concurrent reads, writes and syncs through clones of one store from several threads behave as if executed one at a time: every id returned is distinct per accepted write and reads back its own blob from any thread. Threads working on clones of one tree (detached or attached), or reading one tree concurrently, each see exactly the results they would see alone.",
["schedules","histories"],"all interleavings of operations by several threads on clones of a store or tree",
"All existing tests are single-threaded.",
[P,M,N,B],[("store locking","Mutex<Inner> in PagedFileStore and MemStore"),("atomic reference counts and copy on write","Arc in TreeNode, Blob")],["concurrent BlobStore and RadixTree calls"]))
R.append(p("C21","A blob is a stable byte slice that keeps its data alive",
"A blob dereferences to its bytes for as long as it exists, even after its source, its store, its file handle, other slices and the tree it came from are dropped or the store grows; slicing yields exactly the corresponding bytes for in-range ranges and panics otherwise; equality, order and hash are those of the byte string.",
["inputs","histories"],"all blob sources (static, copied, Arc, paged store recent and mapped pages, iterator keys, values), all chains of slice/clone/drop",
"Tests check a copied blob round-trip for lengths under 24.",
[B,P,N],[("owner keeps slice alive","Blob::owner, owned_new, slice, slice_ref, to_owned"),("mapped pages","PagedFileStore Page::bytes"),("keys as blobs","IterKey::to_owned_blob")],["Blob API"]))
R.append(p("C22","Every blob store keeps the blob-store contract",
"For the memory store and for any store used through the dynamic store type: write returns an id whose read gives exactly the written bytes, always, through every clone; ids of blobs still readable are never reused for other content; read of an unknown id is an error. A dynamic store behaves exactly like the store it wraps, including errors, sync and last contents.",
["histories","inputs"],"all histories of write/read/sync/clone over memory and dynamic stores, all blob contents including empty",
"MemStore is only used indirectly with a few writes.",
[M,B],[("id allocation","MemStore::write"),("delegation","BlobStore for DynBlobStore")],["BlobStore::read/write/sync, MemStore::count"]))
R.append(p("C23","No operation leaks, double frees or reads freed memory",
"After all trees, values, keys, iterators, blobs and stores of a program are dropped, all memory they allocated has been released, exactly once, and nothing reads memory after its release. This holds for every history, including ones with removed keys, replaced values, emptied children, failed operations and iterators abandoned midway.",
["histories","inputs","fault_sequences"],"all histories of the public API, including early drops and failing stores",
"Tests never observe allocation; the unsafe unions with manual clone/drop make such faults silent.",
[N,B],[("manual reference counting in unions","CompactOwnedBlob/ChildrenRef manual_clone, manual_drop, set_* functions, Drop for TreeNode/Value")],["global allocator statistics"]))
R.append(p("C24","Loading a malformed tree reports an error or a usable tree",
"Loading a root from arbitrary bytes either returns an error or a tree; bytes that are not one complete well-formed node, or whose children field is not an id, are an error; well-formed nodes load as described. Loading never panics or reads out of bounds, and neither do queries on the loaded root over a store that returns errors for unknown ids.",
["inputs"],"all byte strings as root blobs",
"Tests only deserialize what the library itself serialized.",
[N],[("parsing","TreeNode::deserialize, BorrowedTreeNode::read_one, to_owned, load_prefix")],["try_load, then try_get/try_iter on the result"]))
R.append(p("C25","Attached trees touch only the part of the store they need",
"Looking up a key in an attached tree, or inserting or removing one, reads only blobs along the path to that key, however large the rest of the tree is; building or loading a handle reads at most the root. Reattaching a tree writes only for nodes on modified paths: blobs for unmodified subtrees, values and prefixes are not read or written again.",
["inputs","histories"],"all trees attached to a store, all keys, all small sets of modifications",
"No test counts store accesses.",
[N,L],[("lazy loading","TreeNodeIter::load, find, load_children_mut"),("sharing unchanged ids","TreeNode::serialize Err(id) branch")],["read/write counters of a custom BlobStore"]))
R.append(p("C26","The paged store survives failed file operations",
"When a file operation inside a write fails or is short (no space, I/O error, interrupted), the store reports an error or completes, never acknowledges a blob that does not read back, and stays usable: all earlier blobs read back, later writes succeed once the fault is gone, and reopening recovers exactly the acknowledged blobs.",
["fault_sequences","histories"],"every position of a failing or short write, seek, truncate, map or sync call in every history",
"No test injects I/O failures.",
[P],[("position by seek to end before each append","Inner::append"),("commit after data","commit, write_size")],["PagedFileStore read/write/last_id after injected faults"]))
with open("/verif/properties.jsonl","w") as f:
    for r in R: f.write(json.dumps(r,ensure_ascii=False)+"\n")
import jsonschema
s=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for r in R: jsonschema.validate(r,s)
print(len(R))
