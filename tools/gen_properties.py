#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=mech, observe_at=observe or [], hook_needed=hook)))
m = lambda n, w: dict(name=n, where=w)
s = lambda n, me, w: dict(name=n, meaning=me, where=w)
RB="src/rbtree.rs"; MAP="src/collections/map.rs"; SEQ="src/collections/seq.rs"; PG="src/collections/paged.rs"
GR="src/collections/group.rs"; GB="src/collections/group/builder.rs"; HT="src/hashtree.rs"; LB="src/label.rs"
AH="src/as_hash_tree.rs"; EN="src/rbtree/entry.rs"; IT="src/rbtree/iterator.rs"

p("C01","The certified root always commits to exactly the current contents",
  "After any history of inserts, removals, in-place edits through any mutable handle the API gives out, bulk loads, clears and restores, the root hash that a map, tree, sequence, paged store or group reports equals the hash of its full hash tree, recomputed from scratch. That full tree lists exactly the entries stored at that moment, each once, in key order, under its own label and with its current value. No operation, trapped message or restore leaves the reported root describing an older or a partial state.",
  ["histories","schedules","crash_points"],
  "every history of API operations on every collection, interleaved across messages, with messages that trap at any point and are rolled back, and with upgrades in between",
  "Tests compare root and reconstruction for ten sequential inserts and deletes of one key type; no test edits a value in place through get_mut or the entry API and then reads the root, and none mixes deletes, nested collections, traps and restores.",
  [RB,MAP,SEQ,PG,GR,EN,AH],
  [m("subtree hash kept per node, refreshed along every changed path and on rotation",RB),m("root_hash / as_hash_tree pairs","src/as_hash_tree.rs, src/collections/*.rs")],
  [s("subtree_hash","hash of the hash tree under a node",RB),s("hash","running hash of a sequence",SEQ)],
  ["root_hash()","as_hash_tree()"])
p("C02","Maps and trees behave as an ordered map under every history",
  "For every history of operations the certified map and tree return what an ordered map would: insert, remove and the entry operations report the previous value or key, lookups find exactly the last value written, length and emptiness match, and iteration visits every entry exactly once in ascending key order with an exact size hint. Per-key sequences held in a map behave as append-only lists under the same histories. This holds across rolled-back messages and across save and restore.",
  ["histories","schedules","crash_points"],
  "every history of insert, remove, remove_entry, entry, get_mut, modify, append_deep, clear and bulk construction over every key set size and key order, interleaved between clients, with traps and upgrades",
  "map_model_test inserts 0..100 ascending and deletes them all; interleaved inserts and deletes at arbitrary sizes, the entry API and iteration after deletions are never exercised.",
  [RB,MAP,EN,IT],
  [m("left-leaning red-black insertion and top-down deletion",RB),m("entry API","src/rbtree/entry.rs"),m("in-order iterator with explicit stack",IT)],
  [s("len","number of entries",RB),s("stack / remaining_elements","iterator position",IT)],
  ["return values","len()","iter()","for_each()"])
p("C03","A membership witness verifies and reveals only the requested entry",
  "For every key present in a certified state, the witness the canister returns, in its serialized form, reconstructs to the certified root for a client that implements only the public hash-tree specification, and looking up the key's path yields exactly the value stored in that state. The witness reveals no label or value other than those on the requested path. This holds for map, nested-map, per-key sequence and paged entries of every supported key and value type, whichever replica answered and whatever ran before, and the library's own reading of the witness (its hash, labels and leaf values) is the client's.",
  ["histories","schedules","inputs","fault_sequences"],
  "every certified state reachable by any history, every key present in it, any replica and any delay, duplication or reordering of requests and answers",
  "Tests compare reconstruct() with root_hash() using the library's own code for up to ten keys; no test decodes a serialized witness with an independent verifier, checks what it discloses, or does so in states left by deletions.",
  [RB,MAP,PG,HT,AH,LB],
  [m("lookup_and_build_witness / nested_witness",RB),m("HashTree serialization and hashing with domain separators",HT),m("labels and leaf encodings","src/label.rs, src/as_hash_tree.rs")],
  None,["serialized witness as received by a client"])
p("C04","Absence is provable exactly for absent keys",
  "For every key that is not in a certified state, the witness the canister returns reveals no stored value, reconstructs to the certified root, and a client that follows the public hash-tree specification concludes from it that the key is absent. No witness the canister returns, and no pruning of the certified tree that an untrusted replica could send instead, lets such a client conclude that a present key is absent. The labels in every certified tree are strictly ascending, which is what makes both verdicts sound.",
  ["histories","schedules","inputs","fault_sequences"],
  "every certified state, every key below, between, equal to and above the stored keys, honest replicas and replicas that prune the tree adversarially",
  "Tests only check that an absence witness reconstructs to the root; no test runs the specification's lookup on it, so a witness that hides the neighbours or proves the wrong gap passes.",
  [RB,MAP,PG,LB],
  [m("lower_bound / upper_bound neighbours revealed as pruned-value labels",RB),m("label encoding preserving key order",LB),m("witness_last_page_number proves the next page absent",PG)],
  None,["serialized witness as received by a client"])
p("C05","Range, prefix and key-list witnesses are complete and minimal",
  "The witness for a key range, value range, key prefix or for all keys reconstructs to the certified root and lets a client that follows the public specification establish the exact set of stored keys in that range: every stored key in range is listed and nothing is hidden between listed keys. Value ranges reveal every in-range value and no other; key witnesses reveal no value. At most the nearest stored key on either side of the range is revealed besides.",
  ["histories","inputs","schedules"],
  "every certified state, every pair of ordered bounds and every prefix, present or not in the state, including prefixes of composite keys",
  "Tests use one three-entry tree and compare labels with the library's own helper; states after deletions, ranges spanning several tree levels and prefix witnesses for composite keys are not reached.",
  [RB,MAP,LB],
  [m("witness_range_above / below / between",RB),m("right_prefix_neighbor, lower_bound, upper_bound",RB),m("three_way_fork merges pruned parts",RB)],
  None,["serialized witness as received by a client"])
p("C06","Different states never share a root, and altered answers never verify",
  "Two states of a collection that differ in any label, value, order of items or nesting have different root hashes. A client that checks a serialized answer against a certified root therefore never accepts a value, absence or key list that differs from the certified state, whatever an untrusted relay does to the answer: flipping bits, truncating, replaying an older answer, swapping, re-labelling, grafting or re-typing parts of the tree.",
  ["histories","fault_sequences","inputs"],
  "every pair of states met in any history, and every message corruption, replay and substitution between replica and client",
  "One fixed example checks the hash function; no test compares the roots of different states or feeds an altered witness to a verifier.",
  [HT,AH,SEQ,RB,GR],
  [m("domain-separated hashing of leaf, label, fork and empty",HT),m("hash chain over items",SEQ)],
  None,["root_hash()","serialized witness as received by a client"])
p("C07","Replicas that apply the same updates agree bit for bit",
  "Any two instances that apply the same sequence of updates have the same root hash after every update, the same bytes for every witness, and the same bytes when saved. This does not depend on process randomness, memory addresses, which reads, witnesses or iterations each instance served in between, trapped messages that were rolled back, or a crash followed by reloading the last snapshot and replaying the updates since.",
  ["schedules","crash_points","configurations","histories"],
  "every update sequence, every assignment of hash-map seeds and memory layouts to replicas, every interleaving of reads, every crash and replay point",
  "No test runs two instances side by side; a dependency on randomised hash-map order, addresses or read history is invisible to a single-instance test.",
  [RB,MAP,SEQ,PG,GR,GB],
  [m("deterministic tree shape from update order",RB),m("ordered children when a group is built",GB),m("hash maps in groups are used only for lookup",GR)],
  None,["root_hash()","witness bytes","serialized snapshot bytes"])
p("C08","Saving and restoring preserves the contents exactly",
  "A map, nested map, sequence or paged store saved to bytes in either supported format and restored from them, as at a canister upgrade, has exactly the same entries in the same order and answers every lookup as before. The restored collection's root commits to those contents, every instance restoring the same bytes gets the same root, and saving it again yields the same bytes. Sequences keep their root, and updates applied after the restore behave as if no restore had happened.",
  ["histories","crash_points","schedules"],
  "every state reachable by any history, any number of save and restore generations placed anywhere in it, both formats",
  "Only a ten-item sequence is round-tripped; maps and paged stores are never serialized in any test.",
  [MAP,SEQ,PG],
  [m("Serialize / Deserialize / CandidType for Map",MAP),m("hash recomputed on deserialize",SEQ),m("derived traits on pages",PG)],
  None,["restored collection"])
p("C09","A damaged or interrupted save or restore is never silently accepted",
  "If writing a snapshot, or a witness for a client, fails at any byte, the error is reported. If reading fails at any byte or the stored bytes end early, restoring reports an error instead of returning a shorter collection. Whatever bytes are restored from, a collection that is returned is self-consistent: its length, ordering, lookups and root hash all agree with the entries it holds, and neither call panics or corrupts memory.",
  ["fault_sequences","crash_points","inputs"],
  "every write or read failure position, short and interrupted reads and writes, every truncation point, torn, flipped, duplicated or missing blocks, in either format",
  "No test serializes through a failing stream or restores damaged bytes.",
  [MAP,SEQ,PG],
  [m("errors propagated while visiting map entries",MAP),m("entries inserted one by one, hash recomputed from what was read","src/collections/map.rs, src/collections/seq.rs")],
  None,["result of save / restore"])
p("C10","A sequence's root depends only on its items, however they arrived",
  "The root hash of a sequence is the running hash over its items in order from the empty sequence's fixed root, whether the items were appended one at a time, added in batches of any size, collected, converted from a vector or slice, cloned, cleared and refilled, or restored from bytes. This stays true when the source of a batch fails part way: the sequence then holds the items taken so far and its root matches them. A client that knows an earlier root and the items appended since can therefore check every later root.",
  ["histories","fault_sequences","schedules"],
  "every split of any item list into appends and batches, any failure position of the batch source, sequences standing alone, in maps and in pages",
  "Tests cover three fixed splits of 0..100 with a source that never fails.",
  [SEQ,MAP,PG],
  [m("append and recompute_hash from the previous length",SEQ),m("append_deep",MAP)],
  [s("hash","running hash over items",SEQ)],
  ["root_hash()","as_vec()"])
p("C11","Paged storage keeps every item, in order, in full consecutive pages",
  "For each key the pages numbered from zero hold that key's items in insertion order; every page but the last holds exactly the page size and the last holds at least one item and at most the page size. The reported last page number and the lookup of any page number match that layout, and a page number beyond the last, however large, is never answered with another page's items. Witnesses for a page, and for the last page number, prove the same facts to a client, and inserts for other keys never disturb them.",
  ["histories","schedules","inputs","crash_points"],
  "every interleaving of inserts over keys, every page size of at least one, any page number, with traps and upgrades between inserts",
  "Tests insert ten items round-robin over five integer keys with page size three and never read the last page number or a witness.",
  [PG,RB,SEQ],
  [m("modify_max_with_prefix finds the last page",RB),m("max_entry_with_prefix",RB),m("page number appended to the label",PG)],
  None,["get()","get_last_page_number()","witness()","witness_last_page_number()"])
p("C12","Group witnesses reveal exactly the selected members under one root",
  "Whatever members of a group are selected, in full or in part and in any order, the resulting witness reconstructs to the group's root; every selected member is found under its path with its current contents or the part requested last, and every other member stays pruned. Edits made through the group to any member, which may itself be a group, are reflected in the group's root and in later witnesses. The children at each level are in ascending label order, so that lookups of paths outside the group are provably absent.",
  ["histories","configurations","schedules"],
  "every group shape, every subset and order of selections, every history of edits to members between witnesses",
  "Tests check two fixed groups with four or five fixed selections.",
  [GR,GB],
  [m("node ids and ancestor lists computed when the group is built",GR),m("semi-balanced binary tree over ordered children",GB),m("pruning of nodes that need no visit",GR)],
  [s("dependencies","ancestors of each member",GR),s("to_visit / leaves","selection of one witness",GR)],
  ["witness().full().partial().build()","root_hash()"])
p("C13","Every stored key and value is dropped exactly once and never used after",
  "In every history, each key and value handed to a collection is either returned to the caller or dropped exactly once, no later than when the collection is cleared or dropped, and no memory is leaked. Nothing reachable through the API refers to freed memory. This also holds when caller-supplied code (comparison, hashing, labelling, closures, iterators, decoding; also destructors, which may then leave others undropped but none dropped twice) panics in the middle of an operation and the collection is dropped or used again afterwards.",
  ["histories","crash_points","fault_sequences"],
  "every history, with a panic at any invocation of caller-supplied code inside any operation, followed by any continuation",
  "A debug allocation counter is compared once at the end of one test; panics inside operations and drop counts of keys and values are never tested.",
  [RB,EN,IT,GR],
  [m("raw node ownership: Box::into_raw / from_raw, recursive delete",RB),m("key and value swap with the successor on delete",RB),m("downcasts of group members",GR)],
  None,["drop counts","allocator accounting","process not crashing"])
p("C14","Witnesses and lookups stay logarithmic after every history",
  "After any history of inserts, removals, bulk loads and restores, in any order, a witness for a single present or absent key in a map, tree or paged store of n entries or pages is at most 3*log2(n+1)+3 forks deep and has at most 4*log2(n+1)+4 forks in all, and finding a key by any call takes at most 4*log2(n+1)+4 key comparisons. Inserting or removing one takes at most twice as many, and in a group each level of a path, with n names, adds at most 2*log2(n)+2 forks. No order of operations, including queue-like and sawtooth patterns and histories with rolled-back or interrupted operations, makes a map degrade towards a list.",
  ["histories","crash_points"],
  "every history of inserts, removals, bulk loads and restores up to thousands of entries: ascending, descending, queue-like, sawtooth, random, adversarial, with traps",
  "Balance is asserted only inside the test build for a handful of short histories.",
  [RB],
  [m("colour flips and rotations in balance, move_red_left, move_red_right",RB)],
  None,["depth of serialized witness","comparison count"])
p("C15","An operation interrupted by a panic leaves a consistent collection",
  "If caller-supplied code (a value's hashing, a key's comparison or labelling, a closure, a batch source, the destructor of a key or value in a map) panics during an operation and the caller goes on using the collection, the collection holds either the contents from before that operation or those after it; for a batch, those after some prefix of it; for an in-place edit, the edits made so far. Its root hash, length, iteration and lookups all agree with those contents, and later operations and witnesses behave normally.",
  ["crash_points","histories","fault_sequences"],
  "every invocation of caller-supplied code inside every operation as the point of the panic, any state before it and any continuation after it",
  "No test contains a panic inside an operation.",
  [RB,EN,SEQ,MAP,PG],
  [m("hashes invalidated along the path and computed on demand",RB),m("all comparisons made before the tree is restructured",RB),m("items hashed before they are stored",SEQ)],
  [s("subtree_hash","cached hash, absent while out of date",RB)],
  ["root_hash()","iter()","len()","get()","witness()"])
p("C16","No safe program can keep a reference beyond a collection's life",
  "A program that uses only the safe public API and compiles cannot hold a reference to a key or value after the collection has been changed, moved or dropped.",
  ["programs"],
  "every safe program against the public signatures",
  "Tests are programs that are meant to compile; a signature whose lifetimes are too loose is only visible in programs nobody has written as a test.",
  [RB,EN,IT],
  [m("lifetimes in the signatures of modify, modify_max_with_prefix, insert, entry and iter","src/rbtree.rs, src/rbtree/entry.rs, src/rbtree/iterator.rs")],
  None,["compiler acceptance"])
p("C17","Keeping the root up to date costs work in proportion to the change",
  "After any history, the values hashed by the operations since the root was last taken and by the next root hash or single-key witness number at most 8*log2(n+1)+8 for each call made and each value added since, n being the number of keys and values stored, besides the values a witness shows. Appending to a sequence hashes the appended items only, however many it holds, and asking for the root again does not hash the contents again. This also holds after operations that were interrupted, after bulk loads and after restores.",
  ["histories","crash_points"],
  "every history of operations on maps, nested maps, sequences, paged stores and groups of them, of up to tens of thousands of entries, with roots and witnesses taken at any points and panics at any call of caller code",
  "Tests compare hashes, never how often values are hashed: losing the stored hashes, or hashing a sequence from its start on every append, leaves every result the same and makes each update cost as much as the whole state.",
  [RB,SEQ,MAP,PG],
  [m("subtree hash kept per node and dropped only along changed paths",RB),m("running hash extended from the previous length",SEQ)],
  [s("subtree_hash","hash of the hash tree under a node, absent while out of date",RB),s("hash","running hash over items",SEQ)],
  ["number of times stored values are hashed"])
p("C18","A group holds every member it was given, or is refused",
  "A group built from any list of members and paths, given in any order, commits to every member under exactly the path it was given and hands each out by its type, and the order in which they are given changes neither its root nor its witnesses. A list that cannot be such a group (a type or a path used twice, a path that ends at or goes through another member or a directory, an empty path, no members) is refused when the members are given or when the group is built, and never built with a member missing or hidden. Asking a group for a member it does not have is refused, and no refusal, nor a panic of the caller's code while members are given, leaks or double drops a member or changes the group.",
  ["configurations","inputs","fault_sequences"],
  "every list of members of any types and contents, every assignment of paths to them, valid or not, every order, and a panic of the caller's code while any of them is given",
  "Tests build two valid groups; no test gives a builder members that conflict, and a builder that silently replaces one passes all of them.",
  [GR,GB],
  [m("insert checks the type, the path and what is on the way",GB),m("build turns ordered directories into nodes",GB),m("get / get_mut by type",GR)],
  None,["build() or panic","root_hash()","witness bytes","get()","drop counts"])
p("C19","Saved bytes mean the same to every reader and writer",
  "What a map, nested map or sequence saves in CBOR or Candid is the map or list of its contents and nothing else: a program that does not use this library reads from it exactly the entries or items stored, each once, sequences in their order. What such a program writes as a map or list, its entries in any order and with or without their number ahead, restores to a collection with exactly those contents and their root hash. This holds after every history, for nested and empty collections too, and for bytes passed back and forth any number of times.",
  ["histories","configurations","inputs"],
  "every collection type except the paged store, every contents and history, each encoding, every order of entries, with and without lengths ahead",
  "Tests restore what the same build of the library saved, so a changed or lossy format that is its own inverse passes all of them and loses the state when one version of a canister restores what another saved.",
  [MAP,SEQ,RB],
  [m("serialize as a map of entries or list of items; visitors that loop to the end of the input",MAP+", "+SEQ),m("Candid type of a map is vec of records",MAP)],
  None,["saved bytes","restored root_hash()","iter()"])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        assert x["statement"].count(". ")<=2,(x["id"],x["statement"].count(". "))
        f.write(json.dumps(x)+"\n")
