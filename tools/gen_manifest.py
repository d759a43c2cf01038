import json
world="seeded deterministic simulation of clients, network, replicas, traps, crashes and upgrades, against a reference model and an independent client"
local="seeded deterministic simulation of one process with injected panics and storage faults, against a reference model"
both=world+"; and of one process step by step"
base=" Assurance: every explored execution held; exploration is sampling, not proof. Trusts the models, the independent client written from the public specification, and the simulator. Runs all of certified-vars as compiled from /repo (no debug assertions), with no stub of it."
notes={
"C01":(both,"Root compared after each block, restart, restore and operation with the hash of the full tree recomputed by an independent client, whose entries are compared with the model's."),
"C02":(both,"Every reply, lookup and iteration compared with a model that is an ordered map."),
"C03":(both,"Every witness for a stored entry is checked in its serialized form by an independent client; nothing else may show."),
"C04":(both,"Absence proofs and adversarial prunings judged by an independent client; key types whose labels do not ascend with the keys are known findings and are left out of absence verdicts."),
"C05":(both,"Range, value-range, prefix and key-list witnesses compared with the exact set in the model, closed on both sides."),
"C06":(world,"All roots met in a run compared pairwise by contents, including neighbouring states; answers altered in 15 ways are accepted by a client only if true. Rests on SHA-256 being collision free."),
"C07":(world,"Two to four replicas with different entropy, memory layouts, reads, traps and crashes compared bit for bit at every height."),
"C08":(both,"Saved, restored and saved again at arbitrary points in two CBOR encodings and Candid; compared with a twin that is never restored."),
"C09":(local,"15 kinds of storage fault at seeded positions; whatever is restored must be self-consistent. Panics of the decoders themselves on damaged bytes are out of scope."),
"C10":(both,"Roots of sequences compared with the running hash computed by the harness, including sources of batches that panic part way."),
"C11":(both,"Every page, last page number and their witnesses compared with a model, page numbers up to usize::MAX. Paged stores whose keys have labels of different lengths are a known finding and are left out of absence verdicts."),
"C12":(both,"Random group layouts with 38 kinds of member, groups among them, random selections in random order, edits in between."),
"C13":(local,"Panics injected at seeded calls of caller code; instrumented keys and values, drop counts after each step, and an allocator that detects leaks, double frees, overruns and writes after free. Reads of freed memory are seen through poisoning and through the instrumented types."),
"C14":(local,"Depth of witnesses measured on their bytes and comparisons counted, after histories of up to thousands of operations in 17 patterns, some of which choose what to insert or remove from where the tree is deepest, with interruptions and restores; and the depth of members in groups of up to 38."),
"C17":(local,"Calls that hash an instrumented value are counted, over few changes to collections of up to thousands of entries (20 000 in some runs), with interruptions and restores, against a bound that is proportional to the number of calls and of values added."),
"C15":(local,"A panic at a seeded call of caller code in any operation, then the contents must be those before, after, or of an allowed step in between, and everything must agree with them; failures that occur without the panic as well are not counted."),
"C18":(local,"Random lists of up to 38 members, three in five of them spoilt in one of six ways, given in random orders with panics of the caller's code; which lists cannot be a group is decided by an oracle of five lines, and what is built is compared with the model and with a group built in another order."),
"C19":(local,"An independent program, which holds only plain lists of entries and items, reads what the library saves and writes what it restores, at arbitrary points of histories; contents and roots are compared with the model. Damaged bytes belong to C09."),
}
m={"version":1,"setup_cmd":"cargo build --offline --locked --manifest-path sim/Cargo.toml",
 "checks":[{"property":p,"quick_cmd":f"./check.sh {p} quick","thorough_cmd":f"./check.sh {p} thorough","evidence_file":f"evidence/{p}.json","technique":t,"level":"exploration","level_note":n+base} for p,(t,n) in notes.items()],
 "not_applicable":[{"property":"C16","reason":"It is about which programs compile: there is no execution, schedule or fault for a simulator to decide. (The defect found by reading, in modify's and modify_max_with_prefix's lifetimes, is fixed in /repo commit 94a94dd.)"}],
 "notes":"No hooks: every seam is a type parameter, trait, reader, writer, closure or process-level symbol the code already has."}
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1); open('/verif/MANIFEST.json','a').write("\n")
