#!/usr/bin/env python3
"""Source of properties.jsonl (run: python3 tools/props.py > properties.jsonl)."""
import json
MAPS=["generic_map.go","string_map.go","bytes_map.go","int_map.go","arr_map.go"]
SETS=["generic_set.go","string_set.go","bytes_set.go","int_set.go","arr_set.go"]
ALL=["amt.go"]+MAPS+SETS
P=[]
def p(id,title,st,over,qt,why,files,mech,state=(),obs=(),hook=None):
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=qt),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(obs),hook_needed=hook)))
ST=[("link.pmap/tmap","which of the 16 slots of a trie level are occupied, and which hold entries rather than sub-tries","amt.go: link"),
    ("link.ptr","array of 4/8/12/16 packed slots, or an entry","amt.go: link"),]
p("C01","Every map kind behaves as a dictionary",
  "After any sequence of Set and Del on a map of any kind, Get, Val and Ptr return exactly the value most recently set for a key that has not been deleted since, and report every other key as missing (zero value, false, nil). This holds for any keys and for any values their hashes take.",
  ["histories","inputs"],"all operation histories on every map kind (generic, string, bytes, int, array keys), all hash values of the keys involved",
  "The tests store sequential ints/strings in two of five map kinds under a random seed; deep or particular collision patterns, overwrites after restructuring, and the bytes, array and generic kinds are never exercised.",
  MAPS+["amt.go"],[("Set/Ptr/Del trie walk and node growth/shrink","*_map.go: Set, Ptr, Del"),("newLinkArray","amt.go")],ST,["Get","Val","Ptr"])
p("C02","Every set kind behaves as a mathematical set",
  "After any sequence of Add and Del on a set of any kind, Has is true for exactly the keys that were added and not deleted since. Adding a present key or deleting an absent one changes nothing, whatever values the hashes of the keys take.",
  ["histories","inputs"],"all operation histories on every set kind, all hash values of the keys involved",
  "Only StringSet and IntSet are tested, with sequential keys and bulk phases; BytesSet, ArrSet and generic Set histories are not, nor any chosen collision pattern.",
  SETS+["amt.go"],[("Add/Has/Del trie walk","*_set.go: Add, Has, Del"),("newLinkArray","amt.go")],ST,["Has"])
p("C03","Mod is one read-modify-write of the key's value",
  "Mod calls its callback exactly once, with a pointer to the key's current value and true if the key is present, or a pointer to a zero value and false if it is not. After it returns the key is present with whatever the callback left there, the pointer it was given is the one Ptr now returns for that key, and no other key's value has changed.",
  ["histories","inputs"],"all map kinds, all histories before the Mod, all hash values (insertion into free slots, full nodes, and by splitting a colliding entry)",
  "One test calls Mod twice on a two-entry StringMap; insertion through collisions, rehash levels and full nodes, and the other four map kinds, are not tested.",
  MAPS,[("Mod: update, split and insert paths","*_map.go: Mod")],ST,["Mod callback arguments","Get","Ptr"])
p("C04","Hash collisions never lose, merge or confuse keys",
  "Distinct keys stay distinct entries with their own values however much of their hashes coincide: any number of leading digits, the whole 64-bit hash, or several successive rehashes. Every operation on one of them (insert, update, lookup, modify, delete) leaves the others found with their values.",
  ["inputs","histories"],"all container kinds; pairs, triples and quadruples of keys whose hash digit streams first differ at any digit, up to 14 complete 64-bit collisions in a row (the code counts levels in 8 bits); all short histories over them",
  "With a random seed a million keys collide in about 5 of the 16 digits of the first hash; the rehash code after 16 digits is never reached by any test.",
  ALL,[("rehash after 16 levels","*_map.go, *_set.go: `hw.Write` again / Hash(seed, iter)"),("split loop for colliding entries","Set, Add, Mod"),("deletion path longer than 12 levels","Del, amt.go: root.path")],ST,["Get","Has","All"])
p("C05","Del removes exactly the given key and nothing else",
  "Deleting a present key removes that entry only: every other entry keeps its value, its value pointer and its relative place in the iteration order, and the deleted key is absent until it is inserted again. Deleting an absent key, even one that shares hash digits or a slot with stored keys, leaves every observable (contents, pointers, Len, Dep, order) unchanged.",
  ["histories","inputs"],"all container kinds, all reachable contents over colliding and non-colliding keys, present and absent keys",
  "Tests delete sequential keys in bulk from Int/String containers and look at membership only; deletions of absent keys are never tested, nor order, pointers or depth after a deletion.",
  MAPS+SETS,[("Del: unlink, shift, shrink, collapse","*_map.go, *_set.go: Del")],ST,["All","Ptr","Len","Dep"])
p("C06","Len is exactly the number of distinct entries",
  "At every moment Len equals the number of distinct keys present: overwriting, modifying or re-adding a present key and deleting an absent one never change it, inserting an absent key adds one, deleting a present key subtracts one.",
  ["histories","inputs"],"all container kinds, all histories of every mutating operation, all collision patterns",
  "Len is compared after bulk phases on Int/String containers only; Mod, overwrites, absent deletions and collision paths have separate increments that no test reads.",
  ALL,[("len counter updates on each insertion path and in Del","Set, Add, Mod, Del")],[("root.len","entry count","amt.go: root")],["Len"])
p("C07","All visits every entry exactly once and stops on request",
  "All calls the callback exactly once for each entry, with its key and a pointer to its live value (a write through it is seen by later lookups). As soon as the callback returns false no further call is made, at whatever depth of the trie the entry lies.",
  ["histories","inputs"],"all container kinds, all reachable contents over chosen collision patterns, every position at which the callback stops",
  "Tests count callback invocations of complete iterations; no test stops early, looks at the keys or values passed, or iterates bytes, array or generic containers.",
  MAPS+SETS,[("recursive scans propagating the stop","mapScan, intScan, stringScan, bytesScan, arrScan, setScan, intSetScan, stringSetScan, bytesSetScan, arrSetScan")],ST,["All callback"])
p("C08","Structure depends on contents and seed, not on history",
  "For a given hash seed, Dep and the iteration order are a function of the set of keys present: any two histories that end with the same keys give the same Dep and the same order, and repeated iterations agree. Dep is the mean over the entries of their level, where an entry lies at the first level (4 hash bits each, low bits first, root level 0) whose digits no other entry shares with it.",
  ["histories","inputs"],"all container kinds; all reachable contents over chosen collision patterns, each reached along many histories including deletions",
  "TestCanonicalStructure builds two IntSets with the same insertions in the same order, so it cannot see a history dependence; deletions are not involved.",
  ALL,[("single-entry branches are replaced by the entry on deletion","Del"),("dep bookkeeping","Set, Add, Mod, Del")],[("root.dep","sum of entry depths","amt.go: root")],["Dep","All order"])
p("C09","Value pointers stay aliases of the live value",
  "A pointer obtained from Ptr, from the Mod callback or from All refers to the key's value for as long as the key stays in the map: it is unaffected by any operation on other keys, a write through it is what lookups return, and a later Set or Mod of the key is visible through it. After the key is deleted, writes through an old pointer affect no entry, not even a re-inserted one.",
  ["histories","inputs"],"all map kinds, all histories interleaving pointer writes with operations that grow, split, shrink and collapse the trie, all collision patterns",
  "No test keeps a pointer across another operation.",
  MAPS,[("entries are separate allocations that restructuring moves by pointer","*_map.go: kv types, Set, Mod, Del")],ST,["Ptr","Get"])
p("C10","Copies of a container value share one container",
  "Copying a map or set value (assignment, argument, storing it as a value in another map) yields a handle to the same container: an operation through any copy, including the first insertion and the deletion of the last entry, is immediately visible through all others, in Len and Dep as well as in contents.",
  ["histories","configurations"],"all container kinds, all assignments of the operations of a history to two or more copies taken at any moment, nested containers",
  "TestNestedMap reads one entry through one nested copy; no test modifies through a copy.",
  ALL,[("the container value holds only a pointer to the root","type definitions, New*")],[("root","shared state","amt.go: root")],["all methods through each copy"])
p("C11","Uninitialized containers behave as documented",
  "The zero value of every container kind reports Nil true, Len 0, Dep 0 and, for maps, a zero value from Val; every other method panics (recoverably) rather than succeeding, hanging or returning data, and leaves the value uninitialized. A container made by its constructor reports Nil false and is empty and usable.",
  ["inputs","configurations","histories"],"all container kinds, all exported methods and pairs of them in sequence, several value types",
  "Only Nil after initialization, and Val of one missing nested map, are tested.",
  ALL,[("nil checks","root.Len, root.Dep, Nil, Val"),("nil dereference elsewhere","all other methods")],[],["return values and panics"])
p("C12","Concurrent read-only operations are safe and exact",
  "Get, Val, Ptr, Has, Len, Dep, Nil and All never modify the container: while nobody writes, any number of goroutines may run them at the same time on one container, under any interleaving, and each gets the answer it would get alone, with no data race.",
  ["schedules"],"all container kinds; all interleavings of two and three concurrent readers up to a preemption bound, over chosen contents; all pairs of reads for races",
  "All tests are single-threaded and run without the race detector.",
  ALL,[("lookups and scans keep their state in locals","Ptr, Has, *Scan")],[("root.path","scratch shared by deletions","amt.go: root")],["results per thread","race detector"])
p("C13","Distinct containers are independent",
  "Operations on one container never affect another one, of the same or a different kind, whether they alternate in one goroutine, run inside each other's callbacks, or run concurrently in different goroutines. Containers share no mutable state.",
  ["schedules","histories"],"all pairs of container kinds, all interleavings of short histories on two containers (operation level, and statement level for concurrent goroutines up to a preemption bound)",
  "Tests use one container at a time (or two with equal contents) in one goroutine.",
  ALL,[("all state hangs off the root","amt.go: root, newRoot"),("no package-level variables","amt package")],[],["all methods of both containers"])
p("C14","Callbacks see a consistent container and may panic",
  "Inside the callbacks of Mod and All the container is fully readable and shows exactly the state before the operation (a key being inserted by Mod is still absent), and All may be nested. If a callback panics or ends its goroutine, the container afterwards holds exactly its previous entries (plus value writes the callback made to entries that already existed) and stays fully usable.",
  ["fault_sequences","histories","inputs"],"all map and set kinds, all reachable contents over chosen collision patterns, every key for Mod, every position for All, callbacks that read, write values, panic or call Goexit",
  "No test reads the container in a callback, and none panics in one.",
  MAPS+SETS,[("the callback runs before the trie is restructured","Mod"),("scans hold no state in the container","*Scan")],ST,["container contents inside and after callbacks"])
p("C15","Keys keep their identity over the whole key domain",
  "Two keys are the same entry exactly when they are equal: int64 keys over their whole range, strings and byte slices of any length and content (empty, nil, NUL bytes, prefixes of each other), arrays differing in any byte; and All reports the very key that was inserted. The containers never write to a caller's byte slices, and a slice passed only to lookups, to Del, or for a key already present may be reused afterwards.",
  ["inputs","histories"],"all pairs of keys from a boundary alphabet per key type (every single-bit difference for ints, every byte position for arrays, prefix chains for strings and bytes), with and without forced hash collisions",
  "Tests use 0..999999 and their decimal strings: no negative or large ints, empty keys, prefixes with NULs, or array keys.",
  ["int_map.go","int_set.go","string_map.go","string_set.go","bytes_map.go","bytes_set.go","arr_map.go","arr_set.go"],
  [("int keys stored inline as two 32-bit halves","int_map.go, int_set.go: item.pmap|item.tmap<<32"),("intbytes / KeyBytes / key comparison","*_map.go, *_set.go")],ST,["Get","Has","All keys"])
p("C16","No out-of-bounds access, and no entry lost to the collector",
  "No operation reads or writes memory outside the arrays that belong to the container, at any fill level of any trie level. Every key and value stays intact as long as it is stored, wherever garbage collections happen and wherever the runtime moves the calling goroutine's stack, including in the middle of an operation or inside a callback or key method.",
  ["histories","fault_sequences"],"all container kinds; every transition between the 65536 fill patterns of a trie level; a collection, or a move of the stack, at every statement of every operation of short histories",
  "Tests see only wrong answers: an out-of-bounds slot or a prematurely freed object usually goes unnoticed, and nothing controls when collections happen or stacks move.",
  ALL,[("array capacity is the slot count rounded up to 4","newLinkArray, Set, Add, Mod, Del"),("pointers kept as unsafe.Pointer in scanned memory","amt.go: link")],ST,["address sanitizer","value integrity after forced collections and stack moves"])
p("C17","Removed and replaced entries are released",
  "Once a key has been deleted, or its value replaced, the container keeps no reference to the removed key or value, so they can be garbage-collected (unless still stored elsewhere), even while the container itself stays in use.",
  ["histories","inputs"],"all container kinds holding pointers, all short histories ending in any contents, over collision patterns from shallow to deeper than the traversal scratch",
  "No test observes reachability.",
  MAPS+SETS+["amt.go"],[("vacated slots and the traversal path are cleared","Del"),("emptied branches are dropped","Del")],[("root.path","traversal scratch","amt.go: root")],["weak pointers after a collection"])
p("C18","Provided key types and hash helpers honour the key contract",
  "Bytes, String, Int and HashBytes hash a key deterministically from the seed and the key repeated iter+1 times, for every iter: equal keys hash equally, HashBytes, Bytes and String agree on equal bytes, and each further iteration gives an independent hash. The provided key types work as keys of generic maps and sets, which then behave exactly as the specialised containers do, with the same Dep and order for the same seed.",
  ["inputs","histories"],"all iteration counts up to 600, keys over length and content boundaries; all short histories run in lockstep on the generic and the specialised container over chosen collision patterns",
  "One generic map and one generic set with Bytes keys, holding one key each; hash helpers are never called directly.",
  ["generic_map.go","bytes_map.go","string_map.go","int_map.go","generic_set.go"],[("Hash/Equal methods","Bytes.Hash, String.Hash, Int.Hash, HashBytes, Equal")],[],["Hash results","lockstep answers"])
p("C19","Maps store values of any type and size faithfully",
  "For any value type (zero-size, smaller or larger than a word, strings, slices, interfaces, functions, pointers, other containers) a map returns exactly the values stored, missing keys give that type's zero value, and distinct keys never share value storage (unless the type has size zero).",
  ["configurations","histories"],"all map kinds instantiated at a menu of value types; all short histories over colliding keys",
  "All tests but one store int values; the other stores one nested map.",
  MAPS,[("entry structs with the value first","kv, intkv, strkv, byteskv, arrkv"),("zero-size values","Ptr, Set, Mod")],[],["Get","Val","Ptr","All"])
p("C20","Keys are hashed with one seed and few rehashes, compared at most once",
  "A container uses one seed for its lifetime, drawn when it is constructed and different from other containers' seeds. An operation hashes only its own key and a key it collides with, starts at iteration 0 and asks for iteration i only when all 16*i preceding digits of those keys leave them undistinguished, and compares its key with at most one stored key.",
  ["histories","inputs"],"generic containers with instrumented keys: all histories over chosen collision patterns, every call of the key methods recorded",
  "The tests never define a key type, so no call of Hash or Equal is observed.",
  ["generic_map.go","generic_set.go","amt.go"],[("iter = level/16","Hash(seed, uint(d>>4))"),("newRoot draws the seed","amt.go")],[("root.seed","hash seed","amt.go: root")],["calls of Key.Hash and Key.Equal"])
p("C21","Memory in use depends on the contents, never on the history",
  "What a container keeps alive in memory is at any moment no more than its contents need: a root of 512 bytes, one fixed-size object per entry, and for every trie level below the root an array of 4, 8, 12 or 16 links of 16 bytes, the smallest that holds the items of that level. Insertions, deletions, overwrites and re-insertions in any number and order never make it grow beyond that. Nor do they, reads, or the making and dropping of containers leave memory in use outside the containers.",
  ["histories","inputs"],"all histories on every container kind, all hash values; memory reachable from the container, without the memory of keys and values kept elsewhere",
  "No test looks at memory; an array that is not shrunk, a branch that is not unlinked, or a stale link in scratch space shows in no result.",
  ALL,[("newLinkArray sizes","amt.go: newLinkArray"),("growth and shrinking of slot arrays","Set/Add/Mod/Del"),("collapse of branches","Del"),("traversal scratch","root.path")],ST,["heap memory reachable from the container value","live heap of the process after collections"])
p("C22","A failing key method leaves the container as it was",
  "If a method of a key (Hash, Equal or KeyBytes) panics or ends its goroutine in the middle of an operation, the panic reaches the caller, and the container holds exactly the entries, values, Len, Dep and iteration order it had before the operation, and stays fully usable. (A Mod callback that already ran on an existing value keeps its effect.)",
  ["histories","fault_sequences"],"generic and array-key containers, every operation in every contents, failure at every single call of a key method",
  "The tests define no key type, so no key method ever fails; failures in the middle of splitting an entry need a complete hash collision as well.",
  ["generic_map.go","generic_set.go","arr_map.go","arr_set.go"],[("splitting a colliding entry","Set/Mod/Add: rehash loop"),("KeyBytes of the stored key","arr_map.go, arr_set.go")],ST,["Get","Has","Len","Dep","All after the panic"])
p("C23","The work of an operation grows with its key's level, not with Len",
  "Get, Val, Ptr, Has, Set, Add, Mod and Del do an amount of work bounded by a constant times the number of trie levels the key's hash digits share with other entries (about log16 of the number of entries for well-mixed hashes); Len, Dep and Nil take constant work; All takes work proportional to the entries and branches visited, and stopping it at once takes constant work per level.",
  ["histories","inputs"],"all histories and hash values; work counted in statements of the package executed",
  "The tests measure nothing; an accidental scan of all entries or a walk repeated per level shows in no result.",
  ALL,[("one step per level","Ptr/Has/Set/Add/Mod/Del: loop over levels"),("Len and Dep kept as counters","amt.go: root")],ST,["statements executed per operation"])
p("C24","Values of different keys can be updated concurrently in place",
  "While no entry is inserted or deleted, goroutines may concurrently read and write the values of different keys, through the pointers that Ptr, Mod and All gave or by Set, and look those keys up: under any interleaving each sees only its own key's writes, no write is lost or reaches another key, and there is no data race.",
  ["schedules"],"all map kinds, two threads with different keys: every interleaving up to a preemption bound over chosen trie shapes; all trie shapes for races",
  "All tests are single-threaded.",
  MAPS,[("each value is a separate allocation; lookups read no other value","kv types; Get, Val, Ptr, *Scan")],ST,["Get","Ptr","Mod","All","race detector"])
p("C25","Nothing but the contents is retained, and a dropped container is freed",
  "A container keeps nothing alive but the keys and values of its entries: keys passed to lookups, to Del, or to updates of entries already present, and the callbacks given to Mod and All, are not retained. When a container and its copies become unreachable, the container, its keys and its values all become collectable, whatever its history.",
  ["histories","inputs"],"all container kinds; all short histories and all contents walks over collision patterns, every key and callback of every operation watched by a weak pointer",
  "No test observes reachability; a cached key, a leaked closure or a registry of containers shows in no result.",
  ALL,[("an entry keeps the key it was inserted with","Set, Add, Mod"),("all state hangs off the root","amt.go: root, newRoot")],[("root.path","traversal scratch","amt.go: root")],["weak pointers after a collection"])
p("C26","Callbacks may update entries that are present",
  "Inside the callback of All, or of Mod for a present key, entries that are present may be updated (Set, Mod, Add of a present key, writes through pointers) and absent keys deleted. All still visits every entry exactly once, in the order of an undisturbed All and with the value current at that moment, and every update takes effect.",
  ["histories","inputs"],"all container kinds, all reachable contents over chosen collision patterns, every callback position, every update of every key in it",
  "No test updates a container inside a callback.",
  MAPS+SETS,[("updates of present entries leave the trie alone","Set/Mod/Add: match branch"),("Del of an absent key changes nothing","Del"),("scans read the current value","*Scan")],ST,["All callbacks","Get after the callbacks"])
p("C27","Keys of any type and size are stored faithfully",
  "For any key type that satisfies the constraints (zero-size, one byte, several words, holding pointers, strings or interfaces, equal though not identical), generic and array-key containers hold exactly the entries inserted, All reports the very key each entry was inserted with (updates do not replace it by an equal key), and keys holding pointers keep what they point to alive while stored.",
  ["configurations","histories"],"generic and array-key containers instantiated at a menu of key types; all contents tours over colliding keys, and collections between operations",
  "The tests instantiate generic containers with Bytes keys only and array containers with one array type.",
  ["generic_map.go","generic_set.go","arr_map.go","arr_set.go","amt.go"],[("entry objects hold the key by value","kv, arrkv, set entries"),("a match keeps the stored key","Set, Add, Mod")],ST,["Has","Get","All keys"])
p("C28","Key methods may read the container and use other containers",
  "While a method of a key (Hash, Equal or KeyBytes) runs inside an operation, the container may be read, by every method that does not modify it, and shows exactly the entries, values, Len, Dep and order it had before the operation; and any operation may be run on other containers, with its full effect. Neither changes what the interrupted operation does.",
  ["histories","inputs"],"generic and array-key containers, every operation in every contents over chosen collision patterns, every single call of a key method; other containers of every kind in every contents",
  "The tests define no key type, so no key method ever uses a container; state shared between operations or a trie restructured too early shows in no result.",
  ["generic_map.go","generic_set.go","arr_map.go","arr_set.go"],[("keys are hashed and compared before the trie is changed","Set/Add/Mod/Del"),("no state outside the container","amt package")],ST,["all reads inside key methods","contents afterwards"])
for x in P:
    assert len(x["title"])<=80,(x["id"],len(x["title"]))
    print(json.dumps(x))
