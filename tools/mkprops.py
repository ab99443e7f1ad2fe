#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (single source for the property texts)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
S="stabby-abi/src/"
HOOK="cfg(stabby_verif): shimmed atomics that report every atomic operation (address, kind, ordering, values) and yield to a scheduler"

p("A01","Shared values are destroyed once, after their last owner, and freed once",
"A value held by shared (reference-counted) handles, single or slice, typed or as a trait object, is destroyed exactly once, when the last strong handle to it goes away and never while one exists. Its memory is returned exactly once, after that destruction and after the last weak handle is gone, to the allocator it came from. This holds for every sequence of cloning, downgrading, upgrading, converting and dropping handles, and every interleaving of those operations between threads.",
["schedules","histories"],"every history of handle operations on up to 3 threads sharing a value, and every interleaving of their atomic steps",
"The repository's tests clone and drop Arcs on one thread only, and none counts destructions or frees; a lost or doubled decrement is invisible to them.",
[S+"alloc/sync.rs",S+"alloc/mod.rs",S+"fatptr.rs"],[("Arc/ArcSlice Drop, Clone",S+"alloc/sync.rs"),("Weak/WeakSlice Drop, Clone, upgrade",S+"alloc/sync.rs"),("IPtrOwned for Arc/Weak",S+"alloc/sync.rs")],
[("strong","number of strong handles",S+"alloc/mod.rs AllocPrefix"),("weak","weak handles + 1 while strong>0",S+"alloc/mod.rs AllocPrefix")],["drop events of the pointee","alloc/free events of the allocator"],HOOK)
p("A02","A weak handle upgrades exactly while the value is alive",
"Upgrading a weak handle (to a value or a slice) yields a strong handle to that same value if at least one strong handle exists at some instant during the call, and nothing otherwise; once the last strong handle is gone no later upgrade ever succeeds. A failed upgrade has no effect on any other handle, and concurrent upgrades, clones and drops neither revive a destroyed value nor lose a handle. The reported strong and weak counts of a quiescent value equal the numbers of handles that exist.",
["schedules","histories"],"every interleaving of upgrade/clone/downgrade/drop on up to 3 threads",
"No test upgrades a Weak concurrently with anything; the failing interleavings need two preemptions at specific atomic steps.",
[S+"alloc/sync.rs"],[("Weak::upgrade",S+"alloc/sync.rs"),("WeakSlice::upgrade",S+"alloc/sync.rs"),("strong_count/weak_count",S+"alloc/sync.rs")],None,["results of upgrade","strong_count/weak_count"],HOOK)
p("A03","Exclusive access to a shared value is granted only to its sole owner",
"Operations that give mutable access to, or move out of, a shared value or slice (get-mut, make-mut, try-into-inner, conversion back to a vector) succeed on the original storage only when the caller's handle is the only strong or weak handle to it, and otherwise leave the value untouched (copy-on-write writes only to a fresh copy). When the handle is the only one, they do succeed in place. No other handle ever observes a value changed through one of them.",
["histories","schedules"],"every history of handle operations, single- and multi-threaded",
"The tests never hold two handles while asking for exclusive access.",
[S+"alloc/sync.rs"],[("Arc::is_unique/get_mut/make_mut/try_into_inner",S+"alloc/sync.rs"),("ArcSlice::is_unique/as_slice_mut, TryFrom<ArcSlice> for Vec",S+"alloc/sync.rs")],None,["returned Option/Result","values read through the other handles"],HOOK)
p("A04","Destroying or exclusively accessing a shared value happens-after all other uses",
"Under the Rust/C++ memory model, every access to a shared value made through a handle before that handle was dropped happens-before the value's destruction, before its memory is freed, and before any exclusive access later granted to the remaining owner. Likewise what a thread publishes through an atomic shared cell, with release/acquire or stronger orderings, is visible to the thread that loads it.",
["schedules"],"every pair of accesses by different threads in every explored schedule, judged by the happens-before relation that the declared memory orderings induce, not by what x86 happens to do",
"Data races from too weak an ordering are invisible to tests: x86 hides them and the tests are single-threaded.",
[S+"alloc/sync.rs"],[("orderings of the reference counts",S+"alloc/sync.rs"),("orderings of AtomicArc",S+"alloc/sync.rs")],None,["declared orderings of every atomic operation"],HOOK)
p("A05","An atomic shared cell is a linearizable register that owns its value",
"An atomic cell holding an optional shared value behaves as a single register: each load, comparison, store and compare-exchange appears to take effect at one instant, loads return the value then held with its own new handle, and compare-exchange installs the new value exactly if the current one was the expected one, returning the previous value, else returning the actual one. The cell owns one handle to what it holds; replaced, rejected and finally held values are each released exactly once.",
["schedules","histories"],"every history of cell operations on up to 3 threads",
"AtomicArc has no test at all except as the root of one single-threaded set.",
[S+"alloc/sync.rs"],[("AtomicArc::{load,store,is,compare_exchange}, Drop",S+"alloc/sync.rs")],None,["operation results","drop events"],HOOK)
p("B01","The B-tree set and map behave as a mathematical ordered set and map",
"After any sequence of insertions, the tree set contains exactly the distinct keys inserted, lists them in strictly increasing order when formatted, reports that length, and looks up exactly the keys it contains. Inserting an equal key into a replacing set stores the new one and hands back the previous one; into a non-replacing set it hands back the new one and changes nothing. The map built on it associates each key with the value inserted last and hands back the previous one.",
["histories","inputs"],"every insertion history over small key sets (exhaustive to a bound, then random with hundreds of keys), all node-splitting shapes and several node capacities",
"Two tests insert random integers with one allocator each; they check membership, not replacement results, or splits at all shapes.",
[S+"alloc/collections/arc_btree.rs"],[("ArcBTreeSetNodeInner::insert and split",S+"alloc/collections/arc_btree.rs"),("ArcBTreeSet::get/insert/len, iterators",S+"alloc/collections/arc_btree.rs")],None,["insert results","get","formatted content","len"],None)
p("B02","Cloned trees are independent snapshots",
"Cloning a tree set or map yields a snapshot: later insertions into either are never visible through the other, whatever subtrees they still share. Every element is destroyed exactly once, when no snapshot holds it any more, and every node is freed exactly once.",
["histories"],"every interleaving of clone, insert and drop over up to 4 snapshots",
"No test clones a tree and then modifies it.",
[S+"alloc/collections/arc_btree.rs"],[("copy-on-write through ArcBTreeSetNode make_mut",S+"alloc/collections/arc_btree.rs")],None,["formatted content of every snapshot after each step","drop/free events"],None)
p("B03","Concurrent edits of an atomic tree are atomic and none is lost",
"Concurrent insertions, edits and lookups on an atomic tree set behave as if each happened at one instant: every completed edit is included in all later states, and a lookup sees the state at some instant during its call. The elements a state held are released when nothing refers to that state any more.",
["schedules","histories"],"every interleaving (to a preemption bound) of edits and lookups on up to 3 threads",
"The test that uses it is single-threaded.",
[S+"alloc/collections/arc_btree.rs"],[("AtomicArcBTreeSet::edit/get/insert",S+"alloc/collections/arc_btree.rs")],None,["results of insert/get","final content"],HOOK)
p("V01","Registered vtables are unique by content, complete and permanently valid",
"Asking for the vtable of a type for a trait always returns a reference whose entries are exactly the ones requested, that stays valid and unchanged for the rest of the program. Any number of threads asking concurrently for equal and different vtables each get one with their requested content, no registered vtable is lost, and later requests for registered content return the same address.",
["schedules","histories"],"every interleaving (to a preemption bound) of registrations on up to 3 threads, and every request history over a set of distinct vtables",
"Tests register vtables from one thread and never compare addresses or force a collision.",
[S+"vtable/mod.rs",S+"vtable/btree.rs",S+"alloc/collections/arc_btree.rs"],[("VTableRegistry::insert/insert_typed",S+"vtable/mod.rs")],None,["returned address and content"],HOOK)
p("V02","Trait objects run their own type's code on their own data and drop it once",
"Calling any method of any trait of a trait object runs the implementation of the concrete type it was made from on the data it was made from, whatever the pointer kind, the order of the traits, default methods, generic arguments, borrows, copies of shared pointers, or upcasts performed on the way. Dropping the object destroys the data exactly once for owning pointers, with the last reference for shared ones, and never for borrowed ones.",
["programs","inputs"],"all pointer kinds x trait bounds x call sequences over types whose methods and state differ",
"The tests call a handful of methods, never distinguish two types with the same layout, and never count destructions.",
[S+"fatptr.rs",S+"vtable/mod.rs","stabby-macros/src/traits.rs"],[("DynRef/Dyn and their From impls",S+"fatptr.rs"),("vtable layout & dispatch","stabby-macros/src/traits.rs")],None,["method results","drop events"],None)
p("V03","A trait object downcasts only to the type it was made from",
"A trait object can be turned back into a concrete type only if it was created from exactly that type, types being told apart by everything their description states (module, name, kind, version and fields), and then gives access to the original data; otherwise it is refused and the object remains usable and intact.",
["programs","inputs"],"all pairs (made from, downcast to) over a set of types with equal and different layouts, names and fields",
"One test downcasts to the right type.",
[S+"fatptr.rs",S+"vtable/mod.rs"],[("stable_downcast / unchecked_downcast / is",S+"fatptr.rs")],None,["downcast results"],None)
p("C01","Vectors behave as the mathematical sequence they represent",
"A vector's content after any sequence of pushes, pops, removals, truncations, drains, extensions, copies and iterations is exactly what the same operations give on a plain sequence, and so is what each operation returns, from both ends of its iterators and drains. Length, capacity, emptiness and reservation obey their documented relations, and out-of-range requests are refused without changing the content.",
["histories","inputs"],"every operation history up to a small bound plus long random histories, over sized, zero-capacity and zero-sized cases",
"One test compares pushes, pops and drains of integers on a few fixed cases.",
[S+"alloc/vec.rs"],[("VecInner/Vec operations, Drain, DoubleEndedDrain, IntoIter",S+"alloc/vec.rs")],None,["results and projected content after every call"],None)
p("C02","Owning containers destroy every element exactly once, even on panic",
"Every element moved into a vector, box, boxed slice or shared slice is, at any time, in exactly one place: in the container, handed to the caller, or destroyed; it is never destroyed twice, never leaked by an operation not documented to leak, and never read after being given away. This includes partially consumed iterators and drains, conversions, and a caller-supplied iterator or clone that panics; after a destructor panics, what remains may leak, but nothing is destroyed twice. Each block of memory is freed exactly once, with the allocator that provided it.",
["histories","fault_sequences"],"every operation history to a bound with partial consumption and with panics injected in user closures",
"Tests use integers: double drops and leaks of elements are invisible.",
[S+"alloc/vec.rs",S+"alloc/boxed.rs",S+"alloc/sync.rs"],[("Drop of Vec, Drain, IntoIter, Box, BoxedSlice",S+"alloc/vec.rs")],None,["drop events of tracked elements","alloc/free events"],None)
p("C03","The single-or-vec container behaves as a sequence",
"A container that stores one element inline and more in a vector behaves, for every sequence of operations, exactly as a plain sequence, including at the switch between the two representations and back. Every element in it is destroyed exactly once, including when a reservation fails.",
["histories","fault_sequences"],"every operation history to a bound, with allocation failures",
"One test pushes and pops integers.",
[S+"alloc/single_or_vec.rs"],[("SingleOrVec",S+"alloc/single_or_vec.rs")],None,["results, content, drop events"],None)
p("C04","Container conversions preserve content, capacity reuse and ownership",
"Converting between vector, boxed slice, shared slice, box, shared value, and their string counterparts preserves the element sequence, keeps every element alive exactly once, and never makes a later operation or drop misbehave, whatever chain of conversions was used and whether the content is empty, partly filled or full. A refused conversion gives the original back unchanged.",
["histories"],"all conversion chains to depth 4 over lengths 0..4 and capacities, followed by further use and drop",
"No test converts between containers.",
[S+"alloc/vec.rs",S+"alloc/boxed.rs",S+"alloc/sync.rs",S+"alloc/string.rs"],[("From/TryFrom impls between containers",S+"alloc/sync.rs")],None,["content, drop events, alloc/free events"],None)
p("C05","A failed allocation leaves everything intact and loses nothing",
"When the allocator refuses a request, every fallible operation returns an error carrying back the inputs it was given, and the container is exactly as before and still usable. No element is lost, destroyed twice or leaked, no block is leaked or freed twice, for a failure at any allocation of any operation.",
["fault_sequences","histories"],"every operation x every single failing allocation index, then continued use",
"No test makes an allocation fail.",
[S+"alloc/vec.rs",S+"alloc/boxed.rs",S+"alloc/sync.rs",S+"alloc/single_or_vec.rs"],[("try_* functions",S+"alloc")],None,["results, content, drop events, alloc/free events"],None)
p("C06","Strings always hold valid UTF-8 and behave as text sequences",
"Stable strings, boxed strings, shared strings and string slices hold, after any operation, exactly the text that the same operations give on ordinary Rust strings, and compare, order, hash and print as such. Bytes that are not UTF-8 never become a string.",
["histories","inputs"],"all operation histories to a bound over multi-byte texts; byte sequences including invalid UTF-8",
"There is no string test.",
[S+"alloc/string.rs",S+"str.rs"],[("String/ArcStr/BoxedStr/Str conversions, Add/AddAssign/Write",S+"alloc/string.rs")],None,["results and content"],None)
p("C07","Iterators hand out what is left, once and in order, from either end",
"Every iterator over a container (by value, by reference, by mutable reference, or draining a range) hands out each element of its range at most once and in order, from either end, whatever mixture of single steps and jumps of any length is made, and knows how many are left. When it is abandoned at any point, the elements that were neither handed out nor outside of its range are destroyed once if it owns them, and everything else stays in the container, including what was written through it.",
["histories","inputs"],"all pairs of steps and jumps over 0-3 elements, random uses of up to 6; jumps up to usize::MAX; twelve iterators",
"One test drains a vector; nothing tests jumps or abandoned iterators.",
[S+"alloc/vec.rs",S+"alloc/single_or_vec.rs",S+"alloc/boxed.rs"],[("IntoIter, Drain, DoubleEndedDrain",S+"alloc/vec.rs"),("IterMut",S+"alloc/single_or_vec.rs")],None,["elements handed out, drop events, content afterwards"],None)
p("M01","Allocations are large and aligned enough, and resized or freed correctly",
"Every allocation made for a container is requested from the allocator with a size and alignment that cover its bookkeeping and the requested number of elements at the element type's alignment, whatever that alignment; elements always lie inside the block. Blocks are resized with their true previous layout, keep their content, and are freed through the pointer that was returned, by the allocator they came from. The provided allocators honour requested sizes and alignments, preserve content up to the smaller size on resizing, and report failure rather than returning unusable memory.",
["inputs","histories"],"element alignments 1..128, sizes 0..big, all growth/shrink sequences to a bound, every provided allocator",
"Tests allocate only word-aligned integers through the default allocator.",
[S+"alloc/mod.rs",S+"alloc/allocators/rust_alloc.rs",S+"alloc/allocators/libc_alloc.rs"],[("AllocPtr::{alloc_array,realloc,init,free}",S+"alloc/mod.rs"),("RustAlloc",S+"alloc/allocators/rust_alloc.rs"),("LibcAlloc",S+"alloc/allocators/libc_alloc.rs")],None,["requests seen by a recording allocator","addresses of elements"],None)
p("S01","Packed sum types decode to exactly the variant and payload that was encoded",
"Storing a value as one of the two variants of a compact result, whatever the layouts of the two payload types and wherever the discriminant is hidden (spare bit patterns, forbidden zero, unused bytes, explicit tag), always reads back as that same variant with that same payload. This holds for nested sums and options, for every payload value, and after copying, cloning, moving or replacing the payload in place.",
["inputs","configurations"],"a systematic family of payload type pairs covering each niche strategy, with boundary payload values",
"Tests check a few type pairs with one payload value each.",
[S+"result.rs",S+"enums/mod.rs",S+"enums/err_non_empty.rs",S+"enums/err_size_0.rs",S+"istable.rs"],[("IDeterminantProvider / niche selection",S+"enums/mod.rs")],None,["is_ok/is_err, payload bytes"],None)
p("S02","Results and options behave like Rust's and keep every payload exactly once",
"Every query, conversion and combinator on a stable result or option returns what the same one returns on the standard type, with closures called exactly when and with what they should be. Payloads are moved, not duplicated or lost: each is destroyed exactly once across any sequence of operations including conversions to and from the standard types.",
["inputs","histories"],"every method x variant x closure result, then drop",
"Tests match on a few results of plain integers.",
[S+"result.rs",S+"option.rs"],[("Result/Option methods",S+"result.rs")],None,["return values, closure calls, drop events"],None)
p("S03","Mutating a sum type's payload in place keeps its variant and the new payload",
"Giving mutable access to the payload of a stable result, option or enum, then changing it, replacing it, or leaving it alone, leaves the sum holding the same variant and the payload as it was left, including when the packing stores the discriminant inside the payload's spare bits, and when the access ends by early return or panic.",
["inputs","histories","fault_sequences"],"every niche strategy x old payload x new payload",
"No test replaces a payload through a mutable match.",
[S+"result.rs",S+"enums/mod.rs"],[("match_mut guards",S+"result.rs")],None,["variant and payload after the access"],None)
p("S04","Stable enums keep the variant and payload they were built with",
"Every value of an enum declared stable, built by any of its constructors, matches as exactly that variant with exactly that payload, by value, by reference and by mutable reference, for any number of variants. Exactly the payload in it is destroyed, exactly once.",
["inputs","programs"],"enums with 1..12 variants of mixed payload layouts; every constructor and every match form",
"Tests exercise enums of plain data with a few variants by value.",
["stabby-macros/src/enums.rs",S+"result.rs"],[("enum macro: nested results and match functions","stabby-macros/src/enums.rs")],None,["matched variant/payload, drop events"],None)
p("L01","Stable layouts are what the documented layout algorithm prescribes",
"The size, alignment, forbidden values and unused bits that the type system computes for a stable type are those of the documented rules (fields in order, aligned; sums with the discriminant in the first available niche) and the size and alignment agree with what the compiler actually laid out. A byte or bit claimed unused or a value claimed forbidden never occurs in a valid value of the type. A type that claims to have no niche, or exactly one, which is what makes core's options and results of it stable, has that many.",
["configurations","inputs"],"a family of structs, tuples, unions, enums, options and results over primitive types generated up to a size bound",
"Tests pin a few tens of layouts by hand.",
[S+"istable.rs",S+"stable_impls/mod.rs",S+"enums/mod.rs","stabby-macros/src/structs.rs"],[("FieldPair/Struct/Union layout arithmetic",S+"istable.rs"),("niche computation",S+"enums/mod.rs")],None,["IStable constants, size_of, align_of"],None)
p("U01","Type-level numbers, masks and forbidden values compute what they denote",
"Everything a layout is computed with at compile time is exact: sums, differences, products, minima and maxima, bitwise operations, truncations, remainders, quotients, roundings and comparisons of type-level numbers give the canonical type of the mathematical result; paddings and arrays have the size, alignment and unused bytes they declare. Combining, shifting and consuming masks of unused bits, and combining, shifting, testing for and choosing among forbidden values, give what the same operations on sets of bits and of values give.",
["inputs"],"all pairs of some forty numbers up to 1000 and powers of two; ~140 masks and ~160 sets of forbidden values; the rules themselves for all pairs of up to 7 digits",
"The tests compute some twenty pairs of numbers up to 16.",
[S+"typenum2/unsigned.rs",S+"istable.rs"],[("IUnsigned, IBit, IPowerOf2",S+"typenum2/unsigned.rs"),("IBitMask, IForbiddenValues",S+"istable.rs")],None,["digits of resulting types, sizes and alignments of types, results of is_invalid"],None)
p("D01","Values are serialized like their std counterparts and read from any source",
"With the serde feature, strings, vectors, boxed and shared slices, views, options, results and restricted numbers are written exactly as their standard counterparts, and read from whatever those are read from, however the source hands out its strings (lent, transient or owned; the views are read only from what is lent) and whatever it claims a sequence's length to be: the value is the one described. Anything else is refused, as is any input that fails half-way, and then every element read so far is destroyed exactly once and all memory is freed; a restricted number is never read with its forbidden value. What is written reads back as the same value.",
["inputs","faults"],"53 types, nested to three levels; sources that are right, or wrong or failing in any places; three kinds of strings; seven kinds of length hints",
"No test uses the serde feature.",
[S+"alloc/string.rs",S+"alloc/vec.rs",S+"num.rs",S+"option.rs",S+"result.rs"],[("serde_impl modules",S+"alloc/vec.rs"),("serde_impl",S+"alloc/string.rs"),("serde(into, try_from)",S+"num.rs")],None,["trees written to a Serializer, values read from a Deserializer, live elements and blocks"],None)
p("X01","Only what is safe to be sent, shared or shortened may be, by type",
"Safe code can't cause data races or dangling references through the library's types: each type may be sent to another thread, or shared with it, exactly if what it contains, points to, or shares (payloads, allocators, hidden objects) may be used so from there, like its standard counterpart; objects promise only what the value they were made from keeps, and casts add no promise. No type's lifetime parameters can be lengthened, and where values can be stored through a view or shared cell they can't be shortened either; what is obtained from a borrowed thing doesn't outlive the borrow.",
["schedules","configurations"],"about 60 generic types with four kinds of payloads and allocators, 13 vtables behind four kinds of pointers; 150 probes of lifetimes; the rules for all schedules of 3 threads and 4 handles",
"No test asserts that a type can't be sent, shared or coerced.",
[S+"alloc/sync.rs",S+"alloc/boxed.rs",S+"fatptr.rs",S+"vtable/mod.rs",S+"slice.rs",S+"result.rs"],[("unsafe impl Send / Sync",S+"alloc/sync.rs"),("HasSendVt, HasSyncVt",S+"vtable/mod.rs"),("Dyn, DynRef",S+"fatptr.rs"),("SliceMut",S+"slice.rs")],None,["the compiler's resolution of Send, Sync, From and IntoSuperTrait for types, its acceptance of probes"],None)
p("R01","Two types are reported compatible exactly when they are structurally the same",
"Two type descriptions compare as compatible exactly when name, module, kind, version and the whole list of fields (names and types, recursively) agree; identical descriptions have equal identifiers, and any difference in one of those parts makes them differ. The description produced for a declared type states its actual name, module, kind, version and its fields in order (from either end).",
["inputs","configurations"],"descriptions differing in exactly one respect, at any depth, from each other",
"No test compares two different reports.",
[S+"report.rs","stabby-macros/src/structs.rs"],[("TypeReport::is_compatible",S+"report.rs"),("gen_id",S+"report.rs")],None,["is_compatible, ids, rendered report"],None)
p("R02","A checked import yields its value only if it matches, for all threads alike",
"An imported symbol whose compatibility must be validated gives access to its value exactly if the provided description matches what the importer expects, and otherwise gives the mismatch; the answer is the same for every call from every thread. No thread gets access before validation succeeded, and the value a thread gets is fully initialised in the memory-model sense.",
["schedules","configurations"],"every interleaving of first uses by up to 3 threads, matching and mismatching",
"The linkage example uses one matching import on one thread.",
[S+"checked_import.rs"],[("CheckedImport::as_ref / Deref / validation states",S+"checked_import.rs")],None,["as_ref results"],HOOK)
p("R03","Loading a symbol from a library succeeds only if its contract matches",
"Looking up a function in a loaded library with a type report succeeds and returns the working function exactly if the library exports it with the same signature; otherwise it fails with an error. Lookups guarded by canaries succeed exactly if the library was built with the same compiler parameters that the canaries encode.",
["configurations","inputs"],"libraries exporting matching, mismatching and missing symbols and canaries",
"One example loads one matching library.",
["stabby/src/libloading.rs"],[("StabbyLibrary::get_stabbied/get_canaried","stabby/src/libloading.rs")],None,["lookup results"],None)
p("F01","Wakers passed through the stable boundary keep their identity and lifetime",
"A waker received through a stable future wakes exactly the task of the waker that was given, as many times as asked, by value or by reference; clones made on the other side do so too, also after the original is gone, and comparing them for waking the same task never claims two different tasks are the same. Every clone is released exactly once and the underlying waker is kept alive exactly as long as needed.",
["histories","schedules"],"every sequence of clone, wake, wake_by_ref, drop over up to 4 wakers",
"The async test completes one future on one executor; it never counts wakes or drops.",
[S+"future.rs"],[("StableWaker / waker vtables",S+"future.rs")],None,["wake and drop counts of the original waker"],None)
p("F02","Futures across the stable boundary give the same outcome as the original",
"Polling a boxed, pinned or borrowed future as a stable future object gives pending and ready exactly as the underlying future, with the same output, polls it once per poll, and drops it once. A maybe-already-resolved future is ready with its value at its first poll if resolved, and otherwise behaves as the wrapped future; its value is given out exactly once. An async function's future owns its arguments, runs only when polled, and destroys what it still holds when it's done or dropped.",
["histories","inputs"],"every schedule of pending/ready polls to a bound, dropping at any point",
"One test awaits one ready future.",
[S+"future.rs"],[("IFuture / MaybeResolved",S+"future.rs")],None,["poll results, drop events"],None)
p("K01","Closures and iterators across the stable boundary behave as the originals",
"Calling a stable closure object of any arity, by reference, mutable reference or once, calls the original closure once with the same arguments in the same order and returns its result, keeping its captured state; captured values are destroyed exactly once. An iterator object yields the same items in the same order as the original.",
["inputs","programs"],"arities 0..9 x Fn/FnMut/FnOnce x pointer kinds, call sequences to a bound",
"Tests call one closure of one argument.",
[S+"closure.rs",S+"iter.rs","stabby-macros/src/gen_closures.rs"],[("generated CallN traits","stabby-macros/src/gen_closures.rs"),("IIterator",S+"iter.rs")],None,["results, argument order, drop events"],None)
p("N01","Restricted-range integers hold exactly the values of their declared width",
"For every restricted-range or non-special integer type, construction succeeds exactly for the values in its range, reading it back gives the same number, and equality, ordering, hashing, formatting, arithmetic results and MIN/MAX agree with those numbers.",
["inputs"],"every value for 8- and 16-bit bases; boundary and random values for larger ones",
"Tests cover construction round trip of some widths, not comparisons, MIN/MAX or values near the edges.",
[S+"num.rs"],[("makemask/makeimask",S+"num.rs")],None,["new, get, comparisons, MIN, MAX"],None)
p("T01","Stable durations and instants convert and compute like the standard ones",
"Converting durations, instants and system times (from the epoch on) to stable ones and back is lossless, and constructors, arithmetic and comparison agree with the standard types. Concurrent updates of an atomic duration or instant each take effect atomically, as on a single integer number of microseconds.",
["inputs","schedules"],"boundary and random durations; interleavings of atomic operations on 2-3 threads",
"There is no test of the time module.",
["stabby/src/time.rs"],[("Duration/Instant/SystemTime, AtomicDuration/AtomicInstant","stabby/src/time.rs")],None,["conversion results, atomic operation results"],HOOK)
p("G01","Temporarily viewing a value as another type writes back exactly once",
"Accessing a value through a temporary view of its standard (or stable) counterpart shows the current value, and whatever the view holds when it ends, normally or by panic, is what the original holds afterwards. Nothing is lost, duplicated or destroyed twice.",
["histories","fault_sequences"],"every nesting of views to depth 5, with and without modification and panic, over 44 pairs of types",
"No test uses views.",
[S+"as_mut.rs"],[("AccessAs guards",S+"as_mut.rs")],None,["value after the view ends, drop events"],None)
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for x in P:
        assert len(x["title"])<=80,x["title"]
        f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
