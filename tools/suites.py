"""What each property's check runs: specifications model-checked, harness suites, conformance specifications,
and what MANIFEST.json says about it."""
IMPL = [("ArcImpl", "ArcImpl.cfg")]
IMPL_T = IMPL + [("ArcImpl", "ArcImpl3.cfg"), ("ArcImpl", "ArcImplDeep.cfg")]
LIN = [("ArcLinMC", "ArcLinMC.cfg")]
CELL = [("ArcLinMC", "ArcLinCellMC.cfg")]
SCHED = ("The real code runs under a deterministic scheduler that preempts at every atomic operation (hook): all schedules up to 3 preemptions (2 with three threads) "
         "of generated small programs (capped per program), plus random schedules of longer ones and long sequential histories. Exhaustive for the model within its constants; bounded for the code. ")
def arc(s, spec="ArcLinTrace", mc=(), mct=(), note=""):
    return dict(suites=[dict(bin="arc", suite=s, spec=spec)], mc=list(mc), mc_thorough=list(mct) or list(mc),
                technique="TLA+ linearizability/ownership spec model-checked with TLC; TLC validates recorded concurrent histories of the real code",
                note=SCHED + note)
SUITES = {
    "A01": arc("A01", mc=LIN, mct=LIN + IMPL_T, note="Trusts the shims' fidelity to core::sync::atomic and the tracking allocator."),
    "A02": arc("A02", mc=IMPL, mct=LIN + IMPL_T),
    "A03": arc("A03", mc=IMPL, mct=LIN + IMPL_T, note="Known finding: is_unique reads its two counters separately; schedules preempting between these loads are excluded."),
    "A04": arc("A04", "HBTrace", mc=IMPL, mct=IMPL_T, note="Orderings are judged by vector clocks over the declared memory orderings (release sequences included, no out-of-thin-air/weak-load behaviours)."),
    "A05": arc("A05", mc=CELL, mct=CELL, note="Known finding: the load of the pointer and the increment of its count are separate; schedules preempting between the two are excluded."),
}
SUITES["A04"]["technique"] = "TLA+ happens-before (vector clock) spec; TLC validates recorded atomic-operation histories of the real code; TLC model-checks the algorithm with its orderings"

CONT = [("ContMC", "ContMC.cfg"), ("ContMC", "ContMCVec.cfg")]
CONT_T = CONT + [("ContMC", "ContMC3.cfg")]
def cont(p, note):
    SUITES[p] = dict(suites=[dict(bin="cont", suite=p, spec="ContTrace")], mc=CONT, mc_thorough=CONT_T,
                     technique="TLA+ specification of the containers model-checked with TLC (token conservation); TLC validates recorded histories of the real containers",
                     note=note)
cont("C01", "Every operation (and a sample of the pairs; all of them in the thorough tier) from every small vector, every short use of drains and iterators, random programs; seven element layouts, among which over-aligned, huge and zero-sized ones.")
cont("C02", "Random programs over all containers with panics injected in iterators, clones and destructors; after a panicking destructor the rest may leak but nothing may be destroyed twice.")
cont("C03", "Random programs of SingleOrVec, with and without refused allocations; an ordinary element and one with niches.")
cont("C04", "Every chain of up to four conversions (a quarter of them in the quick tier) from every small content, and random programs.")
cont("C05", "Every operation that allocates, from every small state, with each of its requests refused, then used again; random programs. AllocPtr growth is only exercised through the containers.")
for p in ("C03", "C04", "C05"):
    SUITES[p]["mc"] = CONT[1:]

SUITES["C06"] = dict(suites=[dict(bin="text", suite="C06", spec="TextTrace")], mc=[("TextMC", "TextMC.cfg")], mc_thorough=[("TextMC", "TextMC2.cfg")],
                     technique="TLA+ specification of texts with its own definition of UTF-8, model-checked with TLC; TLC validates recorded histories of the real strings",
                     note="Every sequence of up to two telling bytes and a third of the longer ones around the limits of UTF-8 (all of them in the thorough tier); every pair of sixteen texts in every form; random programs with refused allocations; vectors of five plain element types.")

SUITES["C07"] = dict(suites=[dict(bin="bridge", suite="C07", spec="CursorTrace")], mc=[("CursorMC", "CursorMC.cfg")], mc_thorough=[("CursorMC", "CursorMC.cfg"), ("CursorMC", "CursorMC6.cfg")],
                     technique="TLA+ specification of iterators as shrinking windows, model-checked with TLC against indexes of machine words; TLC validates recorded uses of the real iterators",
                     note="Twelve iterators over Vec, SingleOrVec, BoxedSlice and ArcSlice: every pair of steps and jumps over up to three elements, then random uses, abandoned at any point; jumps up to usize::MAX.")

SUM = dict(opt=0, technique="TLA+ model of the documented layout rules (sizes, forbidden values, unused bits, placement of the discriminant), model-checked with TLC over generated types; TLC recomputes every layout and every value's bytes recorded from the real type system",
           mc=[("LayoutMC", "LayoutMC.cfg")], mc_thorough=[("LayoutMC", "LayoutMC.cfg"), ("LayoutMC", "LayoutMC2.cfg")])
def sums(p, bins, kinds, note):
    SUITES[p] = dict(SUM, suites=[dict(bin="sum_" + b, suite=f"sum_{b}_{k}", spec="LayoutTrace") for b in bins for k in kinds], note=note)
TYPES = "Some 380 Rust types over 30 primitive layouts (results and options of nearly every pair of telling ones, nested ones, structs, unions, tuples, enums of each representation) with boundary values of their payloads; the types are compiled in, hence fixed, the model's are all those up to its depth."
sums("L01", "abcde", ["layout"], TYPES + " And the layouts alone of some 130 further types: core's, the library's own, and abi_stable's with that feature.")
SUITES["L01"]["suites"].append(dict(bin="foreign", suite="foreign_layout", spec="LayoutTrace"))
sums("S01", "abcd", ["values"], TYPES)
sums("S03", "abcde", ["mutate"], TYPES + " Mutation by assignment, replacement and swap, and accesses that end in a panic.")
MOVES = dict(technique="TLA+ specification of results, options and enums as owners of watched payloads, model-checked with TLC (conservation); TLC validates recorded histories of the real types",
             mc=[("SumsMC", "SumsMC.cfg")], mc_thorough=[("SumsMC", "SumsMC2.cfg")])
SUITES["S02"] = dict(MOVES, opt=0, suites=[dict(bin="sumop", suite="sumop", spec="SumsTrace")],
                     note="Every pair of operations on every fresh value, then random programs, for six pairs of payloads (with padding, with niches, neither); closures and clones that panic.")
SUITES["S04"] = dict(MOVES, opt=0, suites=[dict(bin="sumop", suite="sumop_enum", spec="SumsTrace"), dict(bin="sum_e", suite="sum_e_values", spec="LayoutTrace"), dict(bin="sum_e", suite="sum_e_mutate", spec="LayoutTrace")],
                     note="Enums of 3 and 5 variants with watched payloads under every pair of operations and random programs; enums of 1 to 12 variants of mixed layouts with boundary payloads.")

TREE = dict(technique="TLA+ specification of ordered sets as snapshots and of the copy-on-write tree that implements it, model-checked with TLC (refinement); TLC validates recorded histories of the real trees")
SUITES["B01"] = dict(TREE, suites=[dict(bin="btree", suite="B01", spec="BTreeTrace")], mc=[("BTreeImpl", "BTreeImplRep.cfg")], mc_thorough=[("BTreeImpl", "BTreeImpl.cfg"), ("BTreeImpl", "BTreeImplRep4.cfg")],
                     note="Every sequence of up to five insertions of five keys (a third of the longest; six in the thorough tier), sampled permutations and long histories of up to 300 (900) keys, for sets and maps that split at 3, 5, 7 and 9. Removal and iteration don't exist in the API.")
SUITES["B02"] = dict(TREE, suites=[dict(bin="btree", suite="B02", spec="BTreeTrace")], mc=[("BTreeImpl", "BTreeImpl3.cfg")], mc_thorough=[("BTreeImpl", "BTreeImpl3.cfg"), ("BTreeImpl", "BTreeImplDeep.cfg")],
                     note="Every insertion into either of two snapshots of every small tree, with and without panicking clones and comparisons; random histories over four snapshots. After a panicking clone, elements may leak.")
SUITES["B03"] = dict(suites=[dict(bin="btree_conc", suite="B03", spec="BTreeLinTrace"), dict(bin="btree_conc", suite="B03hb", spec="HBTrace")],
                     mc=[("BTreeLinMC", "BTreeLinMC.cfg")], mc_thorough=[("BTreeLinMC", "BTreeLinMC3.cfg")],
                     technique="TLA+ linearizability spec of atomic edits and happens-before spec, model-checked with TLC; TLC validates recorded concurrent histories of the real code",
                     note=SCHED.replace("up to 3 preemptions (2 with three threads)", "up to 2 preemptions") + "Known finding: reading the tree's address and taking a reference to it are separate; schedules preempting between the two are excluded.")

SUITES["V01"] = dict(suites=[dict(bin="btree_conc", suite="V01", spec="RegistryTrace")],
                     mc=[("RegistryMC", "RegistryMC.cfg")], mc_thorough=[("RegistryMC", "RegistryMC6.cfg")],
                     technique="TLA+ specification of the registry and of its find-or-insert loop, model-checked with TLC; TLC validates recorded concurrent histories of the real registries",
                     note=SCHED.replace("up to 3 preemptions (2 with three threads)", "up to 2 preemptions") + "Registries of both kinds (tree and vector) through VTableRegistry; the static that IConstConstructor uses is such a tree. The known findings of A05 and B03 are excluded here too.")

DYN = dict(technique="TLA+ specification of trait objects and of vtables as nested nodes, model-checked with TLC (refinement); TLC validates recorded histories of the real trait objects",
           mc=[("DynObjMC", "DynObjMC.cfg")], mc_thorough=[("DynObjMC", "DynObjMC.cfg"), ("DynObjMC", "DynObjMC2.cfg")])
OBJECTS = "Fourteen types (same layouts, same names in other modules, other versions, generic arguments, no state, niches) behind owning, shared, weak, mutable and shared pointers and twenty sets of traits (generic, with associated types, default methods, checked traits, Send and Sync in every place); "
SUITES["V02"] = dict(DYN, suites=[dict(bin="dynobj", suite="V02", spec="DynObjTrace")],
                     note=OBJECTS + "every method through every pointer, then random programs over several handles. Types and traits are compiled in, hence fixed.")
SUITES["V03"] = dict(DYN, suites=[dict(bin="dynobj", suite="V03", spec="DynObjTrace")],
                     note=OBJECTS + "every pair (made from, downcast to) by each kind of downcast, then random programs.")

SUITES["N01"] = dict(suites=[dict(bin="nums", suite="N01", spec="NumsTrace")], mc=[("NumsMC", "NumsMC.cfg")], mc_thorough=[("NumsMC", "NumsMC.cfg"), ("NumsMC", "NumsMC7.cfg")],
                     technique="TLA+ specification of restricted integers as numbers in a range, model-checked with TLC against their representation in masked words; TLC validates recorded results of the real types",
                     note="All 240 masked types (u1..u127, i1..i127) and the non-special types of every base with telling exclusions: all values of 8-bit bases and, over the operations of one value, 16-bit ones; edges and random values of wider ones. The model is exhaustive for bases of 6 bits (7 in the thorough tier).")
SUITES["T01"] = dict(suites=[dict(bin="nums", suite="T01", spec="TimeTrace"), dict(bin="nums", suite="T01c", spec="TimeTrace")], mc=[("TimeMC", "TimeMC.cfg")], mc_thorough=[("TimeMC", "TimeMC.cfg"), ("TimeMC", "TimeMC2.cfg")],
                     technique="TLA+ specification of times as whole numbers of nanoseconds and of a linearizable register of microseconds, model-checked with TLC; TLC validates recorded results and concurrent histories of the real types",
                     note="Edge and random seconds and nanoseconds through every constructor, conversion, sum and comparison; schedules of up to two preemptions (400 per program) of atomic operations. Trusts the standard library's own times. Binary floating point is covered for multiples of 1/512 s and round trips below 2^20 s.")

SUITES["M01"] = dict(suites=[dict(bin="mem", suite="M01c", spec="MemTrace"), dict(bin="mem", suite="M01a", spec="MemTrace")], mc=[("MemMC", "MemMC.cfg")], mc_thorough=[("MemMC", "MemMC.cfg"), ("MemMC", "MemMC5.cfg")],
                     technique="TLA+ specification of blocks of memory and the areas in them, model-checked with TLC against the containers' way of laying blocks out; TLC validates recorded requests, resizes and frees of the real containers and allocators",
                     note="Random programs over every kind of container with 14 element sizes and alignments (1 to 128, and none) and four recording allocators that give exactly what is requested, with refused requests; random requests, resizes and frees (alignments 1 to 256, sizes 0 to usize::MAX) to RustAlloc and LibcAlloc, directly and as trait objects, over a memory layer that checks them and refuses some. Resizing and freeing across binaries isn't exercised.")

SUITES["R01"] = dict(suites=[dict(bin="link", suite="R01", spec="ReportsTrace")], mc=[("ReportsMC", "ReportsMC.cfg")], mc_thorough=[("ReportsMC", "ReportsMC.cfg"), ("ReportsMC", "ReportsMC2.cfg")],
                     technique="TLA+ specification of descriptions as trees and of their identifiers, model-checked with TLC against the comparison that walks lists of fields; TLC validates recorded comparisons, identifiers and declarations of the real descriptions",
                     note="Random trees (to depth 3, of few words, so that they often agree) against copies that differ in none to two respects at any depth; 27 declared types of every kind against what they must say; 160 types against each other. Known finding: identifiers are made without separators and versions.")
SUITES["R02"] = dict(suites=[dict(bin="link", suite="R02", spec="ImportsTrace"), dict(bin="link", suite="R02c", spec="ImportsTrace"), dict(bin="link", suite="R02h", spec="HBTrace")],
                     mc=[("ImportsMC", "ImportsMC.cfg")], mc_thorough=[("ImportsMC", "ImportsMC.cfg"), ("ImportsMC", "ImportsMC3.cfg")],
                     technique="TLA+ specification of imports that are given once they are checked, and happens-before specification, model-checked with TLC; TLC validates recorded calls and concurrent histories of the real imports",
                     note=SCHED + "Up to 700 schedules per program, preempting after publications too; imports of matching and differing functions that the same program exports, with and without canaries.")
SUITES["R03"] = dict(suites=[dict(bin="link", suite="R03", spec="LibraryTrace")], mc=[("LibraryMC", "LibraryMC.cfg")], mc_thorough=[("LibraryMC", "LibraryMC.cfg"), ("LibraryMC", "LibraryMC3.cfg")],
                     technique="TLA+ specification of looking up functions by signature and by the build's parameters, model-checked with TLC; TLC validates recorded lookups in real loaded libraries",
                     note="Every one of 20 exported signatures looked up as every other; canaries in the peer and in compiled stand-ins that lack or alter each of them.")

SUITES["F01"] = dict(suites=[dict(bin="bridge", suite="F01", spec="WakersTrace"), dict(bin="bridge", suite="F01c", spec="WakersTrace")], mc=[("WakersMC", "WakersMC.cfg")], mc_thorough=[("WakersMC", "WakersMC.cfg"), ("WakersMC", "WakersMC3.cfg")],
                     technique="TLA+ specification of wakers as handles to tasks, model-checked with TLC against the boundary's borrowed wakers and counted blocks; TLC validates recorded histories of the real wakers, sequential and concurrent",
                     note="Random histories of clones, wakes, comparisons and drops of up to 5 handles to 2 tasks, inside and outside of polls, through boxed, unsendable, borrowed and doubly wrapped futures and through bare stable wakers with two allocators; schedules of up to two preemptions (300 per program) of 2 or 3 threads whose handles share one block. Freed memory is kept and poisoned.")
SUITES["F02"] = dict(suites=[dict(bin="bridge", suite="F02", spec="FuturesTrace")], mc=[("FuturesMC", "FuturesMC.cfg")], mc_thorough=[("FuturesMC", "FuturesMC.cfg"), ("FuturesMC", "FuturesMC2.cfg")],
                     technique="TLA+ specification of futures and of what may be in a maybe resolved one, model-checked with TLC against tagged payloads matched on mutably; TLC validates recorded polls, moves and drops of the real futures",
                     note="Nine output types (with niches, unused bits, tokens, indirections, no size) from six layouts of futures through seven kinds of owning and borrowed objects, async functions (nested too), and in maybe resolved futures; every kind with 0 to 3 pending polls, then random programs over up to 3 of them, with panicking polls in maybe resolved futures.")
SUITES["K01"] = dict(suites=[dict(bin="bridge", suite="K01", spec="CallsTrace")], mc=[("CallsMC", "CallsMC.cfg")], mc_thorough=[("CallsMC", "CallsMC.cfg"), ("CallsMC", "CallsMC3.cfg")],
                     technique="TLA+ specification of closures and iterators with their state and what they own, model-checked with TLC against objects made of an address and a table; TLC validates recorded calls of the real objects",
                     note="Closures of 0 to 9 arguments of nine types (tokens, niches, references, pairs), returning five types, as Fn, FnMut and FnOnce through boxed, shared and borrowed objects and borrows of those; iterators over nine item types, boxed and borrowed, with four kinds of size hints. Closures that panic across the boundary abort, hence aren't called.")
SUITES["G01"] = dict(suites=[dict(bin="bridge", suite="G01", spec="ViewsTrace")], mc=[("ViewsMC", "ViewsMC.cfg")], mc_thorough=[("ViewsMC", "ViewsMC.cfg"), ("ViewsMC", "ViewsMC4.cfg")],
                     technique="TLA+ specification of one value seen through nested views, model-checked with TLC against copies of bits that are written back; TLC validates recorded histories of the real guards",
                     note="Nested views (to depth 5) of 22 pairs of types, in both directions, with reads, overwrites, swaps, growth and panics at any depth; shared views only of pairs whose conversion keeps the representation.")
SUITES["D01"] = dict(suites=[dict(bin="serial", suite="D01", spec="SerialTrace")], mc=[("SerialMC", "SerialMC.cfg")], mc_thorough=[("SerialMC", "SerialMC.cfg"), ("SerialMC", "SerialMC7.cfg")],
                     technique="TLA+ specification of what values are written as and read from, model-checked with TLC against reading element by element; TLC recomputes what the real implementations write and read",
                     note="Generated sources of 53 types, right and wrong in one place or several, through a serializer and a deserializer of the harness's own; what a type could be read from beyond its standard counterpart's own sources isn't looked at.")
SUITES["X01"] = dict(probes=True, suites=[dict(bin="threads", suite="X01", spec="ThreadsTrace")], mc=[("ThreadsMC", "ThreadsMC.cfg"), ("LivesMC", "LivesMC.cfg")], mc_thorough=[("ThreadsMC", "ThreadsMC.cfg"), ("ThreadsMC", "ThreadsMC7.cfg"), ("LivesMC", "LivesMC.cfg")],
                     technique="TLA+ specification of which handles may cross threads and which lifetimes may be coerced, shown exact with TLC against what safe code can do with them; TLC recomputes what the real types allow (Send and Sync as the compiler resolves them, probes of lifetimes as it accepts them)",
                     note="Some 60 generic types and 13 vtables with four kinds of payloads and allocators; some 150 probes of lifetimes, of which only unsound acceptance counts.")
SUITES["U01"] = dict(opt=0, suites=[dict(bin="types", suite="U01", spec="BitsTrace")], mc=[("BitsMC", "BitsMC.cfg")], mc_thorough=[("BitsMC", "BitsMC.cfg"), ("BitsMC", "BitsMC7.cfg")],
                     technique="TLA+ specification of type-level arithmetic over integers, model-checked with TLC against the recursions over digits; TLC recomputes what the real types compute",
                     note="Arithmetic on generated pairs of numbers, masks and sets of forbidden values; the rules for all pairs of numbers of up to 5 digits (7 in the thorough tier). Masks that are combined with or are disjoint, as fields are; U0's array is aligned as (), not as its element.")
