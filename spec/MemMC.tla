------------------------------- MODULE MemMC --------------------------------
(* The way containers lay blocks out (bookkeeping, then elements, the whole at    *)
(* the larger alignment of the two), and an allocator that puts a prefix of its   *)
(* own before each block of the one below, against Mem: for every size and        *)
(* alignment of elements and of bookkeeping and every placement of the blocks.    *)
EXTENDS Mem
CONSTANTS Mistake, Aligns, Elems, Prefixes, Caps, Addrs, MaxOps
VARIABLES ea, es, pa, ps, blk, cap, st, n, next
vars == <<ea, es, pa, ps, blk, cap, st, n, next>>
Up(x, a) == ((x + a - 1) \div a) * a
MaxI(a, b) == IF a > b THEN a ELSE b
(* layout of a block for c elements *)
Align == IF Mistake = "align" THEN pa ELSE MaxI(ea, pa)
Size(c) == IF Mistake = "pad" THEN ps + c * es ELSE Up(ps + c * es, Align)
(* where the elements are in a block at some address: right after the bookkeeping, realigned *)
Off(base) == Up(base + ps, ea) - base
Area(b, base, c) == [k |-> "area", b |-> b, off |-> Off(base), esize |-> es, ealign |-> ea, n |-> c, prefix |-> ps, palign |-> pa, content |-> 1]
Bases == {a \in Addrs : a % Align = 0}
Init == /\ ea \in Aligns /\ pa \in Aligns
        /\ es \in {k * ea : k \in Elems} /\ ps \in {k * pa : k \in Prefixes}
        /\ blk = 0 /\ cap = 0 /\ st = Init0 /\ n = 0 /\ next = 1
Alloc == /\ blk = 0 /\ \E c \in Caps, base \in Bases :
           LET s1 == Step(st, [k |-> "req", b |-> next, size |-> Size(c), align |-> Align, base |-> base, inst |-> 0, inj |-> 0]) IN
             /\ cap' = c /\ blk' = next /\ next' = next + 1
             /\ st' = IF s1.err # "" THEN s1 ELSE Step(s1, Area(next, base, c))
Resize == /\ blk # 0 /\ \E c \in Caps, base \in Bases :
           LET s1 == Step(st, [k |-> "resize", b |-> blk, off |-> 0, psize |-> Size(IF Mistake = "prev" THEN c ELSE cap), palign |-> Align, n |-> next, size |-> Size(c), base |-> base, inst |-> 0, inj |-> 0]) IN
             /\ cap' = c /\ blk' = next /\ next' = next + 1
             /\ st' = IF s1.err # "" THEN s1 ELSE Step(s1, Area(next, base, c))
Free == /\ blk # 0 /\ blk' = 0 /\ cap' = 0 /\ next' = next
        /\ st' = Step(st, [k |-> "free", b |-> blk, off |-> IF Mistake = "free" THEN Off(st.blocks[blk].base) - ps ELSE 0, inst |-> 0])
End == /\ blk = 0 /\ st' = Step(st, [k |-> "end"]) /\ UNCHANGED <<blk, cap, next>>
Next == st.err = "" /\ n < MaxOps /\ n' = n + 1 /\ (Alloc \/ Resize \/ Free \/ End) /\ UNCHANGED <<ea, es, pa, ps>>
Conforms == st.err = ""
=============================================================================
