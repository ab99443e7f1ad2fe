-------------------------------- MODULE Mem ---------------------------------
(* Memory: blocks of bytes handed out by allocators, resized and given back;      *)
(* the areas of a block in which containers keep their bookkeeping and elements.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Large == 16777216               \* requests above this may be refused at any time
(* blocks: block -> [size, align, inst, base (address modulo 4096), keep]; keep is *)
(* how many of its bytes hold what was last written by whoever holds the block.    *)
Init0 == [blocks |-> << >>, err |-> ""]
Fail(st, m) == [st EXCEPT !.err = m]
Live(st, b) == b \in DOMAIN st.blocks
Put(f, b, v) == [x \in DOMAIN f \cup {b} |-> IF x = b THEN v ELSE f[x]]
Del(f, b) == [x \in DOMAIN f \ {b} |-> f[x]]
Min(a, b) == IF a < b THEN a ELSE b
Pow2(a) == \E k \in 0..24 : a = 2 ^ k
Over(e) == IF "over" \in DOMAIN e THEN e.over = 1 ELSE FALSE
(* What a new block must be: not overlapping others, aligned, kept by its allocator. *)
Fresh(st, b, size, align, e) == b \notin DOMAIN st.blocks /\ e.base % Min(align, 4096) = 0 /\ ~Over(e) /\ size > 0
New(size, align, keep, e) == [size |-> size, align |-> align, inst |-> e.inst, base |-> e.base, keep |-> keep]
Step(st, e) ==
  CASE e.k = "req" ->
         IF ~Pow2(e.align) THEN Fail(st, "an alignment that isn't a power of two")
         ELSE IF e.b = 0 THEN IF e.size = 0 \/ e.size > Large \/ e.inj = 1 THEN st ELSE Fail(st, "a small request was refused")
         ELSE IF ~Fresh(st, e.b, e.size, e.align, e) THEN Fail(st, "the block obtained")
         ELSE [st EXCEPT !.blocks = Put(@, e.b, New(e.size, e.align, e.size, e))]
    (* a block is resized as what it is, by its allocator; it keeps what it held *)
    [] e.k = "resize" ->
         IF ~Live(st, e.b) \/ e.off # 0 THEN Fail(st, "resized something that isn't a block")
         ELSE LET o == st.blocks[e.b] IN
           IF o.size # e.psize \/ o.align # e.palign \/ o.inst # e.inst THEN Fail(st, "a block was resized as another")
           ELSE IF e.n = 0 THEN IF e.size = 0 \/ e.size > Large \/ e.inj = 1 THEN st ELSE Fail(st, "a small request was refused")
           ELSE IF ~Fresh(st, e.n, e.size, o.align, e) THEN Fail(st, "the resized block")
           ELSE [st EXCEPT !.blocks = Put(Del(@, e.b), e.n, New(e.size, o.align, Min(o.keep, e.size), e))]
    [] e.k = "free" ->
         IF ~Live(st, e.b) \/ e.off # 0 THEN Fail(st, "freed something that isn't a block")
         ELSE IF st.blocks[e.b].inst # e.inst THEN Fail(st, "freed by another allocator")
         ELSE [st EXCEPT !.blocks = Del(@, e.b)]
    [] e.k = "filled" -> [st EXCEPT !.blocks[e.b].keep = st.blocks[e.b].size]
    (* how many leading bytes are still those written *)
    [] e.k = "kept" -> IF Live(st, e.b) /\ e.n >= st.blocks[e.b].keep THEN st ELSE Fail(st, "bytes were lost")
    (* n elements of esize bytes at offset off, right after the bookkeeping *)
    [] e.k = "area" ->
         IF ~Live(st, e.b) THEN Fail(st, "elements outside any block")
         ELSE LET o == st.blocks[e.b] IN
           IF e.content = 0 THEN Fail(st, "elements changed")
           ELSE IF e.off < e.prefix \/ e.n > o.size \div e.esize \/ e.off + e.esize * e.n > o.size THEN Fail(st, "the block is too small")
           ELSE IF (o.base + e.off) % e.ealign # 0 THEN Fail(st, "misaligned elements")
           ELSE IF e.prefix > 0 /\ (o.base + e.off - e.prefix) % e.palign # 0 THEN Fail(st, "misaligned bookkeeping")
           ELSE st
    [] e.k = "empty" -> IF e.content = 1 /\ e.aligned = 1 THEN st ELSE Fail(st, "elements without memory")
    (* an allocator built on another holds there one block for each of its own *)
    [] e.k = "under" -> IF e.bad = 0 /\ e.live = Cardinality(DOMAIN st.blocks) THEN st ELSE Fail(st, "memory below the allocator")
    [] e.k = "end" -> IF DOMAIN st.blocks = {} THEN st ELSE Fail(st, "memory was leaked")
    [] OTHER -> Fail(st, "unknown event")
=============================================================================
