------------------------------- MODULE Text ---------------------------------
(* Texts and the bytes they are made of: String, BoxedStr, ArcStr, WeakStr,   *)
(* Str and StrMut views, and the vectors of bytes they convert to and from.   *)
(* A text is the sequence of its bytes; UTF-8 is defined here.                *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANT NS
Take(s, n) == SubSeq(s, 1, IF n > Len(s) THEN Len(s) ELSE n)
In(x, lo, hi) == lo <= x /\ x <= hi
(* -------- UTF-8 (Unicode 15, table 3-7) -------- *)
At(b, i) == IF i <= Len(b) THEN b[i] ELSE 0
Cont(b, i) == In(At(b, i), 128, 191)
(* the length of the well-formed sequence that starts at i, 0 if there's none *)
SeqLen(b, i) ==
  LET x == At(b, i)
      y == At(b, i + 1)
  IN CASE x <= 127 -> 1
       [] In(x, 194, 223) /\ Cont(b, i + 1) -> 2
       [] x = 224 /\ In(y, 160, 191) /\ Cont(b, i + 2) -> 3
       [] (In(x, 225, 236) \/ In(x, 238, 239)) /\ Cont(b, i + 1) /\ Cont(b, i + 2) -> 3
       [] x = 237 /\ In(y, 128, 159) /\ Cont(b, i + 2) -> 3
       [] x = 240 /\ In(y, 144, 191) /\ Cont(b, i + 2) /\ Cont(b, i + 3) -> 4
       [] In(x, 241, 243) /\ Cont(b, i + 1) /\ Cont(b, i + 2) /\ Cont(b, i + 3) -> 4
       [] x = 244 /\ In(y, 128, 143) /\ Cont(b, i + 2) /\ Cont(b, i + 3) -> 4
       [] OTHER -> 0
RECURSIVE UpTo(_, _)
UpTo(b, i) == IF i > Len(b) \/ SeqLen(b, i) = 0 THEN i - 1 ELSE UpTo(b, i + SeqLen(b, i))
ValidUpTo(b) == UpTo(b, 1)
Utf8(b) == ValidUpTo(b) = Len(b)
(* character boundaries *)
RECURSIVE BoundsFrom(_, _)
BoundsFrom(b, i) == {i - 1} \cup (IF i > Len(b) \/ SeqLen(b, i) = 0 THEN {} ELSE BoundsFrom(b, i + SeqLen(b, i)))
RECURSIVE Cmp(_, _)
Cmp(a, b) == IF a = << >> THEN (IF b = << >> THEN 1 ELSE 0)
             ELSE IF b = << >> THEN 2
             ELSE IF a[1] < b[1] THEN 0 ELSE IF a[1] > b[1] THEN 2 ELSE Cmp(Tail(a), Tail(b))
Upper(b) == [i \in DOMAIN b |-> IF In(b[i], 97, 122) THEN b[i] - 32 ELSE b[i]]
(* -------- states -------- *)
None == [k |-> "none", b |-> << >>, o |-> 0]
Slot(k, b) == [k |-> k, b |-> b, o |-> 0]
Init0 == [sl |-> [i \in 1..NS |-> None], ob |-> << >>, err |-> ""]
Owned == {"vec", "str", "bstr"}
Content(st, a) == IF a.k = "astr" THEN st.ob[a.o].b ELSE a.b
Texts == {"str", "bstr", "astr"}
Panic == << -1 >>
Out(st, r) == [sl |-> st.sl, ob |-> st.ob, r |-> r]
Put(o, i, a) == [o EXCEPT !.sl[i] = a]
Unique(st, a) == st.ob[a.o].sc = 1 /\ st.ob[a.o].wc = 0
DropOf(st, i, r) == LET a == st.sl[i]
                        o == Put(Out(st, r), i, None)
                    IN CASE a.k = "astr" -> [o EXCEPT !.ob[a.o].sc = @ - 1]
                         [] a.k = "wstr" -> [o EXCEPT !.ob[a.o].wc = @ - 1]
                         [] OTHER -> o
Do(st, ev) ==
  LET i == ev.s
      j == ev.t
      a == IF i = 0 THEN None ELSE st.sl[i]
      x == ev.a
      k == ev.k
      fail == ev.f = 1
      Or(cond, s) == IF cond THEN s ELSE {}
      Same(r) == {Out(st, r)}
      Becomes(b) == {Put(Out(st, << 0 >>), i, b)}
  IN CASE
     k = "new" -> Becomes(Slot(ev.kind, << >>))
  [] k = "from" -> Becomes(Slot(ev.kind, x)) \cup Or(fail, Same(Panic))
  [] k = "push" -> Becomes([a EXCEPT !.b = Append(@, x[1])]) \cup Or(fail, Same(Panic))
  [] k = "pop" -> IF a.b = << >> THEN Same(<< 0 >>) ELSE {Put(Out(st, << 1, a.b[Len(a.b)] >>), i, [a EXCEPT !.b = Take(@, Len(@) - 1)])}
  [] k = "truncate" -> Becomes([a EXCEPT !.b = Take(@, x[1])])
  [] k = "concat" -> (* appends; ev.how: "try" reports a failure, "op" panics, "add" consumes *)
       Becomes([a EXCEPT !.b = @ \o x]) \cup
       Or(fail, IF ev.how = "try" THEN Same(<< 2 >>) ELSE IF ev.how = "op" THEN Same(Panic) ELSE {DropOf(st, i, Panic)})
  [] k = "write" -> (* io::Write *)
       {Put(Out(st, << 1, Len(x) >>), i, [a EXCEPT !.b = @ \o x])} \cup Or(fail, Same(<< 2 >>))
  [] k = "tobytes" -> Becomes(Slot("vec", a.b))
  [] k = "frombytes" -> IF Utf8(a.b) THEN Becomes(Slot("str", a.b)) ELSE {Put(Out(st, << 2, ValidUpTo(a.b) >>), i, None)}
  [] k = "tobox" -> Becomes(Slot("bstr", a.b))
  [] k = "tostr" /\ a.k = "bstr" -> Becomes(Slot("str", a.b))
  [] k = "toarc" -> {[Put(Out(st, << 0 >>), i, [None EXCEPT !.k = "astr", !.o = Len(st.ob) + 1]) EXCEPT !.ob = Append(@, [b |-> a.b, sc |-> 1, wc |-> 0])]}
                    \cup Or(fail, {DropOf(st, i, Panic)})
  [] k = "tostr" /\ a.k = "astr" -> IF ~Unique(st, a) THEN Same(<< 2 >>)
                                    ELSE {[Put(Out(st, << 0 >>), i, Slot("str", st.ob[a.o].b)) EXCEPT !.ob[a.o].sc = 0]}
  [] k = "clone" /\ a.k \in {"str", "vec"} -> {Put(Out(st, << 0 >>), j, a)} \cup Or(fail, Same(Panic))
  [] k = "clone" /\ a.k = "astr" -> {[Put(Out(st, << 0 >>), j, a) EXCEPT !.ob[a.o].sc = @ + 1]}
  [] k = "clone" /\ a.k = "wstr" -> {[Put(Out(st, << 0 >>), j, a) EXCEPT !.ob[a.o].wc = @ + 1]}
  [] k = "downgrade" -> {[Put(Out(st, << 0 >>), j, [a EXCEPT !.k = "wstr"]) EXCEPT !.ob[a.o].wc = @ + 1]}
  [] k = "upgrade" -> IF st.ob[a.o].sc = 0 THEN Same(<< 0 >>) ELSE {[Put(Out(st, << 1 >>), j, [a EXCEPT !.k = "astr"]) EXCEPT !.ob[a.o].sc = @ + 1]}
  [] k = "unique" -> Same(<< IF Unique(st, a) THEN 1 ELSE 0 >>)
  [] k = "upper" -> IF a.k # "astr" THEN Becomes([a EXCEPT !.b = Upper(@)])
                    ELSE IF Unique(st, a) THEN {[Out(st, << 0 >>) EXCEPT !.ob[a.o].b = Upper(@)]} ELSE Same(<< 2 >>)
  [] k = "cmp" -> LET c == Cmp(Content(st, a), Content(st, st.sl[j])) IN Same(<< IF c = 1 THEN 1 ELSE 0, c >>)
  [] k = "view" -> (* through Str, StrMut, Slice or SliceMut, a formatter or a std string, per ev.how *)
       Same(IF ev.how = "debug" THEN << 34 >> \o Content(st, a) \o << 34 >> ELSE Content(st, a))
  [] k = "sub" -> (* indexing by a range of bytes *)
       LET b == Content(st, a) IN IF x[1] <= x[2] /\ x[1] \in BoundsFrom(b, 1) /\ x[2] \in BoundsFrom(b, 1) THEN Same(<< 1 >> \o SubSeq(b, x[1] + 1, x[2])) ELSE Same(Panic)
  [] k = "drop" -> {DropOf(st, i, << 0 >>)}
  [] OTHER -> {}
KindCode == [none |-> 0, vec |-> 1, str |-> 2, bstr |-> 3, astr |-> 4, wstr |-> 5]
Proj(st, a) == << KindCode[a.k] >> \o (IF a.k \in {"none", "wstr"} THEN << >> ELSE Content(st, a))
Sees(st, w) == \A i \in 1..NS : w[i] = Proj(st, st.sl[i])
Apply(st, o) == [st EXCEPT !.sl = o.sl, !.ob = o.ob]
Step(st, ev) ==
  IF ev.bad # << >> THEN [st EXCEPT !.err = ev.bad[1]]
  ELSE IF ev.k = "end" THEN IF ev.nb # 0 THEN [st EXCEPT !.err = "memory leaked"] ELSE st
  ELSE LET os == Do(st, ev)
           good == {o \in os : ev.r = o.r /\ Sees(Apply(st, o), ev.w)}
       IN IF good # {} THEN Apply(st, CHOOSE o \in good : TRUE)
          ELSE [st EXCEPT !.err = IF os = {} THEN "unknown event" ELSE IF \A o \in os : ev.r # o.r THEN "unexpected result" ELSE "unexpected content"]
=============================================================================
