------------------------------- MODULE Layout -------------------------------
(* The documented layout algorithm of stable types, and the sum types built on it.

   A type is an expression:
     <<"p", n, a>>      n bytes, all of them significant, aligned to a
     <<"nz", n, a>>     the same, but not all of them zero
     <<"rng", lo, hi>>  one byte, not in lo..hi
     <<"st", fs>>       a struct with these fields, in order
     <<"al", a, fs>>    the same, aligned to at least a
     <<"arr", n, t>>    an array
     <<"mu", t>>        t, or anything else of its size
     <<"uc", t>>        t, which may be written through shared references
     <<"un", ts>>       a union
     <<"tag", n, ts>>   an enum with an explicit tag of n bytes, in the C layout
     <<"res", a, b>>, <<"opt", a>>, <<"en", ts>>   packed results, options and enums

   Ann(t) is t's layout: size, alignment, the values it can't take (fv), the bits it doesn't use (ub), and what is
   needed to encode and decode it. A logical value is a sequence: the bytes of a plain type, the fields' values of a
   struct or array, <<k, payload>> for a sum. Enc gives, per byte, the bits that are determined (value, mask). *)
EXTENDS Naturals, Sequences, Bitwise, TLC
Max(a, b) == IF a >= b THEN a ELSE b
Next2(n, a) == IF n % a = 0 THEN n ELSE n + (a - (n % a))
Tail1(s) == SubSeq(s, 2, Len(s))
---------------------------------------------------------------------------
(* Unused bits: a list of <<byte offset, mask>>, in the order in which they get used. *)
Pad(n) == [k \in 1..n |-> <<k - 1, 255>>]
UbShift(u, d) == [k \in 1..Len(u) |-> <<u[k][1] + d, u[k][2]>>]
At(u, o) == LET s == SelectSeq(u, LAMBDA e : e[1] = o) IN IF s = <<>> THEN 0 ELSE s[1][2]
FreeAt(u, o) == \E k \in 1..Len(u) : u[k] = <<o, 255>>
UbAnd(u, m) == SelectSeq([k \in 1..Len(u) |-> <<u[k][1], u[k][2] & At(m, u[k][1])>>], LAMBDA e : e[2] # 0)
LowBit(m) == CHOOSE b \in {1, 2, 4, 8, 16, 32, 64, 128} : (m & b) # 0 /\ \A c \in {1, 2, 4, 8, 16, 32, 64, 128} : c < b => (m & c) = 0
Extract(u) == LET r == u[1][2] - LowBit(u[1][2]) IN IF r > 0 THEN <<<<u[1][1], r>>>> \o Tail1(u) ELSE Tail1(u)
(* As a mask per byte. *)
RECURSIVE OrAt(_, _)
OrAt(u, o) == IF u = <<>> THEN 0 ELSE (IF u[1][1] = o THEN u[1][2] ELSE 0) | OrAt(Tail1(u), o)
UbBytes(u, n) == [k \in 1..n |-> OrAt(u, k - 1)]
---------------------------------------------------------------------------
(* Forbidden values. *)
End == <<"end">>
RECURSIVE FvShift(_, _)
FvShift(f, d) == CASE f[1] = "end" -> f
                   [] f[1] = "arr" -> <<"arr", UbShift(f[2], d)>>
                   [] f[1] = "rng" -> <<"rng", f[2], f[3], f[4] + d>>
                   [] f[1] = "or" -> <<"or", FvShift(f[2], d), FvShift(f[3], d)>>
RECURSIVE SelectOne(_)
SelectOne(f) == CASE f[1] = "end" -> <<>>
                  [] f[1] = "arr" -> f[2]
                  [] f[1] = "rng" -> <<<<f[4], f[2]>>>>
                  [] f[1] = "or" -> SelectOne(f[2])
RECURSIVE SelectFrom(_, _)
SelectFrom(f, m) == CASE f[1] = "end" -> <<>>
                      [] f[1] = "arr" -> IF \A k \in 1..Len(f[2]) : FreeAt(m, f[2][k][1]) THEN f[2] ELSE <<>>
                      [] f[1] = "rng" -> IF FreeAt(m, f[4]) THEN <<<<f[4], f[2]>>>> ELSE <<>>
                      [] f[1] = "or" -> LET a == SelectFrom(f[2], m) IN IF a # <<>> THEN a ELSE SelectFrom(f[3], m)
RECURSIVE Invalid(_, _)
Invalid(f, b) == CASE f[1] = "end" -> FALSE
                   [] f[1] = "arr" -> \A k \in 1..Len(f[2]) : b[f[2][k][1] + 1] = f[2][k][2]
                   [] f[1] = "rng" -> b[f[4] + 1] >= f[2] /\ b[f[4] + 1] <= f[3]
                   [] f[1] = "or" -> Invalid(f[2], b) \/ Invalid(f[3], b)
---------------------------------------------------------------------------
(* Where a result keeps which variant it is in: sh, the offset of the smaller payload; the forbidden value of one that
   can be written into the other's spare bytes; a bit that neither uses; a tag. *)
Unit(f, u) == IF f # <<>> THEN [sh |-> 0, det |-> <<"val", f>>, ub |-> u]
              ELSE IF u # <<>> THEN [sh |-> 0, det |-> <<"bit", u[1][1], LowBit(u[1][2])>>, ub |-> Extract(u)]
              ELSE [sh |-> 0, det |-> <<"tag">>, ub |-> <<>>]
RECURSIVE Search(_, _, _, _, _)
Search(us, okub, a, b, off) ==
    LET errub == Pad(off) \o UbShift(b.ub, off) \o UbShift(Pad(us - (b.size + off)), b.size + off)
        ein == SelectFrom(FvShift(b.fv, off), okub)
        oin == SelectFrom(a.fv, errub)
        both == UbAnd(okub, errub)
    IN IF off \div b.align >= 8 THEN Unit(<<>>, <<>>)
       ELSE IF ein # <<>> THEN [sh |-> off, det |-> <<"nval", ein>>, ub |-> both]
       ELSE IF oin # <<>> THEN [sh |-> off, det |-> <<"val", oin>>, ub |-> both]
       ELSE IF both # <<>> THEN [sh |-> off, det |-> <<"bit", both[1][1], LowBit(both[1][2])>>, ub |-> Extract(both)]
       ELSE IF b.size + b.align + off <= us THEN Search(us, okub, a, b, off + b.align)
       ELSE Unit(<<>>, <<>>)
Inner(a, b) ==
    IF b.size = 0 THEN Unit(SelectOne(a.fv), a.ub)
    ELSE LET us == Next2(Max(a.size, b.size), Max(a.align, b.align)) IN Search(us, a.ub \o UbShift(Pad(us - a.size), a.size), a, b, 0)

Seq2(a, b) ==  \* b after a
    LET off == Next2(a.size, b.align) IN
    [size |-> off + b.size, align |-> Max(a.align, b.align), fv |-> <<"or", a.fv, FvShift(b.fv, off)>>,
     ub |-> a.ub \o UbShift(Pad(off - a.size), a.size) \o UbShift(b.ub, off), off |-> off]
RECURSIVE SeqAll(_, _, _)
SeqAll(acc, offs, ch) == IF ch = <<>> THEN [l |-> acc, offs |-> offs]
                         ELSE LET n == Seq2(acc, ch[1]) IN SeqAll([size |-> n.size, align |-> n.align, fv |-> n.fv, ub |-> n.ub], Append(offs, n.off), Tail1(ch))
Lay(a) == [size |-> a.size, align |-> a.align, fv |-> a.fv, ub |-> a.ub]
MkStruct(ch, al) ==
    IF ch = <<>> THEN [k |-> "st", size |-> 0, align |-> al, fv |-> End, ub |-> <<>>, ch |-> <<>>, offs |-> <<>>]
    ELSE LET s == SeqAll(Lay(ch[1]), <<0>>, Tail1(ch)) IN
         [k |-> "st", size |-> Next2(s.l.size, Max(al, s.l.align)), align |-> Max(al, s.l.align), fv |-> s.l.fv,
          ub |-> s.l.ub \o UbShift(Pad(Next2(s.l.size, s.l.align) - s.l.size), s.l.size), ch |-> ch, offs |-> s.offs]
MkRes(a, b) ==
    LET swap == a.size < b.size
        i == IF swap THEN Inner(b, a) ELSE Inner(a, b)
        al == Max(a.align, b.align)
        ds == IF i.det[1] = "tag" THEN al ELSE 0
        tagub == IF i.det[1] = "tag" THEN <<<<0, 254>>>> \o UbShift(Pad(al - 1), 1) ELSE <<>>
    IN [k |-> "res", size |-> ds + Next2(Max(a.size, b.size), al), align |-> al, fv |-> End, ub |-> tagub \o UbShift(i.ub, ds),
        ch |-> <<a, b>>, offs |-> <<ds + (IF swap THEN i.sh ELSE 0), ds + (IF swap THEN 0 ELSE i.sh)>>, det |-> i.det, neg |-> swap]
(* Enums are balanced trees of results. *)
RECURSIVE MkEnum(_)
MkEnum(ch) == IF Len(ch) = 1 THEN ch[1]
              ELSE LET h == Len(ch) \div 2 IN MkRes(MkEnum(SubSeq(ch, 1, h)), MkEnum(SubSeq(ch, h + 1, Len(ch))))
RECURSIVE MaxOf(_, _)
MaxOf(s, d) == IF s = <<>> THEN d ELSE MaxOf(Tail1(s), Max(s[1], d))
Plain(n, a, f) == [k |-> "p", size |-> n, align |-> a, fv |-> f, ub |-> <<>>]
Zeros(n) == [j \in 1..n |-> <<j - 1, 0>>]

RECURSIVE Ann(_)
Anns(ts) == [j \in 1..Len(ts) |-> Ann(ts[j])]
Ann(t) ==
    CASE t[1] = "p" -> Plain(t[2], t[3], End)
      [] t[1] = "nz" -> Plain(t[2], t[3], <<"arr", Zeros(t[2])>>)
      [] t[1] = "rng" -> Plain(1, 1, <<"rng", t[2], t[3], 0>>)
      [] t[1] = "st" -> MkStruct(Anns(t[2]), 1)
      [] t[1] = "al" -> MkStruct(Anns(t[3]), t[2])
      [] t[1] = "arr" -> LET e == Ann(t[3]) IN
            [k |-> "st", size |-> t[2] * e.size, align |-> e.align, fv |-> IF t[2] = 1 THEN e.fv ELSE End, ub |-> IF t[2] = 1 THEN e.ub ELSE <<>>,
             ch |-> [j \in 1..t[2] |-> e], offs |-> [j \in 1..t[2] |-> (j - 1) * e.size]]
      [] t[1] = "mu" -> [Ann(t[2]) EXCEPT !.fv = End]
      [] t[1] = "uc" -> [Ann(t[2]) EXCEPT !.ub = <<>>]
      [] t[1] = "un" -> LET ch == Anns(t[2])
                            al == MaxOf([j \in 1..Len(ch) |-> ch[j].align], 1)
                        IN Plain(Next2(MaxOf([j \in 1..Len(ch) |-> ch[j].size], 0), al), al, End)
      [] t[1] = "tag" -> LET ch == Anns(t[3])
                             al == MaxOf([j \in 1..Len(ch) |-> ch[j].align], 1)
                             s == MkStruct(<<Plain(t[2], t[2], End), Plain(Next2(MaxOf([j \in 1..Len(ch) |-> ch[j].size], 0), al), al, End)>>, 1)
                         IN [k |-> "tag", size |-> s.size, align |-> s.align, fv |-> s.fv, ub |-> s.ub, ch |-> ch, tag |-> t[2], off |-> s.offs[2]]
      [] t[1] = "res" -> MkRes(Ann(t[2]), Ann(t[3]))
      [] t[1] = "opt" -> MkRes(Ann(t[2]), Plain(0, 1, End))
      [] t[1] = "en" -> LET ch == Anns(t[2]) l == MkEnum(ch) IN
            [k |-> "en", size |-> l.size, align |-> l.align, fv |-> l.fv, ub |-> l.ub, n |-> Len(ch), tree |-> l]
(* How many niches (values that the compiler may use to tell variants apart) a type has: 0, 1, or 2 for several. What
   is behind an indirection of stabby's (results, options, enums), in a union, or writable through shared references has
   none. *)
RECURSIVE Niches(_)
RECURSIVE SumNiches(_)
SumNiches(ts) == IF ts = <<>> THEN 0 ELSE LET n == Niches(ts[1]) + SumNiches(Tail1(ts)) IN IF n > 2 THEN 2 ELSE n
Niches(t) ==
    CASE t[1] = "nz" -> 1
      [] t[1] \in {"rng", "tag"} -> 2
      [] t[1] = "st" -> SumNiches(t[2])
      [] t[1] = "al" -> SumNiches(t[3])
      [] t[1] = "arr" -> IF t[2] = 0 THEN 0 ELSE IF t[2] = 1 THEN Niches(t[3]) ELSE SumNiches(<<t[3], t[3]>>)
      [] OTHER -> 0
(* A type may always say that it has several: its options then just aren't stable. Otherwise it must be right, and the
   compiler must agree: a core option of a type that has exactly one niche is as big as the type, and has none left. *)
NichesRight(t, ev) ==
    CASE ev.claim = 0 -> Niches(t) = 0 /\ ev.one = 0
      [] ev.claim = 1 -> Niches(t) = 1 /\ ev.one = 1 /\ ev.two = 0
      [] OTHER -> TRUE
---------------------------------------------------------------------------
(* Encoding. *)
Blank(n) == [j \in 1..n |-> <<0, 0>>]
Put(buf, off, e) == [j \in 1..Len(buf) |-> IF j > off /\ j <= off + Len(e) THEN e[j - off] ELSE buf[j]]
LE(x, n) == [j \in 1..n |-> (x \div (IF j = 1 THEN 1 ELSE IF j = 2 THEN 256 ELSE 65536)) % (IF j > 3 THEN 1 ELSE 256)]
RECURSIVE Write(_, _)
Write(buf, f) == IF f = <<>> THEN buf ELSE Write([buf EXCEPT ![f[1][1] + 1] = <<f[1][2], 255>>], Tail1(f))
Not8(m) == 255 - m
SetDet(a, buf, ok) ==  \* ok: is it the first payload
    LET plus == IF a.neg THEN ~ok ELSE ok IN
    CASE a.det[1] = "tag" -> [buf EXCEPT ![1] = <<IF plus THEN 0 ELSE 1, 1>>]
      [] a.det[1] = "val" -> IF plus THEN buf ELSE Write(buf, a.det[2])
      [] a.det[1] = "nval" -> IF plus THEN Write(buf, a.det[2]) ELSE buf
      [] a.det[1] = "bit" -> LET o == a.det[2] + 1
                                 m == a.det[3]
                                 b == buf[o]
                             IN [buf EXCEPT ![o] = <<(b[1] & Not8(m)) + (IF plus THEN 0 ELSE m), b[2] | m>>]
GetDet(a, b) ==
    LET plus == CASE a.det[1] = "tag" -> (b[1] & 1) = 0
                  [] a.det[1] = "val" -> \E j \in 1..Len(a.det[2]) : b[a.det[2][j][1] + 1] # a.det[2][j][2]
                  [] a.det[1] = "nval" -> \A j \in 1..Len(a.det[2]) : b[a.det[2][j][1] + 1] = a.det[2][j][2]
                  [] a.det[1] = "bit" -> (b[a.det[2] + 1] & a.det[3]) = 0
    IN IF a.neg THEN ~plus ELSE plus
(* The path of results that leads to variant k (from 0) of n, as choices 0 and 1. *)
RECURSIVE Enc(_, _)
RECURSIVE EncStruct(_, _, _, _)
EncStruct(a, v, buf, j) == IF j > Len(a.ch) THEN buf ELSE EncStruct(a, v, Put(buf, a.offs[j], Enc(a.ch[j], v[j])), j + 1)
EncRes(a, c, e) == SetDet(a, Put(Blank(a.size), a.offs[c + 1], e), c = 0)
RECURSIVE EncEnum(_, _, _, _)
EncEnum(a, n, k, v) == IF n = 1 THEN Enc(a, v)
                       ELSE LET h == n \div 2 IN IF k < h THEN EncRes(a, 0, EncEnum(a.ch[1], h, k, v)) ELSE EncRes(a, 1, EncEnum(a.ch[2], n - h, k - h, v))
Enc(a, v) ==
    CASE a.k = "p" -> [j \in 1..a.size |-> <<v[j], 255>>]
      [] a.k = "st" -> EncStruct(a, v, Blank(a.size), 1)
      [] a.k = "res" -> EncRes(a, v[1], Enc(a.ch[v[1] + 1], v[2]))
      [] a.k = "tag" -> LET e == LE(v[1], a.tag) IN
            Put(Put(Blank(a.size), 0, [j \in 1..a.tag |-> <<e[j], 255>>]), a.off, Enc(a.ch[v[1] + 1], v[2]))
      [] a.k = "en" -> EncEnum(a.tree, a.n, v[1], v[2])
(* Decoding. *)
Sub(b, off, n) == SubSeq(b, off + 1, off + n)
RECURSIVE Dec(_, _)
RECURSIVE DecEnum(_, _, _, _)
DecEnum(a, n, k, b) == IF n = 1 THEN <<k, Dec(a, b)>>
                       ELSE LET h == n \div 2 IN
                            IF GetDet(a, b) THEN DecEnum(a.ch[1], h, k, Sub(b, a.offs[1], a.ch[1].size))
                            ELSE DecEnum(a.ch[2], n - h, k + h, Sub(b, a.offs[2], a.ch[2].size))
Dec(a, b) ==
    CASE a.k = "p" -> b
      [] a.k = "st" -> [j \in 1..Len(a.ch) |-> Dec(a.ch[j], Sub(b, a.offs[j], a.ch[j].size))]
      [] a.k = "res" -> IF GetDet(a, b) THEN <<0, Dec(a.ch[1], Sub(b, a.offs[1], a.ch[1].size))>> ELSE <<1, Dec(a.ch[2], Sub(b, a.offs[2], a.ch[2].size))>>
      [] a.k = "tag" -> <<b[1], Dec(a.ch[b[1] + 1], Sub(b, a.off, a.ch[b[1] + 1].size))>>
      [] a.k = "en" -> DecEnum(a.tree, a.n, 0, b)
Fits(b, e) == Len(b) = Len(e) /\ \A j \in 1..Len(e) : (b[j] & e[j][2]) = e[j][1]
---------------------------------------------------------------------------
(* A variable of a stable type, and what may be done to it. An event carries what the real code reports afterwards:
   d, the value it reads back; b, the bytes stored. *)
Init0(t) == [t |-> t, a |-> Ann(t), v |-> <<>>, err |-> ""]
Bad(st, m) == [st EXCEPT !.err = m]
Holds(st, ev, v) ==  \* the variable now holds v
    CASE ev.d # v -> Bad(st, "reads back as another value")
      [] ~Fits(ev.b, Enc(st.a, v)) -> Bad(st, "is not stored as prescribed")
      [] Dec(st.a, ev.b) # v -> Bad(st, "the stored bytes stand for another value")
      [] Invalid(st.a.fv, ev.b) -> Bad(st, "is stored as a forbidden value")
      [] OTHER -> [st EXCEPT !.v = v]
Step(st, ev) ==
    CASE ev.o = "layout" ->  \* what the type system and the compiler say
            IF ev.size # st.a.size \/ ev.align # st.a.align THEN Bad(st, "size or alignment computed")
            ELSE IF ev.rsize # st.a.size \/ ev.ralign # st.a.align THEN Bad(st, "size or alignment laid out by the compiler")
            ELSE IF ev.ub # UbBytes(st.a.ub, st.a.size) THEN Bad(st, "unused bits")
            ELSE st
      [] ev.o = "ctype" -> IF ev.size = st.a.size /\ ev.align = st.a.align THEN st ELSE Bad(st, "size or alignment of the C type that stands for it")
      [] ev.o = "niches" -> IF NichesRight(st.t, ev) THEN st ELSE Bad(st, "number of niches")
      [] ev.o = "invalid" -> IF ev.r = (IF Invalid(st.a.fv, ev.b) THEN 1 ELSE 0) THEN st ELSE Bad(st, "forbidden values")
      [] ev.o = "make" -> Holds(st, ev, ev.v)
      [] ev.o \in {"move", "clone", "convert", "noop", "refuse"} -> Holds(st, ev, st.v)
      [] ev.o = "dirty" ->  \* the bits claimed unused have been overwritten
            IF ev.d # st.v THEN Bad(st, "a bit claimed unused is used") ELSE st
      [] ev.o = "set" -> IF ev.old # st.v[2] THEN Bad(st, "the payload seen is another one") ELSE Holds(st, ev, <<st.v[1], ev.v>>)
      [] ev.o = "take" -> IF ev.v = st.v /\ ev.r = <<1>> THEN st ELSE Bad(st, "hands out another value")
      [] ev.o = "ask" -> IF ev.r = [k \in 1..Len(ev.r) |-> IF k = st.v[1] + 1 THEN 1 ELSE 0] THEN st ELSE Bad(st, "says it is in another variant")
=============================================================================
