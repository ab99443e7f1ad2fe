------------------------------- MODULE TextMC -------------------------------
(* Explores Text: no sequence of calls makes a text that isn't UTF-8, and the  *)
(* counts of shared texts are those of their handles.                          *)
EXTENDS Text
CONSTANTS Bytes, MaxLen, MaxObj
VARIABLE st
Init == st = Init0
Strings == {<< >>, << 97 >>, << 195, 169 >>}
Ev(k, s, t, a) == [k |-> k, s |-> s, t |-> t, a |-> a, f |-> 0, how |-> "op", kind |-> "none"]
On(ks) == {i \in 1..NS : st.sl[i].k \in ks}
Events == UNION {
  {[Ev("new", i, 0, << >>) EXCEPT !.kind = k] : i \in On({"none"}), k \in {"vec", "str"}},
  {[Ev("from", i, 0, s) EXCEPT !.kind = "str"] : i \in On({"none"}), s \in Strings},
  {Ev("push", i, 0, << b >>) : i \in On({"vec"}), b \in Bytes},
  {Ev("truncate", i, 0, << n >>) : i \in On({"vec"}), n \in 0..2},
  {[Ev("concat", i, 0, s) EXCEPT !.how = h, !.f = f] : i \in On({"str"}), s \in Strings, h \in {"try", "op", "add"}, f \in 0..1},
  {Ev(k, i, 0, << >>) : k \in {"pop"}, i \in On({"vec"})},
  {Ev(k, i, 0, << >>) : k \in {"tobytes", "tobox"}, i \in On({"str"})},
  {[Ev("toarc", i, 0, << >>) EXCEPT !.f = f] : i \in On({"str"}), f \in 0..1},
  {Ev("frombytes", i, 0, << >>) : i \in On({"vec"})},
  {Ev("tostr", i, 0, << >>) : i \in On({"bstr", "astr"})},
  {Ev("upper", i, 0, << >>) : i \in On(Texts)},
  {Ev("clone", i, j, << >>) : i \in On({"str", "vec", "astr", "wstr"}), j \in On({"none"})},
  {Ev("downgrade", i, j, << >>) : i \in On({"astr"}), j \in On({"none"})},
  {Ev("upgrade", i, j, << >>) : i \in On({"wstr"}), j \in On({"none"})},
  {Ev("drop", i, 0, << >>) : i \in On({"vec", "str", "bstr", "astr", "wstr"})} }
Next == \E ev \in Events : \E o \in Do(st, ev) : st' = Apply(st, o)
Small == Len(st.ob) <= MaxObj /\ \A i \in 1..NS : Len(st.sl[i].b) <= MaxLen
AlwaysUtf8 == /\ \A i \in 1..NS : st.sl[i].k \in Texts => Utf8(Content(st, st.sl[i]))
              /\ \A o \in DOMAIN st.ob : Utf8(st.ob[o].b)
Counted == \A o \in DOMAIN st.ob : /\ st.ob[o].sc = Cardinality({i \in On({"astr"}) : st.sl[i].o = o})
                                   /\ st.ob[o].wc = Cardinality({i \in On({"wstr"}) : st.sl[i].o = o})
(* well-formedness is closed under concatenation, and unambiguous at its boundaries *)
ASSUME \A p, q \in [1..2 -> Bytes] : LET v == p \o q IN (Utf8(p) => ValidUpTo(v) = 2 + ValidUpTo(q))
=============================================================================
