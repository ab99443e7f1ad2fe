------------------------------ MODULE BTreeImpl -----------------------------
(* The tree as implemented: reference-counted nodes, copied on the way down    *)
(* when shared, split when they reach Limit elements. Refines BTree: each      *)
(* snapshot's nodes hold what BTree says, in order, at one depth; counts are    *)
(* those of the references; no node is unreachable.                            *)
(*   node: [e |-> elements <<key, value>>, ch |-> children (empty for leaves),  *)
(*          rc |-> references]                                                  *)
EXTENDS BTree
CONSTANTS Keys, Limit, Vals, Rep,
          CopyShared,   \* copy shared nodes before modifying them (FALSE: the mistake)
          CountChildren \* a copied node refers to its children (FALSE: the mistake)
VARIABLES heap, root, abs
vars == <<heap, root, abs>>
Free(H) == CHOOSE n \in 1..(Cardinality(DOMAIN H) + 1) : n \notin DOMAIN H
Add(H, n, x) == (n :> x) @@ H
Bump(H, S, d) == [n \in DOMAIN H |-> IF n \in S THEN [H[n] EXCEPT !.rc = @ + d] ELSE H[n]]
RECURSIVE Release(_, _)
Release(H, n) ==
  IF n = 0 THEN H
  ELSE IF H[n].rc > 1 THEN Bump(H, {n}, -1)
  ELSE LET ch == H[n].ch
           G == [m \in DOMAIN H \ {n} |-> H[m]]
           RECURSIVE All(_, _)
           All(F, i) == IF i > Len(ch) THEN F ELSE All(Release(F, ch[i]), i + 1)
       IN All(G, 1)
(* The node to modify in place of n: n itself when it is ours alone.           *)
MakeMut(H, n) ==
  IF H[n].rc = 1 \/ ~CopyShared THEN [h |-> H, n |-> n]
  ELSE LET m == Free(H)
           G == Add(IF CountChildren THEN Bump(H, Range(H[n].ch), 1) ELSE H, m, [H[n] EXCEPT !.rc = 1])
       IN [h |-> Bump(G, {n}, -1), n |-> m]
Leaf(x) == x.ch = << >>
Pos(es, k) == At(es, k)
InsertAt(s, i, x) == SubSeq(s, 1, i - 1) \o <<x>> \o SubSeq(s, i, Len(s))
(* After an element and the child to its right were put in n: split when full. *)
Split(H, n) ==
  IF Len(H[n].e) < Limit THEN [h |-> H, n |-> n, split |-> FALSE, right |-> 0, pivot |-> << >>, old |-> << >>]
  ELSE LET mid == Limit \div 2
           x == H[n]
           r == Free(H)
           R == [e |-> SubSeq(x.e, mid + 2, Limit), ch |-> IF Leaf(x) THEN << >> ELSE SubSeq(x.ch, mid + 2, Limit + 1), rc |-> 1]
           L == [x EXCEPT !.e = SubSeq(@, 1, mid), !.ch = IF Leaf(x) THEN << >> ELSE SubSeq(@, 1, mid + 1)]
       IN [h |-> Add([H EXCEPT ![n] = L], r, R), n |-> n, split |-> TRUE, right |-> r, pivot |-> x.e[mid + 1], old |-> << >>]
RECURSIVE InsertIn(_, _, _)
InsertIn(H0, n0, v) ==
  LET mm == MakeMut(H0, n0)
      H == mm.h
      n == mm.n
      p == Pos(H[n].e, v[1])
  IN IF Holds(H[n].e, v[1])
     THEN [h |-> [H EXCEPT ![n].e[p] = v], n |-> n, split |-> FALSE, right |-> 0, pivot |-> << >>, old |-> <<H[n].e[p]>>]
     ELSE IF Leaf(H[n]) THEN Split([H EXCEPT ![n].e = InsertAt(@, p, v)], n)
     ELSE LET s == InsertIn(H, H[n].ch[p], v)
              G == [s.h EXCEPT ![n].ch[p] = s.n]
          IN IF ~s.split THEN [s EXCEPT !.h = G, !.n = n]
             ELSE Split([G EXCEPT ![n].e = InsertAt(@, p, s.pivot), ![n].ch = InsertAt(@, p + 1, s.right)], n)
RECURSIVE Content(_, _)
Content(H, n) ==
  IF n = 0 THEN << >>
  ELSE IF Leaf(H[n]) THEN H[n].e
  ELSE LET RECURSIVE Cat(_)
           Cat(i) == IF i > Len(H[n].e) THEN Content(H, H[n].ch[i]) ELSE Content(H, H[n].ch[i]) \o <<H[n].e[i]>> \o Cat(i + 1)
       IN Cat(1)
InsertTree(H, n, v) ==
  IF n = 0 THEN LET m == Free(H) IN [h |-> Add(H, m, [e |-> <<v>>, ch |-> << >>, rc |-> 1]), n |-> m, old |-> << >>]
  ELSE IF Rep = 0 /\ Holds(Content(H, n), v[1]) THEN [h |-> H, n |-> n, old |-> <<v>>]
  ELSE LET s == InsertIn(H, n, v) IN
       IF ~s.split THEN [h |-> s.h, n |-> s.n, old |-> s.old]
       ELSE LET m == Free(s.h) IN [h |-> Add(s.h, m, [e |-> <<s.pivot>>, ch |-> <<s.n, s.right>>, rc |-> 1]), n |-> m, old |-> << >>]

Init == heap = << >> /\ root = [i \in 1..NS |-> 0] /\ abs = [i \in 1..NS |-> << >>]
DoInsert(i, v) ==
  LET s == InsertTree(heap, root[i], v)
      a == Insert(abs[i], Rep, v)
  IN /\ Assert(s.old = a.r, "hands back something else")
     /\ heap' = s.h /\ root' = [root EXCEPT ![i] = s.n] /\ abs' = [abs EXCEPT ![i] = a.c]
DoClone(i, j) == /\ root[j] = 0 /\ root[i] # 0
                 /\ heap' = Bump(heap, {root[i]}, 1) /\ root' = [root EXCEPT ![j] = root[i]] /\ abs' = [abs EXCEPT ![j] = abs[i]]
DoDrop(i) == /\ root[i] # 0
             /\ heap' = Release(heap, root[i]) /\ root' = [root EXCEPT ![i] = 0] /\ abs' = [abs EXCEPT ![i] = << >>]
Next == \/ \E i \in 1..NS, k \in Keys, v \in Vals : DoInsert(i, <<k, v>>)
        \/ \E i, j \in 1..NS : DoClone(i, j)
        \/ \E i \in 1..NS : DoDrop(i)
Refines == \A i \in 1..NS : Content(heap, root[i]) = abs[i] /\ Sorted(abs[i])
(* structure *)
Refs(n) == Cardinality({i \in 1..NS : root[i] = n}) + Cardinality({<<m, c>> \in UNION {{<<m, c>> : c \in DOMAIN heap[m].ch} : m \in DOMAIN heap} : heap[m].ch[c] = n})
RECURSIVE Depth(_)
Depth(n) == IF Leaf(heap[n]) THEN 1 ELSE 1 + Depth(heap[n].ch[1])
Counted == \A n \in DOMAIN heap : heap[n].rc = Refs(n) /\ heap[n].rc > 0
Shaped == \A n \in DOMAIN heap :
   /\ Len(heap[n].e) \in 1..Limit - 1
   /\ Leaf(heap[n]) \/ Len(heap[n].ch) = Len(heap[n].e) + 1
   /\ \A c \in DOMAIN heap[n].ch : heap[n].ch[c] \in DOMAIN heap /\ Depth(heap[n].ch[c]) = Depth(n) - 1
=============================================================================
