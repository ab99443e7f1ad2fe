-------------------------------- MODULE Sums --------------------------------
(* Results, options and packed enums as programs see them: what each operation returns, which closure it calls with
   what, and that every payload is in exactly one place until it is destroyed, once.

   Slots hold <<>> (nothing), or <<kind, variant, token>>: kind "R" a stable result, "O" a stable option, "CR", "CO" the
   standard ones, "E", "F" packed enums of 3 and 5 variants (of payloads of
   the two types, in turn, but for the unit variant 2), "A", "B" a bare payload of the first or
   second type. Variants count from 0; token 0 stands for no payload. Tokens are numbered in order of creation. *)
EXTENDS Naturals, Sequences
Slots == 1..3
None == <<>>
Init0 == [sl |-> [s \in Slots |-> None], val |-> <<>>, d |-> {}, err |-> ""]
Bad(st, m) == [st EXCEPT !.err = m]
HasTok(x) == x # None /\ x[3] # 0
Toks(st) == {st.sl[s][3] : s \in {q \in Slots : HasTok(st.sl[q])}}

(* The outcome of an operation: slots afterwards, calls made, tokens destroyed, value returned, values of new tokens. *)
Out(sl, k, d, r, nv) == [sl |-> sl, k |-> k, d |-> d, r |-> r, nv |-> nv]
D(x) == IF HasTok(x) THEN <<x[3]>> ELSE <<>>
Bare(k, v) == IF k \in {"R", "CR", "E", "F"} THEN IF v % 2 = 0 THEN "A" ELSE "B" ELSE "A"
Panic == <<0 - 1>>
(* A closure given payload x (0: none) where it must return a payload: gives the same one back, destroys it and returns
   a new one, or panics. *)
Back(f, x, n) == IF f = "same" /\ x # 0 THEN x ELSE n
Gone(f, x) == IF x = 0 \/ f = "same" THEN <<>> ELSE <<x>>
Fresh(f, x, ev) == IF f = "panic" \/ (f = "same" /\ x # 0) THEN <<>> ELSE <<ev.val>>

Apply(st, ev) ==
    LET s == ev.s
        x == st.sl[s]
        k == x[1]
        v == x[2]
        p == x[3]
        n == Len(st.val) + 1
        f == ev.f
        Set(y) == [st.sl EXCEPT ![s] = y]
        call == <<<<v, p>>>>
        \* the closure for variant v is called and its result, of payload type b, is kept by making a slot of it
        Run(b, Mk(_)) == IF f = "panic" THEN Out(Set(None), call, Gone(f, p), Panic, <<>>)
                         ELSE Out(Set(Mk(Back(f, p, n))), call, Gone(f, p), <<0>>, Fresh(f, p, ev))
        \* two operands of the same kind
        y == st.sl[ev.t]
        same == x[1] = y[1] /\ x[2] = y[2] /\ (IF p = 0 THEN y[3] = 0 ELSE y[3] # 0 /\ st.val[p] = st.val[y[3]])
    IN
    CASE ev.o = "new" -> IF ev.v = 9 THEN Out(Set(<<ev.k, IF ev.k \in {"E", "F"} THEN 2 ELSE 1, 0>>), <<>>, <<>>, <<0>>, <<>>)  \* None, unit
                         ELSE Out(Set(<<ev.k, ev.v, n>>), <<>>, <<>>, <<0>>, <<ev.val>>)
      [] ev.o = "drop" -> Out(Set(None), <<>>, D(x), <<0>>, <<>>)
      [] ev.o = "move" -> Out([st.sl EXCEPT ![ev.t] = x, ![s] = None], <<>>, D(y), <<0>>, <<>>)  \* assigns: the target's content is destroyed
      [] ev.o = "swap" -> Out([st.sl EXCEPT ![ev.t] = x, ![s] = y], <<>>, <<>>, <<0>>, <<>>)
      \* queries: is it variant 0, 1; what the references to variants 0, 1 lead to
      [] ev.o = "ask" -> Out(st.sl, <<>>, <<>>, <<IF v = 0 THEN 1 ELSE 0, IF v = 0 THEN 0 ELSE 1, IF v = 0 THEN p ELSE 0, IF v = 0 THEN 0 ELSE p>>, <<>>)
      [] ev.o = "match_ref" -> Out(st.sl, call, <<>>, IF f = "panic" THEN Panic ELSE <<v, p>>, <<>>)
      [] ev.o = "debug" -> Out(st.sl, <<>>, <<>>, <<1>>, <<>>)  \* prints as the standard one does
      [] ev.o = "eq" -> Out(st.sl, <<>>, <<>>, <<IF same THEN 1 ELSE 0, IF same THEN 1 ELSE ev.r[2]>>, <<>>)  \* and, if equal, hashes alike
      [] ev.o = "clone" -> IF p = 0 THEN Out([st.sl EXCEPT ![ev.t] = x], <<>>, <<>>, <<0>>, <<>>)
                           ELSE IF f = "panic" THEN Out(st.sl, <<>>, <<>>, Panic, <<>>)
                           ELSE Out([st.sl EXCEPT ![ev.t] = <<k, v, n>>], <<>>, <<>>, <<0>>, <<st.val[p]>>)
      [] ev.o = "convert" -> Out(Set(<<CASE k = "R" -> "CR" [] k = "CR" -> "R" [] k = "O" -> "CO" [] k = "CO" -> "O", v, p>>), <<>>, <<>>, <<0>>, <<>>)
      [] ev.o = "match" -> IF f = "panic" THEN Out(Set(None), call, D(x), Panic, <<>>)
                           ELSE Out(Set(IF p = 0 THEN None ELSE <<Bare(k, v), 0, p>>), call, <<>>, <<v, p>>, <<>>)
      [] ev.o = "map" -> IF v = 0 THEN Run("A", LAMBDA q : <<k, 0, q>>) ELSE Out(st.sl, <<>>, <<>>, <<0>>, <<>>)
      [] ev.o = "and_then" -> IF v # 0 THEN Out(st.sl, <<>>, <<>>, <<0>>, <<>>)
                              ELSE IF f = "err" THEN Out(Set(<<k, 1, n>>), call, <<p>>, <<0>>, <<ev.val>>)
                              ELSE Run("A", LAMBDA q : <<k, 0, q>>)
      [] ev.o = "ok" -> IF v = 0 THEN Out(Set(<<"CO", 0, p>>), <<>>, <<>>, <<0>>, <<>>) ELSE Out(Set(<<"CO", 1, 0>>), <<>>, D(x), <<0>>, <<>>)
      [] ev.o = "err" -> IF v = 1 THEN Out(Set(<<"B", 0, p>>), <<>>, <<>>, <<1>>, <<>>) ELSE Out(Set(None), <<>>, D(x), <<0>>, <<>>)
      [] ev.o = "unwrap" -> IF v = 0 THEN Out(Set(<<"A", 0, p>>), <<>>, <<>>, <<0>>, <<>>) ELSE Out(Set(None), <<>>, D(x), Panic, <<>>)
      [] ev.o = "unwrap_err" -> IF v = 1 THEN Out(Set(<<"B", 0, p>>), <<>>, <<>>, <<0>>, <<>>) ELSE Out(Set(None), <<>>, D(x), Panic, <<>>)
      [] ev.o = "unwrap_or_else" -> IF v = 0 THEN Out(Set(<<"A", 0, p>>), <<>>, <<>>, <<0>>, <<>>)
                                    ELSE IF f = "panic" THEN Out(Set(None), call, D(x), Panic, <<>>)
                                    ELSE Out(Set(<<"A", 0, n>>), call, D(x), <<0>>, <<ev.val>>)
      [] ev.o = "unwrap_err_or_else" -> IF v = 1 THEN Out(Set(<<"B", 0, p>>), <<>>, <<>>, <<0>>, <<>>)
                                        ELSE IF f = "panic" THEN Out(Set(None), call, D(x), Panic, <<>>)
                                        ELSE Out(Set(<<"B", 0, n>>), call, D(x), <<0>>, <<ev.val>>)
      \* in-place access: the payload is left alone, or replaced by a new one (the old one is destroyed), and then
      \* possibly a panic
      [] ev.o = "mut" -> IF p = 0 THEN Out(st.sl, call, <<>>, IF f = "panic" THEN Panic ELSE <<0>>, <<>>)
                         ELSE IF f = "same" THEN Out(st.sl, call, <<>>, <<0>>, <<>>)
                         ELSE Out(Set(<<k, v, n>>), call, <<p>>, IF f = "panic" THEN Panic ELSE <<0>>, <<ev.val>>)

Range(q) == {q[j] : j \in 1..Len(q)}
Step(st, ev) ==
    LET w == Apply(st, ev)
        ns == [sl |-> w.sl, val |-> st.val \o w.nv, d |-> st.d \cup Range(w.d), err |-> ""]
    IN CASE ev.bad # <<>> -> Bad(st, "a payload was read or destroyed that isn't there")
         [] ev.r # w.r -> Bad(st, "returned something else")
         [] ev.c # w.k -> Bad(st, "closures were called otherwise")
         [] ev.d # w.d -> Bad(st, "other payloads were destroyed")
         [] ev.nv # w.nv -> Bad(st, "other payloads were created")
         [] {ev.live[j] : j \in 1..Len(ev.live)} # Toks(ns) -> Bad(st, "payloads lost or duplicated")
         [] OTHER -> ns
(* In all states of the model: a payload is in one place only, and not destroyed. *)
OnePlace(st) == /\ \A a, b \in Slots : a # b /\ HasTok(st.sl[a]) /\ HasTok(st.sl[b]) => st.sl[a][3] # st.sl[b][3]
                /\ Toks(st) \cap st.d = {}
                /\ Toks(st) \cup st.d = 1..Len(st.val)
=============================================================================
