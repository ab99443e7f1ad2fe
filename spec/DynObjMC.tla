------------------------------ MODULE DynObjMC ------------------------------
(* How trait objects are implemented, as a refinement of DynObj: a handle is a   *)
(* pointer and the address of a table of functions, laid out innermost trait     *)
(* first so that an upcast only changes how much of the table is known; counts   *)
(* live next to shared objects. Every observable of this machine is fed to       *)
(* DynObj's Step, which must never object.                                       *)
EXTENDS DynObj
CONSTANTS NS, NObj, Tags, Sets,
          HeadFirst,     \* mistake: tables are laid out outermost trait first
          UpcastDrops,   \* mistake: the handle given to an upcast is also dropped
          ThinCast,      \* mistake: borrowed handles give methods the pointer's own address
          ByName         \* mistake: downcasts compare names only (tags modulo 2)
Events == {"call", "down", "up", "dup", "downgrade", "upgrade", "drop", "new"}

(* functions of a trait, in the order of its table                              *)
Fns(t) == CASE t = "ta" -> <<1, 2, 12, 3, 0>> [] t = "any" -> <<11>> [] t = "tb" -> <<4, 6, 5>> [] t = "tc" -> <<8, 9, 10, 7>> [] OTHER -> << >>
RECURSIVE Flat(_)
Flat(ts) == IF ts = << >> THEN <<-1>>
            ELSE IF HeadFirst THEN Fns(ts[Len(ts)]) \o Flat(SubSeq(ts, 1, Len(ts) - 1))
                 ELSE Flat(SubSeq(ts, 1, Len(ts) - 1)) \o Fns(ts[Len(ts)])
(* the table in memory: for each offset, whose code and which function           *)
Table(tag, vt) == [n \in DOMAIN Flat(VT[vt + 1]) |-> [tag |-> tag, fn |-> Flat(VT[vt + 1])[n]]]
Offset(vt, m) == CHOOSE n \in DOMAIN Flat(VT[vt + 1]) : Flat(VT[vt + 1])[n] = m
(* the upcasts the library offers: dropping the outermost trait, and/or markers   *)
Core(ts) == SelectSeq(ts, LAMBDA t : t \notin {"send", "sync"})
Offers(a, b) ==
  LET x == VT[a + 1]
      y == VT[b + 1] IN
  \/ Core(x) = Core(y) /\ Traits(b) \subseteq Traits(a) /\ a # b
  \/ Core(x) # << >> /\ x[Len(x)] \notin {"send", "sync"} /\ y = SubSeq(x, 1, Len(x) - 1)

(* mem: objects; each handle: object, kind, static set of traits, table            *)
VARIABLES hs, mem, st, freed
vars == <<hs, mem, st, freed>>
No == [obj |-> 0, kind |-> -1, vt |-> 0, tab |-> << >>]
Init == hs = [s \in 1..NS |-> No] /\ mem = << >> /\ st = InitWith(NS) /\ freed = << >>

Ev(k, s, x, a, r, d, blocks) == [k |-> k, s |-> s, x |-> x, a |-> a, r |-> r, d |-> d, live |-> << >>, bad |-> << >>, blocks |-> blocks]
InUse(m) == Cardinality({o \in DOMAIN m : m[o].held})
New(s, kind, vt, tag) ==
  /\ hs[s] = No /\ Len(mem) < NObj
  /\ LET n == Len(mem) + 1
         m2 == Append(mem, [tag |-> tag, v |-> Norm(tag, n), id |-> IdOf(tag, n), strong |-> 1, weak |-> IF kind = Shared THEN 1 ELSE 0, held |-> kind \in {Box, Shared}])
     IN /\ mem' = m2
        /\ hs' = [hs EXCEPT ![s] = [obj |-> n, kind |-> kind, vt |-> vt, tab |-> Table(tag, vt)]]
        /\ st' = Step(st, Ev("new", s, <<kind, vt, tag, n>>, <<n>>, << >>, << >>, InUse(m2)))
        /\ UNCHANGED freed
Garbage == [tag |-> 99, v |-> 99, id |-> 99]
(* the code found at the method's offset, run on the data the pointer designates    *)
Run(h, how, m, a) ==
  LET f == h.tab[Offset(h.vt, m)]
      data == IF ThinCast /\ h.kind = Mut THEN Garbage ELSE mem[h.obj]
      self == [data EXCEPT !.tag = f.tag]
  IN [r |-> IF m = 11 THEN <<f.tag, 1>> ELSE IF f.fn = -1 THEN <<-9>> ELSE Returns(self, f.fn, a), v |-> After(self, f.fn, a)]
Call(s, how, m) ==
  /\ hs[s].kind \notin {-1, Weak} /\ MethodTrait(m) \in Traits(hs[s].vt)
  /\ m \in Mutates => (hs[s].kind \in {Box, Mut} \/ (hs[s].kind = Shared /\ how = 3))
  /\ hs[s].kind = Ref => how = 0
  /\ LET h == hs[s]
         a == <<1, 2, 3>>
         unique == mem[h.obj].strong = 1 /\ mem[h.obj].weak = 1
         r == Run(h, how, m, a)
         refuse == how = 3 /\ h.kind = Shared /\ ~unique
     IN /\ (mem[h.obj].v < 3 \/ m \notin Mutates)
        /\ mem' = IF refuse THEN mem ELSE [mem EXCEPT ![h.obj].v = r.v]
        /\ st' = Step(st, Ev("call", s, <<how, m, 0, 0>>, a, IF refuse THEN <<-2>> ELSE r.r, << >>, InUse(mem)))
        /\ UNCHANGED <<hs, freed>>
Down(s, t) ==
  /\ hs[s].kind \notin {-1, Weak} /\ "any" \in Traits(hs[s].vt)
  /\ LET h == hs[s]
         tag == h.tab[Offset(h.vt, 11)].tag
         yes == IF ByName THEN tag % 2 = t % 2 ELSE tag = t
     IN st' = Step(st, Ev("down", s, <<0, t, 0, 0>>, << >>, IF yes THEN <<1, mem[h.obj].v, 1>> ELSE <<0, 0, 0>>, << >>, InUse(mem)))
  /\ UNCHANGED <<hs, mem, freed>>
(* Release of handle h: the new memory, and what is destroyed.                        *)
Release(m, h) ==
  LET o == m[h.obj]
      grave == IF o.tag \in Silent THEN << >> ELSE <<<<o.tag, o.v, o.id>>>>
      dropper == h.tab[Offset(h.vt, -1)]
      g2 == IF grave = << >> THEN << >> ELSE <<<<dropper.tag, o.v, o.id>>>>
  IN CASE h.kind = Box -> [m |-> [m EXCEPT ![h.obj].held = FALSE, ![h.obj].strong = 0], d |-> g2]
       [] h.kind = Shared -> IF o.strong = 1 THEN [m |-> [m EXCEPT ![h.obj].strong = 0, ![h.obj].weak = @ - 1, ![h.obj].held = o.weak > 1], d |-> g2]
                             ELSE [m |-> [m EXCEPT ![h.obj].strong = @ - 1], d |-> << >>]
       [] h.kind = Weak -> [m |-> [m EXCEPT ![h.obj].weak = @ - 1, ![h.obj].held = o.weak > 1], d |-> << >>]
       [] OTHER -> [m |-> m, d |-> << >>]
Up(s, b) ==
  /\ hs[s].kind # -1 /\ Offers(hs[s].vt, b)
  /\ LET h == hs[s]
         rel == IF UpcastDrops THEN Release(mem, h) ELSE [m |-> mem, d |-> << >>]
     IN /\ hs' = [hs EXCEPT ![s].vt = b]
        /\ mem' = rel.m
        /\ st' = Step(st, Ev("up", s, <<b, 0, 0, 0>>, << >>, << >>, rel.d, InUse(rel.m)))
        /\ UNCHANGED freed
Dup(s, t) ==
  /\ hs[s].kind \in {Shared, Ref, Weak} /\ hs[t] = No
  /\ LET m2 == IF hs[s].kind = Shared THEN [mem EXCEPT ![hs[s].obj].strong = @ + 1]
               ELSE IF hs[s].kind = Weak THEN [mem EXCEPT ![hs[s].obj].weak = @ + 1] ELSE mem
     IN mem' = m2 /\ st' = Step(st, Ev("dup", s, <<t, 0, 0, 0>>, << >>, << >>, << >>, InUse(m2)))
  /\ hs' = [hs EXCEPT ![t] = hs[s]]
  /\ UNCHANGED freed
Downgrade(s, t) ==
  /\ hs[s].kind = Shared /\ hs[t] = No
  /\ mem' = [mem EXCEPT ![hs[s].obj].weak = @ + 1]
  /\ hs' = [hs EXCEPT ![t] = [hs[s] EXCEPT !.kind = Weak]]
  /\ st' = Step(st, Ev("downgrade", s, <<t, 0, 0, 0>>, << >>, << >>, << >>, InUse(mem')))
  /\ UNCHANGED freed
(* takes the weak handle by value: it is released whatever the outcome                *)
Upgrade(s) ==
  /\ hs[s].kind = Weak
  /\ LET h == hs[s]
         yes == mem[h.obj].strong > 0
         rel == Release(IF yes THEN [mem EXCEPT ![h.obj].strong = @ + 1] ELSE mem, h)
     IN /\ mem' = rel.m
        /\ hs' = [hs EXCEPT ![s] = IF yes THEN [h EXCEPT !.kind = Shared] ELSE No]
        /\ st' = Step(st, Ev("upgrade", s, <<0, 0, 0, 0>>, << >>, <<IF yes THEN 1 ELSE 0>>, rel.d, InUse(rel.m)))
  /\ UNCHANGED freed
Drop(s) ==
  /\ hs[s].kind # -1
  /\ LET rel == Release(mem, hs[s]) IN
     /\ mem' = rel.m
     /\ hs' = [hs EXCEPT ![s] = No]
     /\ st' = Step(st, Ev("drop", s, <<0, 0, 0, 0>>, << >>, << >>, rel.d, InUse(rel.m)))
     /\ freed' = freed \o rel.d
Next ==
  \/ \E s \in 1..NS, kind \in 0..3, vt \in Sets, tag \in Tags : New(s, kind, vt, tag)
  \/ \E s \in 1..NS, how \in {0, 3}, m \in {0, 2, 4, 11, 12} : Call(s, how, m)
  \/ \E s \in 1..NS, t \in Tags : Down(s, t)
  \/ \E s \in 1..NS, b \in 0..Len(VT) - 1 : Up(s, b)
  \/ \E s \in 1..NS, t \in 1..NS : Dup(s, t) \/ Downgrade(s, t)
  \/ \E s \in 1..NS : Upgrade(s) \/ Drop(s)

Refines == st.err = ""
Once == \A i, j \in DOMAIN freed : freed[i] = freed[j] /\ freed[i][3] # 0 => i = j
Live == \A s \in 1..NS : hs[s].kind \in {Box, Shared} => mem[hs[s].obj].strong > 0 /\ mem[hs[s].obj].held
=============================================================================
