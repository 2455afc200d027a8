---------------------------- MODULE TraceColumns ----------------------------
(***************************************************************************)
(* Judges column maps (C06): line l showed the fields named n with texts   *)
(* v; ch lists, for changes of column c to x that leave the fields' names  *)
(* as they are, the fields (by position) whose text changed.  No column    *)
(* contributes to two fields, whatever the layout is.                      *)
(***************************************************************************)
EXTENDS Arinc424, Json, IOUtils

Obs        == ndJsonDeserialize(IOEnv.TRACE)
NamesTable == ndJsonDeserialize(IOEnv.NAMES)

Twice(ns) == { i \in 1..Len(ns) : \E k \in 1..(i - 1) : ns[k] = ns[i] }

What(e) ==
  IF e.n = 0 THEN {}
  ELSE LET ns == NamesTable[e.n]
           c2 == { i \in 1..Len(e.ch) : Len(e.ch[i].f) > 1 }
       IN  { "two fields named " \o ns[i] : i \in Twice(ns) } \cup
           { "column " \o ToString(e.ch[i].c) \o " shows in " \o
             JoinWith([ q \in 1..(IF Len(e.ch[i].f) > 4 THEN 4 ELSE Len(e.ch[i].f)) |-> ns[e.ch[i].f[q]] ], " and ") : i \in c2 }

Judge(k) == LET e == TLCEval(Obs[k])
                w == TLCEval(What(e))
                y == LayoutOf(Strip(e.l))
                all == { PrintT("BAD " \o ToJson([k |-> k, layout |-> y, what |-> {x}])) : x \in w }
            IN  IF w = {} THEN "conforms" ELSE IF all = {TRUE} THEN "bad" ELSE "bad"

VARIABLES obsNo, outcome
Init == obsNo \in 1..Len(Obs) /\ outcome = "todo"
Next == /\ outcome = "todo"
        /\ outcome' = Judge(obsNo)
        /\ UNCHANGED obsNo
Spec == Init /\ [][Next]_<<obsNo, outcome>>
=============================================================================
