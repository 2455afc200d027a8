----------------------------- MODULE RecordImpl -----------------------------
(***************************************************************************)
(* How read() works, step by step, on two Records used by two threads, and *)
(* that this refines System.tla: between calls, all parts of a Record come *)
(* from the last accepted line (C12, C13), at every interleaving (C14),    *)
(* and queries only read them (C15).                                       *)
(* Bug selects a planted mistake, for which TLC has to find a violation:   *)
(*   "early"    line and type are stored before the line is known to be    *)
(*              acceptable            (was in the repository: 674311b)     *)
(*   "stale"    types without continuation numbers do not reset the number *)
(*                                    (was in the repository: 77b444c)     *)
(*   "scratch"  the shared record definition keeps the line being read     *)
(*   "memo"     decode() remembers its answer and read() does not forget it*)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

CONSTANT Bug

(* lines: 1, 2 of a type with continuation numbers, 3 of one without;      *)
(* 4 has no section code, 5 an unsupported continuation type               *)
Lines   == 1..5
Sect(l) == CASE l \in {1, 2, 5} -> "A" [] l = 3 -> "B" [] l = 4 -> "none"
Cont(l) == CASE l = 1 -> "1" [] l = 2 -> "0" [] l = 3 -> "none" [] l = 5 -> "2" [] l = 4 -> "none"
LineOk(l) == l \in {1, 2, 3}

Threads == {1, 2}
Sections == {"A", "B"}

VARIABLES pc, arg, loc,          \* per thread: position, line being read, local values
          part,                  \* per Record (one per thread): raw, ident, cont, fields
          scratch,               \* per shared definition
          memo,                  \* per Record: remembered table, 0 if none
          answer,                \* per thread: what the last query answered
          held                   \* ghost: state of System.tla
vars == <<pc, arg, loc, part, scratch, memo, answer, held>>

MAcc(l) == LineOk(l)
MAns(l, q) == <<q, l>>
MErr(l) == "none"
MTab(l) == l
Sys == INSTANCE System WITH Acc <- MAcc, Ans <- MAns, Err <- MErr, Tab <- MTab

Empty == [raw |-> 0, ident |-> 0, cont |-> "", fields |-> 0]
Init == /\ pc = [t \in Threads |-> "idle"]
        /\ arg = [t \in Threads |-> 0]
        /\ loc = [t \in Threads |-> Empty]
        /\ part = [t \in Threads |-> Empty]
        /\ scratch = [s \in Sections |-> 0]
        /\ memo = [t \in Threads |-> 0]
        /\ answer = [t \in Threads |-> <<"none", 0, 0, "">>]
        /\ held = [t \in Threads |-> 0]

Goto(t, p) == pc' = [pc EXCEPT ![t] = p]

Call(t) == /\ pc[t] = "idle"
           /\ \E l \in Lines : arg' = [arg EXCEPT ![t] = l]
           /\ loc' = [loc EXCEPT ![t] = Empty]
           /\ Goto(t, "ident")
           /\ UNCHANGED <<part, scratch, memo, answer, held>>

Reject(t) == /\ Goto(t, "idle")
             /\ held' = Sys!AfterRead(held, t, arg[t])

(* columns 5-6 or 5 and 13 *)
Identify(t) ==
  /\ pc[t] = "ident"
  /\ IF Bug = "early"
     THEN part' = [part EXCEPT ![t].raw = arg[t], ![t].ident = IF Sect(arg[t]) = "none" THEN @ ELSE arg[t]]
     ELSE UNCHANGED part
  /\ IF Sect(arg[t]) = "none" THEN Reject(t) /\ UNCHANGED <<loc, scratch>>
     ELSE /\ loc' = [loc EXCEPT ![t].raw = arg[t], ![t].ident = arg[t]]
          /\ scratch' = IF Bug = "scratch" THEN [scratch EXCEPT ![Sect(arg[t])] = arg[t]] ELSE scratch
          /\ Goto(t, "cont") /\ UNCHANGED held
  /\ UNCHANGED <<arg, memo, answer>>

Continuation(t) ==
  /\ pc[t] = "cont"
  /\ LET c == IF Cont(arg[t]) = "none" THEN (IF Bug = "stale" THEN part[t].cont ELSE "0") ELSE Cont(arg[t])
     IN  loc' = [loc EXCEPT ![t].cont = c]
  /\ Goto(t, "fields")
  /\ UNCHANGED <<arg, part, scratch, memo, answer, held>>

Fields(t) ==
  /\ pc[t] = "fields"
  /\ IF ~LineOk(arg[t]) THEN Reject(t) /\ UNCHANGED loc
     ELSE /\ loc' = [loc EXCEPT ![t].fields = IF Bug = "scratch" THEN scratch[Sect(arg[t])] ELSE arg[t]]
          /\ Goto(t, "store1") /\ UNCHANGED held
  /\ UNCHANGED <<arg, part, scratch, memo, answer>>

(* the parts are stored one by one *)
Store1(t) == /\ pc[t] = "store1"
             /\ part' = [part EXCEPT ![t].raw = loc[t].raw, ![t].ident = loc[t].ident]
             /\ Goto(t, "store2")
             /\ UNCHANGED <<arg, loc, scratch, memo, answer, held>>
Store2(t) == /\ pc[t] = "store2"
             /\ part' = [part EXCEPT ![t].cont = loc[t].cont, ![t].fields = loc[t].fields]
             /\ memo' = IF Bug = "memo" THEN memo ELSE [memo EXCEPT ![t] = 0]
             /\ held' = Sys!AfterRead(held, t, arg[t])
             /\ Goto(t, "idle")
             /\ UNCHANGED <<arg, loc, scratch, answer>>

(* decode() and json() show the fields, decoded by the record's type *)
Query(t) == /\ pc[t] = "idle"
            /\ LET f == IF memo[t] # 0 THEN memo[t] ELSE part[t].fields
               IN  /\ answer' = [answer EXCEPT ![t] = <<"query", f, part[t].ident, part[t].cont>>]
                   /\ memo' = IF Bug = "memo" THEN [memo EXCEPT ![t] = f] ELSE memo
            /\ Goto(t, "asked")
            /\ UNCHANGED <<arg, loc, part, scratch, held>>
Done(t)  == pc[t] = "asked" /\ Goto(t, "idle") /\ UNCHANGED <<arg, loc, part, scratch, memo, answer, held>>

Next == \E t \in Threads : Call(t) \/ Identify(t) \/ Continuation(t) \/ Fields(t) \/ Store1(t) \/ Store2(t) \/ Query(t) \/ Done(t)
Spec == Init /\ [][Next]_vars

(* what the parts have to be when a Record holds line l *)
Whole(l) == IF l = 0 THEN Empty
            ELSE [raw |-> l, ident |-> l, cont |-> IF Cont(l) = "none" THEN "0" ELSE Cont(l), fields |-> l]
Consistent == \A t \in Threads : pc[t] = "idle" => part[t] = Whole(held[t])
Answers    == \A t \in Threads : pc[t] = "asked" => answer[t] = <<"query", held[t], held[t], Whole(held[t]).cont>>
(* steps of one thread do not touch the other's Record *)
Separate   == [][ \A t \in Threads : part'[t] # part[t] => pc'[t] # pc[t] ]_vars
(* refinement: every step is a step of System.tla or changes nothing there *)
Refines    == [][ held' = held \/ \E t \in Threads, l \in Lines : held' = Sys!AfterRead(held, t, l) ]_vars
=============================================================================
