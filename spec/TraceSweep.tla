----------------------------- MODULE TraceSweep -----------------------------
(***************************************************************************)
(* Judges exhaustive sweeps: a base line b in which the columns c run      *)
(* through all combinations of the alphabets a (last column fastest).  For *)
(* every combination r holds 0 (rejected), a negative number (something    *)
(* was raised), or 4 * (index of the field names) + 2 * primary + hasCont. *)
(***************************************************************************)
EXTENDS Arinc424, Integers, Json, IOUtils

Obs        == ndJsonDeserialize(IOEnv.TRACE)
NamesTable == ndJsonDeserialize(IOEnv.NAMES)
Prop       == IOEnv.PROP

ToSet(s) == { s[i] : i \in 1..Len(s) }
NamesOf  == [ y \in LayoutIds |-> [ i \in 1..Len(Layouts[y]) |-> Layouts[y][i].name ] ]
(* the indices under which the fields of layout y may have been recorded *)
IndexOf  == [ y \in LayoutIds |-> { i \in 1..Len(NamesTable) :
                 NamesTable[i] = NamesOf[y] \/ ToSet(NamesTable[i]) = ToSet(NamesOf[y]) } ]

(* combination number k, counting from 0 *)
Chars(e, k) ==
  LET n1 == Len(e.a[1])
      n2 == IF Len(e.c) > 1 THEN Len(e.a[2]) ELSE 1
      n3 == IF Len(e.c) > 2 THEN Len(e.a[3]) ELSE 1
  IN  << e.a[1][1 + (k \div (n2 * n3))],
         IF Len(e.c) > 1 THEN e.a[2][1 + ((k \div n3) % n2)] ELSE "",
         IF Len(e.c) > 2 THEN e.a[3][1 + (k % n3)] ELSE "" >>

LineOf(e, k) ==
  LET x == Chars(e, k)
      c == e.c
  IN  SubSeq(e.b, 1, c[1] - 1) \o x[1] \o
      (IF Len(c) = 1 THEN SubSeq(e.b, c[1] + 1, Len(e.b))
       ELSE SubSeq(e.b, c[1] + 1, c[2] - 1) \o x[2] \o
            (IF Len(c) = 2 THEN SubSeq(e.b, c[2] + 1, Len(e.b))
             ELSE SubSeq(e.b, c[2] + 1, c[3] - 1) \o x[3] \o SubSeq(e.b, c[3] + 1, Len(e.b))))

Combinations(e) == Len(e.a[1]) * (IF Len(e.c) > 1 THEN Len(e.a[2]) ELSE 1) * (IF Len(e.c) > 2 THEN Len(e.a[3]) ELSE 1)

Bits(l) == (IF Primary(l) THEN 2 ELSE 0) + (IF HasCont(l) THEN 1 ELSE 0)

(* what is wrong with result r for the (stripped) line l, "" if nothing *)
Wrong(l, r) ==
  LET y == LayoutOf(l)
  IN  CASE Prop = "C01" ->
             IF r = -1 THEN "read() raises"
             ELSE IF y = "" /\ r # 0 THEN "accepted, but must be rejected"
             ELSE IF y # "" /\ r = 0 THEN "rejected, but must be accepted"
             ELSE ""
        [] Prop = "C03" ->
             IF y = "" /\ r > 0 THEN "taken for a supported record type"
             ELSE IF y # "" /\ r <= 0 THEN "not recognised as " \o Ident(l)
             ELSE IF y # "" /\ (r \div 4) \notin IndexOf[y] THEN "not the fields of " \o Ident(l)
             ELSE ""
        [] Prop = "C04" ->
             IF y = "" /\ r > 0 THEN "shown with a layout although the type of continuation is not supported"
             ELSE IF y # "" /\ r <= 0 THEN "not shown with layout " \o y
             ELSE IF y # "" /\ (r \div 4) \notin IndexOf[y] THEN "not the fields of layout " \o y
             ELSE IF y # "" /\ r % 4 # Bits(l) THEN "primary() or hasCont() is wrong"
             ELSE ""

Stripped(l) == IF Char(l, 1) \notin WhiteChars /\ Char(l, Len(l)) \notin WhiteChars THEN l ELSE Strip(l)

BadOnes(e) == { k \in 1..Combinations(e) :
                  IF k > Len(e.r) THEN TRUE ELSE Wrong(Stripped(LineOf(e, k - 1)), e.r[k]) # "" }

Report(e, n, ks) ==
  LET k == CHOOSE k \in ks : \A m \in ks : k <= m
      l == LineOf(e, k - 1)
      w == IF k > Len(e.r) THEN "no answer" ELSE Wrong(Strip(l), e.r[k])
  IN  PrintT("BAD " \o ToJson([k |-> n, layout |-> Ident(l), what |-> {w}, line |-> l,
                               result |-> IF k > Len(e.r) THEN 0 ELSE e.r[k], count |-> Cardinality(ks)]))

Judge(n) == LET e == TLCEval(Obs[n])
                ks == TLCEval(BadOnes(e))
            IN  IF ks = {} THEN "conforms" ELSE IF Report(e, n, ks) THEN "bad" ELSE "bad"

VARIABLES obsNo, outcome
Init == obsNo \in 1..Len(Obs) /\ outcome = "todo"
Next == /\ outcome = "todo"
        /\ outcome' = Judge(obsNo)
        /\ UNCHANGED obsNo
Spec == Init /\ [][Next]_<<obsNo, outcome>>
=============================================================================
