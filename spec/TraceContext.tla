---------------------------- MODULE TraceContext ----------------------------
(***************************************************************************)
(* Judges sets of records of one type and layout (C21).  An observation    *)
(* holds, for many such lines, the decoded text of every row (d; <<>> if    *)
(* decode() failed, with its error x).  In every row the decoded text is a *)
(* function of the row's own text, whatever the rest of the record is; and *)
(* a record can only fail because of a text that always makes it fail.     *)
(* Nothing is said here about what the function is.                        *)
(***************************************************************************)
EXTENDS Arinc424, Json, IOUtils

Obs == ndJsonDeserialize(IOEnv.TRACE)

(* lines of the observation that are what they should be, by number *)
Part(e)   == TLCEval({ k \in 1..Len(e.ls) : Ident(e.ls[k].l) = e.s /\ LayoutOf(e.ls[k].l) = e.y })
Shown(e, y, part) == TLCEval({ k \in part : e.ls[k].x = "" /\ Len(e.ls[k].d) = Len(Layouts[y]) })
At(e, y, k, i) == Text1(e.ls[k].l, Layouts[y][i].cols)

(* row i of the shown lines as pairs of text and decoded text *)
Pairs(e, y, shown, i) == TLCEval({ << At(e, y, k, i), e.ls[k].d[i] >> : k \in shown })
Texts2(ps) == { p[1] : p \in ps }

What(e) ==
  LET y == e.y
      part == Part(e)
      shown == Shown(e, y, part)
      rows == TLCEval([ i \in 1..Len(Layouts[y]) |-> Pairs(e, y, shown, i) ])
      legal == TLCEval([ i \in 1..Len(Layouts[y]) |-> Texts2(rows[i]) ])
      failed == { k \in part : e.ls[k].x \notin {"", "rejected"} }
      twice(i) == CHOOSE t \in legal[i] : Cardinality({ p \in rows[i] : p[1] = t }) > 1
      lines(i) == { (CHOOSE k \in shown : At(e, y, k, i) = p[1] /\ e.ls[k].d[i] = p[2]) : p \in { p \in rows[i] : p[1] = twice(i) } }
  IN  { [ what |-> Layouts[y][i].name \o " is not read from its own text", lines |-> lines(i) ] :
          i \in { i \in 1..Len(Layouts[y]) : Cardinality(rows[i]) # Cardinality(legal[i]) } } \cup
      { [ what |-> "decode() fails with texts that can all be decoded", lines |-> shown \cup {k} ] :
          k \in { k \in failed : \A i \in 1..Len(Layouts[y]) : At(e, y, k, i) \in legal[i] } }

Judge(k) == LET e == TLCEval(Obs[k])
                w == TLCEval(What(e))
                all == { PrintT("BAD " \o ToJson([k |-> k, layout |-> e.y, what |-> x.what, lines |-> x.lines])) : x \in w }
            IN  IF w = {} THEN "conforms" ELSE IF all = {TRUE} THEN "bad" ELSE "bad"

VARIABLES obsNo, outcome
Init == obsNo \in 1..Len(Obs) /\ outcome = "todo"
Next == /\ outcome = "todo"
        /\ outcome' = Judge(obsNo)
        /\ UNCHANGED obsNo
Spec == Init /\ [][Next]_<<obsNo, outcome>>
=============================================================================
