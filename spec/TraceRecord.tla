----------------------------- MODULE TraceRecord -----------------------------
(***************************************************************************)
(* Judges recorded observations of single records against Arinc424.tla.    *)
(* An observation is what one new Record answered after read(line):        *)
(*   l            the line as passed                                       *)
(*   acc, ro      answer of read() ("T", "F", or something else), stdout   *)
(*   p, h         primary(), hasCont()                                     *)
(*   jx, jn, jv   json(False): "" or what went wrong, names (an index into *)
(*                NamesTable), values                                      *)
(*   jf           "" or how another form of json() differs                 *)
(*   dx, dn, dv, dd, do   decode(False): "" or exception, names, values,   *)
(*                decoded texts, stdout                                    *)
(*   again        "T" or the query that answered differently afterwards    *)
(*   pr, po, ...  parse(): answer, stdout                                  *)
(* One behaviour per observation: Init picks it, Next judges it.           *)
(***************************************************************************)
EXTENDS Arinc424, Json, IOUtils

Obs        == ndJsonDeserialize(IOEnv.TRACE)
NamesTable == ndJsonDeserialize(IOEnv.NAMES)
Prop       == IOEnv.PROP            \* the property whose clauses are evaluated

ToSet(s)    == { s[i] : i \in 1..Len(s) }
PairsOf(ns, vs) == { <<ns[i], vs[i]>> : i \in 1..Len(ns) }

-----------------------------------------------------------------------------
(* Every clause is a set of texts naming what is wrong; {} when it holds.  *)
If(b, t) == IF b THEN {t} ELSE {}

Ans(b) == IF b THEN "T" ELSE "F"

(* messages about unsupported values that decode() prints besides the table *)
Diagnosed(l) == LET fs == FieldsOf(l)
                IN  \E i \in 1..Len(fs) :
                      LET v == Text1(l, fs[i].cols)
                      IN  \/ fs[i].codec = "034" /\ ~IsBlank(v) /\ ~IsDigits(Strip(v))
                          \/ fs[i].codec = "065" /\ ~IsBlank(v) /\ ~IsDigits(v)
                          \/ fs[i].codec = "118" /\ Char(v, 1) \notin DOMAIN BoundaryVia

(* C01: accepted exactly when the specification accepts; parse() alike *)
C01(e, l, y) ==
  If(e.acc # Ans(y # ""), "read() answers " \o e.acc \o ", expected " \o Ans(y # "")) \cup
  If(e.ro \notin {"none", "noise"}, "read() shows a table") \cup
  (IF e.pr = "" THEN {}
   ELSE IF y = "" THEN If(e.pr # "F", "parse() answers " \o e.pr \o " on a rejected line") \cup
                       If(e.po \notin {"none", "noise"}, "parse() shows a table of a rejected line")
   ELSE If(e.pr \notin {"T", "X:ValueError"} \/ (e.pr = "X:ValueError" /\ ~MayFail(l)), "parse() answers " \o e.pr \o " on an accepted line")) \cup
  (IF e.pq = "" THEN {}
   ELSE IF y = "" THEN If(e.pq # "F", "parse(output=False) answers " \o e.pq \o " on a rejected line") \cup
                       If(e.pqo \notin {"none", "noise"}, "parse(output=False) shows a table of a rejected line")
   ELSE If(e.pq \notin {"T", "X:ValueError"} \/ (e.pq = "X:ValueError" /\ ~MayFail(l)), "parse(output=False) answers " \o e.pq \o " on an accepted line"))

C04(e, l, y) ==
  If(e.p # Ans(Primary(l)), "primary() answers " \o e.p) \cup
  If(e.h # Ans(HasCont(l)), "hasCont() answers " \o e.h)

(* names and values as shown; by json() when the record cannot be decoded *)
ShownN(e) == IF e.dx = "" THEN NamesTable[e.dn] ELSE IF e.jx = "" THEN NamesTable[e.jn] ELSE <<>>
ShownV(e) == IF e.dx = "" THEN e.dv ELSE IF e.jx = "" THEN e.jv ELSE <<>>

(* C03: the fields, and the route types, of the record type *)
C03(e, l, y) ==
  If(ToSet(ShownN(e)) # ToSet(Names(l)), "fields of another record type than " \o Ident(l)) \cup
  (IF e.dx # "" \/ NamesTable[e.dn] # Names(l) THEN {}
   ELSE { "route type read as of another record type than " \o Ident(l) :
            i \in { i \in 1..Len(e.dd) : /\ FieldsOf(l)[i].codec = "007"
                                         /\ RStrip(Decode("007", e.dv[i], Ident(l)).s) # RStrip(e.dd[i]) } })

(* C05: every field is the text of its columns *)
C05(e, l, y) ==
  LET ns == ShownN(e)
      vs == ShownV(e)
      en == Names(l)
      ev == Values(l)
  IN  IF ns = en /\ vs = ev THEN {}
      ELSE { en[i] : i \in { i \in 1..Len(en) : ~\E k \in 1..Len(ns) : ns[k] = en[i] /\ vs[k] = ev[i] } } \cup
           { ns[k] : k \in { k \in 1..Len(ns) : \A i \in 1..Len(en) : ns[k] # en[i] } } \cup
           If(e.dx # "" /\ e.jx # "", "no fields are shown at all")

(* C06: one name per field; the continuation number that classified it *)
C06(e, l, y) ==
  LET ns == ShownN(e)
      vs == ShownV(e)
      fs == FieldsOf(l)
      nn == { fs[i].name : i \in { i \in 1..Len(fs) : fs[i].codec = "016" } }
  IN  { "two fields named " \o ns[i] : i \in { i \in 1..Len(ns) : \E k \in 1..(i - 1) : ns[k] = ns[i] } } \cup
      { "shown " \o ns[i] \o " is not the one that classified the record" :
          i \in { i \in 1..Len(ns) : ns[i] \in nn /\ vs[i] # ContNo(l, Ident(l)) } }

(* C07 *)
C07(e, l, y) ==
  IF e.jx # "" THEN {"json() fails: " \o e.jx}
  ELSE LET ns == NamesTable[e.jn]
       IN  If(~(ns = Names(l) /\ e.jv = Values(l)) /\
              ~(Len(ns) = Len(Names(l)) /\ PairsOf(ns, e.jv) = PairsOf(Names(l), Values(l))),
              "json() is not a copy of the record") \cup
           If(e.jf # "", e.jf)

(* the decoded text of row k, whose field is i *)
RowWrong(e, l, i, k) ==
  LET f == FieldsOf(l)[i]
      d == Decode(f.codec, e.dv[k], Ident(l))
  IN  CASE d.k = "ok"  -> RStrip(d.s) # RStrip(e.dd[k])
        [] d.k = "err" -> TRUE
        [] OTHER       -> FALSE

Wrong(e, l, cs) ==
  LET fs == FieldsOf(l)
      ns == NamesTable[e.dn]
  IN  IF ns = Names(l)
      THEN { fs[i].name : i \in { i \in 1..Len(fs) : fs[i].codec \in cs /\ RowWrong(e, l, i, i) } }
      ELSE { fs[i].name : i \in { i \in 1..Len(fs) : fs[i].codec \in cs /\
               \E k \in 1..Len(ns) : ns[k] = fs[i].name /\ RowWrong(e, l, i, k) } }

(* C08 *)
C08(e, l, y) ==
  IF e.dx = "unreadable" THEN {"decode() does not return a table of fields"}
  ELSE IF e.dx # "" THEN If(e.po \notin {"none", "noise", ""}, "a table is printed by a decode() that failed")
  ELSE LET ns == NamesTable[e.dn]
           fs == FieldsOf(l)
       IN  If(ns # Names(l), "rows are not the fields in order") \cup
           If(ns = Names(l) /\ e.dv # Values(l), "a value is not the exact text") \cup
           If(e.do # "none" /\ ~(e.do = "noise" /\ Diagnosed(l)), "decode(False) prints") \cup
           If(e.po \notin {"", "same"} /\ ~(e.po = "noise+same" /\ Diagnosed(l)), "decode() prints something else than it returns") \cup
           If(e.again = "decode(True)", "decode(True) returns something else than decode(False)") \cup
           (IF ns = Names(l) /\ ~e.odd      \* the definitions are specified for printable ASCII
            THEN { "decoded text of " \o fs[i].name : i \in { i \in 1..Len(fs) :
                     fs[i].codec \notin (TableCodecs \cup NumberCodecs) /\ RowWrong(e, l, i, i) } }
            ELSE {})

(* C09, C10: a legal record that cannot be decoded is a value that is not decoded *)
NotDecoded(e, l) == If(e.dx # "" /\ ~MayFail(l), "every value is legal, but decode() fails: " \o e.dx)
C09(e, l, y) == NotDecoded(e, l) \cup (IF e.dx = "" THEN Wrong(e, l, TableCodecs) ELSE {})
C10(e, l, y) == NotDecoded(e, l) \cup (IF e.dx = "" THEN Wrong(e, l, NumberCodecs) ELSE {})

(* C11 *)
C11(e, l, y) ==
  If(e.dx \notin {"", "X:ValueError"}, "decode() fails with " \o e.dx) \cup
  If(e.dx = "X:ValueError" /\ ~MayFail(l), "decode() raises ValueError although every value is legal") \cup
  If(e.dx = "" /\ MustFail(l), "decode() accepts an illegal value") \cup
  If(e.dx # "" /\ e.do \notin {"none", "noise"}, "a decode() that fails shows a table") \cup
  If(e.pr # "" /\ e.dx = "X:ValueError" /\ e.pr # "X:ValueError", "parse() answers " \o e.pr) \cup
  If(e.pr # "" /\ e.dx = "" /\ e.pr # "T", "parse() answers " \o e.pr) \cup
  If(e.pr # "" /\ e.dx # "" /\ e.po \notin {"none", "noise"}, "a parse() that fails shows a table") \cup
  If(e.again # "T", e.again \o " answers differently after decode()") \cup
  If(e.p \notin {"T", "F"} \/ e.h \notin {"T", "F"}, "primary() or hasCont() fails") \cup
  If(e.jx # "", "json() fails: " \o e.jx)

Verdict(e, l, y) ==
  IF Prop = "C01" THEN C01(e, l, y)
  ELSE IF y = "" \/ e.acc # "T" THEN {}
  ELSE CASE Prop = "C03" -> C03(e, l, y)
         [] Prop = "C04" -> C04(e, l, y)
         [] Prop = "C05" -> C05(e, l, y)
         [] Prop = "C06" -> C06(e, l, y)
         [] Prop = "C07" -> C07(e, l, y)
         [] Prop = "C08" -> C08(e, l, y)
         [] Prop = "C09" -> C09(e, l, y)
         [] Prop = "C10" -> C10(e, l, y)
         [] Prop = "C11" -> C11(e, l, y)

Judge(k) == LET e == TLCEval(Obs[k])
                l == TLCEval(Strip(e.l))
                y == TLCEval(LayoutOf(l))
                w == TLCEval(Verdict(e, l, y))
            IN  IF w = {} THEN y
                ELSE IF PrintT("BAD " \o ToJson([k |-> k, layout |-> y, what |-> w])) THEN "bad" ELSE "bad"

VARIABLES obsNo, outcome      \* outcome: layout of an observation that conforms, or "bad"
Init == obsNo \in 1..Len(Obs) /\ outcome = "todo"
Next == /\ outcome = "todo"
        /\ outcome' = Judge(obsNo)
        /\ UNCHANGED obsNo
Spec == Init /\ [][Next]_<<obsNo, outcome>>
=============================================================================
