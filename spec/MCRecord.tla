------------------------------ MODULE MCRecord ------------------------------
(***************************************************************************)
(* Exhaustive check of the pure part of the specification: every section   *)
(* code, continuation number and selector text, on lines that are          *)
(* otherwise fixed.  One step surrounds the line with white space, one     *)
(* rewrites a column outside all selectors.                                *)
(***************************************************************************)
EXTENDS Arinc424

CONSTANT Small      \* TRUE: fewer continuation numbers and selector texts

Put(l, i, s) == SubSeq(l, 1, i - 1) \o s \o SubSeq(l, i + Len(s), Len(l))
BaseLine     == "S" \o Rep("1", 122) \o "000012605"

Selectors(k) == DOMAIN k.prim \cup DOMAIN k.conts
Others       == IF Small THEN {"A", "Z", " ", "?"} ELSE PrintChars
OthersOf(k)  == IF k.psel = <<16, 17>> THEN {"AE", "TC", "SC", "NR", "XX", "  ", "EA", "ae"} ELSE Others
ContChars    == IF Small THEN {"0", "1", "2", "9", "A", "Z", "a", " ", "-"} ELSE PrintChars

Place(s, split) == IF split THEN Put(Put(BaseLine, 5, First(s) \o "?"), 13, Rest(s)) ELSE Put(BaseLine, 5, s)
SelCol(k)       == IF k.csel = None THEN 50 ELSE k.csel[1]
MakeLine(s, split, ch, sel) ==
  LET k == Kinds[s]
      a == TLCEval(Place(s, split))
      b == TLCEval(IF k.cont = 0 THEN a ELSE Put(a, k.cont, ch))
  IN  Put(b, SelCol(k), sel)

(* core and layout are functions of the line, kept so that TLC computes them once *)
VARIABLES secCode, lineText, contChar, selText, stepNo, core, layout
vv == <<secCode, lineText, contChar, selText, stepNo, core, layout>>

(* a first step makes the line, so that the lines are made by all workers *)
Raw  == 9
Init == /\ secCode \in Sections
        /\ contChar \in ContChars
        /\ selText = "" /\ lineText = "" /\ core = "" /\ layout = ""
        /\ stepNo = Raw
Make == /\ stepNo = Raw
        /\ selText' \in (OthersOf(Kinds[secCode]) \cup Selectors(Kinds[secCode])) \ {""}
        /\ lineText' \in { MakeLine(secCode, sp, contChar, selText') : sp \in BOOLEAN }
        /\ core' = Strip(lineText')
        /\ layout' = LayoutOf(core')
        /\ stepNo' = 0
        /\ UNCHANGED <<secCode, contChar>>

Surround == /\ stepNo = 0 /\ Small
            /\ lineText' \in { "\n" \o lineText, lineText \o "\r\n", " \t" \o lineText \o " \f" }
            /\ stepNo' = 1
            /\ core' = Strip(lineText') /\ layout' = LayoutOf(core')
            /\ UNCHANGED <<secCode, contChar, selText>>
(* a column outside identifiers, selectors and the ends *)
Touch    == /\ stepNo = 0 /\ Small
            /\ \E c \in {2, 7, 60, 123} : lineText' = Put(lineText, c, "Q")
            /\ stepNo' = 2
            /\ core' = Strip(lineText') /\ layout' = LayoutOf(core')
            /\ UNCHANGED <<secCode, contChar, selText>>
Next == Make \/ Surround \/ Touch
Spec == Init /\ [][Next]_vv

Ln == core
Y  == layout
K  == Kinds[secCode]

MakeCore == IF stepNo = 1 THEN LET s == { i \in 1..Len(lineText) : Char(lineText, i) = "S" /\ i <= 3 } IN SubSeq(lineText, CHOOSE i \in s : TRUE, 131 + (CHOOSE i \in s : TRUE)) ELSE lineText

(* whether this line is to be accepted, said in another way *)
Expected ==
  IF K.cont = 0 THEN TRUE
  ELSE IF contChar \in {"0", "1"} THEN K.psel = None \/ selText \in DOMAIN K.prim
  ELSE contChar \in AlnumChars /\ (selText \in DOMAIN K.conts \/ K.other # "")

Made == stepNo # Raw
SpecC01 == Made => WellFormed(Ln) /\ (Accepts(lineText) <=> Expected)
(* surrounding or touching a line changes nothing: see also the action property *)
SpecC02 == Made => core = MakeCore /\ Len(core) = RecordLength
SameLayout == [][Made => layout' = layout]_vv
SpecC03 == Made => Ident(Ln) = secCode
SpecC04 == Y # "" =>
             /\ Primary(Ln) <=> (K.cont = 0 \/ contChar \in {"0", "1"})
             /\ HasCont(Ln) <=> (K.cont # 0 /\ contChar = "1")
             /\ Primary(Ln)  => \E x \in DOMAIN K.prim : K.prim[x] = Y
             /\ ~Primary(Ln) => Y = K.other \/ \E x \in DOMAIN K.conts : K.conts[x] = Y
(* properties of the layout itself: looked at once per layout *)
Once    == stepNo = 0 /\ contChar \in {"0", "2"} /\ Y # ""
SpecC05 == Once => \A i \in 1..Len(Layouts[Y]) : \A q \in 1..Len(Layouts[Y][i].cols) :
             LET r == Layouts[Y][i].cols[q] IN 1 <= r[1] /\ r[1] <= r[2] /\ r[2] <= RecordLength

(* columns that the library shows twice (known finding) *)
KnownOverlaps == { "AirportTAA_primary", "HeliportTAA_primary", "AirportTAA_cont", "HeliportTAA_cont" }
ColSet(f) == UNION { f.cols[q][1]..f.cols[q][2] : q \in 1..Len(f.cols) }
SpecC06 == Once =>
             LET fs == TLCEval(Layouts[Y])
             IN  /\ \A i, j \in 1..Len(fs) : i # j => fs[i].name # fs[j].name
                 /\ Y \notin KnownOverlaps =>
                      /\ \A i, j \in 1..Len(fs) : i # j => ColSet(fs[i]) \cap ColSet(fs[j]) = {}
                      /\ \A i \in 1..Len(fs) : fs[i].codec = "016" => fs[i].cols = <<<<K.cont, K.cont>>>>
(* every definition gives an answer for every field of the line *)
SpecC11 == Once => LET d == TLCEval(Decoded(Ln)) IN \A i \in 1..Len(d) : d[i].k \in {"ok", "err", "any"}
=============================================================================
