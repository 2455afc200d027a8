------------------------------ MODULE GenLines ------------------------------
(***************************************************************************)
(* Test input derived from the specification: for every record type and    *)
(* layout, lines in which every field runs through the interesting texts   *)
(* of its definition.  Texts that decode are combined in one line; texts   *)
(* that must be reported (Err) or are left open (Unspecified) come one per *)
(* line.  One state of this module per record type and layout; the line    *)
(* sets are written to OUT/<section>-<layout>.json.                        *)
(***************************************************************************)
EXTENDS Arinc424, Json, IOUtils, SequencesExt, FiniteSetsExt

Thorough == IOEnv.GEN_TIER = "thorough"
OutDir   == IOEnv.GEN_OUT
Offset   == atoi(IOEnv.GEN_OFFSET)      \* where the rotation of candidates starts
MaxGood  == IF Thorough THEN 2000 ELSE 300

-----------------------------------------------------------------------------
(* Interesting texts of width w for a field definition                     *)

Fit(s, w)  == IF Len(s) >= w THEN SubSeq(s, 1, w) ELSE s \o Spaces(w - Len(s))
RFit(s, w) == IF Len(s) >= w THEN SubSeq(s, 1, w) ELSE Spaces(w - Len(s)) \o s
Put(l, i, s) == SubSeq(l, 1, i - 1) \o s \o SubSeq(l, i + Len(s), Len(l))

(* numerals: zero, all shapes of leading and inner zeros, repeated and     *)
(* running digits, every digit in every place                              *)
Ramp == "123456789012345678901234567890"
Fall == "987654321098765432109876543210"
Numerals(w) ==
  { Rep(d, w) : d \in DigitChars } \cup
  { Put(Zeros(w), i, d) : i \in 1..w, d \in DigitChars } \cup
  { Put(Rep("9", w), i, d) : i \in 1..w, d \in {"0", "1", "5", "8"} } \cup
  { Zeros(i) \o SubSeq(Ramp, 1, w - i) : i \in 0..(w - 1) } \cup
  { SubSeq(Ramp, 1, i) \o Zeros(w - i) : i \in 1..w } \cup
  { SubSeq(Fall, 1, w), SubSeq(Ramp, 4, 3 + w), SubSeq(Fall, 5, 4 + w) }

Pairs2 == { c \o d : c, d \in {"0","4","5","6","9"} }
NonNumerals(w) ==
  { Put(Rep("1", w), i, c) : i \in 1..w, c \in {" ", "A", "O", "-", "+", ".", "_", "E", "T", "/"} } \cup
  { Fit(SubSeq(Ramp, 1, i), w) : i \in 1..w } \cup { RFit(SubSeq(Ramp, 1, i), w) : i \in 1..w } \cup
  { Spaces(w), Rep("A", w), Rep("x", w), Fit("UNLTD", w), Fit("FL180", w), Fit("GND", w),
    Fit("NOTSP", w), Fit("MSL", w), Fit("FL0", w), RFit("0", w), Fit("0", w), Rep("*", w),
    Rep("@", w), Fit("-10", w), Fit("+0", w), Fit("1E1", w), Fit("NAN", w), Fit("INF", w), Fit("nan", w) }

(* what such fields hold in real data *)
Words == { "GND", "UNLTD", "FL180", "NOTSP", "NOTAM", "MSL", "AGL", "180T", "359T", "000T", "T045", "0900", "3600", "N39513881", "S39513881",
           "W104450794", "E104450794", "N00000000", "E000000000", "RW26L", "RW26", "RW08B", "KDEN", "DEN", "ILS", "LOC", "VOR", "ALL", "CAT",
           "01000", "18000", "99999", "-0100", "12345", "H24", "IFR", "VFR", "UNK", "NIL", "TRUE", "NONE" }

Printable == SetToSeq(PrintChars)
Texts(w) ==
  { Fit(s, w) : s \in { s \in Words : Len(s) <= w } } \cup
  { Spaces(w), Rep("A", w), Rep("z", w), Rep("0", w), Rep("~", w), Rep("'", w), Rep("|", w),
    Fit("ABCDEFGHIJKLMNOPQRSTUVWXYZABCDEFGHIJKLMNOPQRSTUVWXYZABCDEFGHIJKLMNOPQRSTUVWXYZABCDEFGHIJKLMNOPQRSTUVWXYZ", w),
    Fit("A1 B2 C3 D4 E5 F6 G7 H8 I9 J0 K1 L2 M3 N4 O5 P6 Q7 R8 S9 T0 U1 V2 W3 X4 Y5 Z6 A7 B8 C9 D0 E1 F2 G3", w),
    Fit("X", w), RFit("Y", w), Fit("AB", w), RFit("CD", w), Fit("a b", w), Fit("\"q\"", w), RFit("\\n", w), Fit("{}", w),
    Fit(Ramp \o Ramp \o Ramp \o Ramp, w), Fit(" 7", w), Fit("0", w), RFit("1", w), Fit("<>&", w),
    Fit("%s%d", w), Fit("+--+", w), Fit("N", w), Fit("Y", w), Fit("T123", w), Fit("0000", w),
    Put(Spaces(w), (w + 1) \div 2, "M"), RFit("None", w), Fit("null", w), Fit(",;:", w), Fit("#$", w), Rep("-", w) } \cup
  (IF w <= 2 \/ Thorough THEN { Put(Spaces(w), i, c) : i \in 1..w, c \in PrintChars } ELSE {})

Alph == {" ", "0", "1", "A", "a", "Z", "-", "@"}
Near(k) == { Put(k, i, c) : i \in 1..Len(k), c \in {" ", "0", "A", "X"} } \cup
           { IF Len(k) > 1 THEN Rest(k) \o First(k) ELSE k }
Keys(t, w) == { Fit(k, w) : k \in DOMAIN t }
AllNear(t, w) == UNION { Near(k) : k \in Keys(t, w) }

Tables == [ c003 |-> AreaNames, c004 |-> SectionNames, c021 |-> LegTypes, c101 |-> CommTypes, c106 |-> ServiceCodes ]

Two(a, b) == { c \o d : c \in a, d \in b }

Candidates(codec, w) ==
  CASE codec = "002" -> {"S", "T"}
    [] codec = "016" -> PrintChars
    [] codec = "003" -> Keys(AreaNames, w) \cup AllNear(AreaNames, w) \cup {Spaces(w), "usa", "Usa"}
    [] codec = "004" -> Two(UpperChars, UpperChars \cup {" "}) \cup {"  ", "pa", "0A", "A1", " P", " A", "D0"}
    [] codec = "021" -> Two(UpperChars, UpperChars \cup {" "}) \cup {"  ", "if", "1F", "F1", " F", "--"}
    [] codec = "101" -> Keys(CommTypes, w) \cup AllNear(CommTypes, w) \cup {Spaces(w), "app"}
    [] codec = "106" -> Keys(ServiceCodes, w) \cup AllNear(ServiceCodes, w) \cup {"AAA", "ACL", "   "}
    [] codec = "017" -> { Put(Spaces(4), i, c) : i \in 1..4, c \in PrintChars } \cup
                        { Rep(c, 4) : c \in PrintChars } \cup
                        { a \o b \o c \o d : a \in {"E", "V", "?"}, b \in {"E", "Y", " "}, c \in {"C", "S", "3"}, d \in {"A", "M", " "} }
    [] codec = "042" -> { c \o d \o e : c \in {"C", "N", " ", "R", "W", "A"}, d \in {"F", " ", "A", "Z"}, e \in {" ", "B"} } \cup
                        { c \o d \o " " : c \in DOMAIN WaypointType1 \cup {"N", " "}, d \in DOMAIN WaypointType2 \cup {" "} } \cup
                        { Put(Spaces(3), i, c) : i \in 1..2, c \in PrintChars } \cup { Rep(c, 3) : c \in PrintChars }
    [] codec = "082" -> Two({"R", " ", "L", "H", "X"}, PrintChars)
    [] codec = "118" -> Two(PrintChars, {"E", " ", "X"}) \cup Two({"C", "G"}, PrintChars)
    [] codec = "196" -> { c \o d \o " " : c \in {" ", "A", "P", "X"}, d \in PrintChars } \cup
                        { c \o d \o " " : c \in DOMAIN NameFormat1, d \in DOMAIN NameFormat2 \cup {"X"} } \cup
                        { c \o "  " : c \in PrintChars } \cup { Rep(c, 3) : c \in PrintChars } \cup {" OA", "AMO"}
    [] codec \in TableCodecs -> PrintChars      \* the others are one column wide
    [] codec = "178" -> { c \o "00" : c \in PrintChars } \cup { c \o "30" : c \in UpperChars } \cup
                        {"   ", "Z  ", "AAA", "ZA0", "Z0A", "Z45", "A59", "000", "M01"}
    [] codec = "039" -> { c \o n : c \in {"E", "W", "T", "D", "G", " ", "0"}, n \in Numerals(w - 1) } \cup
                        { c \o n : c \in {"E", "W"}, n \in NonNumerals(w - 1) } \cup {Spaces(w)}
    [] codec = "027" -> Numerals(w) \cup NonNumerals(w) \cup { "T" \o n : n \in Numerals(w - 1) \cup NonNumerals(w - 1) }
    [] codec = "026" -> Numerals(w) \cup NonNumerals(w) \cup { n \o "T" : n \in Numerals(w - 1) \cup NonNumerals(w - 1) }
    [] codec = "032" -> Two(Two(DigitChars, DigitChars), {"01", "13", "00", "99"})
    [] codec = "031" -> Numerals(w)
    [] codec = "065" -> Two(DigitChars, DigitChars) \cup NonNumerals(w) \cup Two({"1", " "}, PrintChars)
    [] codec \in NumberCodecs -> Numerals(w) \cup NonNumerals(w)
    [] codec \in {"022"} -> PrintChars
    [] codec \in TextCodecs -> Texts(w) \cup { Fit(s, w) : s \in {"A", "AB", "ABC", "ABCD", "AB1", "A B", "A-B", "1"} }
    [] OTHER -> Texts(w)

Width(f) == IF Len(f.cols) = 1 THEN f.cols[1][2] - f.cols[1][1] + 1 ELSE 2

(* every definition and width in use, with its candidates by outcome; only *)
(* the route type (007) depends on the section                             *)
Uses == UNION { { <<Layouts[y][i].codec, Width(Layouts[y][i])>> : i \in 1..Len(Layouts[y]) } : y \in LayoutIds }
GoodOf(c, w, s) == SetToSeq({ v \in Candidates(c, w) : Decode(c, v, s).k = "ok" })
BadOf(c, w, s)  == SetToSeq({ v \in Candidates(c, w) : Decode(c, v, s).k # "ok" })
GoodTable == TLCEval([ u \in Uses |-> TLCEval(GoodOf(u[1], u[2], "ER")) ])
BadTable  == TLCEval([ u \in Uses |-> TLCEval(BadOf(u[1], u[2], "ER")) ])
-----------------------------------------------------------------------------
Dom(y) == 1..Len(Layouts[y])
(* A line is a base text with edits <<column, text>> applied in order.     *)
Apply(l, edits) == FoldLeft(LAMBDA acc, e : Put(acc, e[1], e[2]), l, edits)
FieldEdits(cs, v) == IF Len(cs) = 1 THEN <<<<cs[1][1], v>>>>
                     ELSE <<<<cs[1][1], First(v)>>, <<cs[2][1], Rest(v)>>>>

(* the columns that make a line a record of section s and layout y *)
Split(y) == \E i \in Dom(y) : Layouts[y][i].cols = <<<<5, 5>>, <<13, 13>>>>
ContNos  == SetToSeq(AlnumChars \ PrimaryNos)
SelOf(s, y) == LET k == Kinds[s]
               IN  IF \E x \in DOMAIN k.prim : k.prim[x] = y
                   THEN [p |-> TRUE,  col |-> k.psel[1], t |-> CHOOSE x \in DOMAIN k.prim : k.prim[x] = y]
                   ELSE IF \E x \in DOMAIN k.conts : k.conts[x] = y
                   THEN [p |-> FALSE, col |-> k.csel[1], t |-> CHOOSE x \in DOMAIN k.conts : k.conts[x] = y]
                   ELSE [p |-> FALSE, col |-> k.csel[1], t |-> "Q"]
PinSection(s, y) == IF Split(y) THEN <<<<5, First(s) \o " ">>, <<13, Rest(s)>>>> ELSE <<<<5, s>>>>
PinCont(s, y, i) == IF Kinds[s].cont = 0 THEN <<>>
                    ELSE <<<<Kinds[s].cont, IF SelOf(s, y).p THEN (IF i % 2 = 0 THEN "0" ELSE "1")
                                            ELSE ContNos[1 + (i % Len(ContNos))]>>>>
PinSel(s, y)     == <<<<SelOf(s, y).col, SelOf(s, y).t>>>>
Pins(s, y, i)    == PinSection(s, y) \o PinCont(s, y, i) \o PinSel(s, y)

(* columns outside all fields: blank, or text that would show if it were read *)
Filler == "S~ILLERCOLUMNSqwertyuiopasdfghjklzxcvbnmQWERTYUIOPASDFGHJKLZXCVBNM1029384756~!@#$%^&*()_+=-<>?:;azwsxedcrfvtgbyhnujmikolpXY012342605"
Base(i) == IF i % 3 = 0 THEN "T" \o Spaces(122) \o "543212513" ELSE Filler
ASSUME Len(Base(0)) = 132 /\ Len(Base(1)) = 132

AllFields(y, pick) == FlattenSeq([ j \in Dom(y) |-> FieldEdits(Layouts[y][j].cols, pick[j]) ])
Build(s, y, i, pick, more) == Apply(Base(i), AllFields(y, pick) \o more \o Pins(s, y, i))

(* the candidates of field j that decode, and the others *)
Use(y, j)  == <<Layouts[y][j].codec, Width(Layouts[y][j])>>
Good(y, j) == GoodTable[Use(y, j)]
Bad(y, j)  == BadTable[Use(y, j)]

(* field j is among the columns that Fix overwrites *)
Pinned(s, y, j) == \E q \in 1..Len(Layouts[y][j].cols) :
                     LET r == Layouts[y][j].cols[q]
                     IN  \/ r[1] <= 1 \/ r[1] >= 124
                         \/ 5 \in r[1]..r[2] \/ (Split(y) /\ (6 \in r[1]..r[2] \/ 13 \in r[1]..r[2]))
                         \/ Kinds[s].cont \in r[1]..r[2]

MaxBad == IF Thorough THEN 400 ELSE 24

Pick(good, i) == TLCEval([ j \in 1..Len(good) |-> good[j][1 + ((i + 13 * j + Offset) % Len(good[j]))] ])

Lines(s, y) ==
  LET good == TLCEval([ j \in Dom(y) |-> Good(y, j) ])
      bad  == TLCEval([ j \in Dom(y) |-> IF Pinned(s, y, j) THEN <<>> ELSE Bad(y, j) ])
      nn   == Min({MaxGood, Max({ Len(good[j]) : j \in Dom(y) } \cup { 40 })})
      ok   == [ i \in 1..nn |-> Build(s, y, i, Pick(good, i), <<>>) ]
      errs(j) == [ q \in 1..Min({Len(bad[j]), MaxBad}) |->
                     Build(s, y, q, Pick(good, q), FieldEdits(Layouts[y][j].cols, bad[j][q])) ]
  IN  ok \o FlattenSeq([ j \in Dom(y) |-> errs(j) ])

Jobs == { <<s, y>> \in Sections \X LayoutIds :
            \/ \E x \in DOMAIN Kinds[s].prim  : Kinds[s].prim[x] = y
            \/ \E x \in DOMAIN Kinds[s].conts : Kinds[s].conts[x] = y
            \/ Kinds[s].other = y }

FileOf(s, y)  == OutDir \o "/" \o First(s) \o Strip(Rest(s)) \o "-" \o y \o ".json"
Write(s, y)   == ndJsonSerialize(FileOf(s, y), Lines(s, y))

VARIABLES todoJob, isDone     \* names that are not used as parameters: see DESIGN.md
Init == todoJob \in Jobs /\ isDone = FALSE
Next == /\ ~isDone
        /\ isDone' = Write(todoJob[1], todoJob[2])
        /\ UNCHANGED todoJob
Spec == Init /\ [][Next]_<<todoJob, isDone>>
=============================================================================
