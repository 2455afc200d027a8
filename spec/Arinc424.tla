------------------------------ MODULE Arinc424 ------------------------------
(***************************************************************************)
(* What the library guarantees about one record (the pure part), and the   *)
(* system of Record objects, files and calls (the state machine).          *)
(***************************************************************************)
EXTENDS Text, Layouts, Codecs

-----------------------------------------------------------------------------
(* One record: everything is a function of the record's 132 characters.    *)

RecordLength == 132

Cols(l, r)   == SubSeq(l, r[1], r[2])
Text1(l, cs) == IF Len(cs) = 1 THEN Cols(l, cs[1]) ELSE Cols(l, cs[1]) \o Cols(l, cs[2])

(* 132 characters, standard or tailored, file record number and cycle numeric *)
WellFormed(l) == /\ Len(l) = RecordLength
                 /\ First(l) \in {"S", "T"}
                 /\ IsDigits(SubSeq(l, RecordLength - 8, RecordLength))

(* the section code of a well-formed line, or "" *)
Ident(l) == LET a == SubSeq(l, 5, 6)
                b == Char(l, 5) \o Char(l, 13)
            IN  IF a \in Sections THEN a ELSE IF b \in Sections THEN b ELSE ""

(* the continuation record number; types without one only have primary records *)
ContNo(l, id)   == IF Kinds[id].cont = 0 THEN "0" ELSE Char(l, Kinds[id].cont)
PrimaryNos      == {"0", "1"}
IsPrimaryNo(n)  == n \in PrimaryNos

(* the layout of a well-formed line of section id, or "" *)
LayoutIn(l, id) ==
  LET k == Kinds[id]
      n == ContNo(l, id)
  IN  IF n \notin AlnumChars THEN ""
      ELSE IF IsPrimaryNo(n)
      THEN LET s == Cols(l, k.psel) IN IF s \in DOMAIN k.prim THEN k.prim[s] ELSE ""
      ELSE LET s == Cols(l, k.csel) IN IF s \in DOMAIN k.conts THEN k.conts[s] ELSE k.other

LayoutOf(l) == IF ~WellFormed(l) THEN ""
               ELSE LET id == Ident(l) IN IF id = "" THEN "" ELSE LayoutIn(l, id)

(* line is what the caller passes, possibly surrounded by white space *)
Accepts(line) == LayoutOf(Strip(line)) # ""

(* queries on an accepted, stripped record *)
FieldsOf(l)  == Layouts[LayoutOf(l)]
Names(l)     == LET fs == FieldsOf(l) IN [i \in 1..Len(fs) |-> fs[i].name]
Values(l)    == LET fs == FieldsOf(l) IN [i \in 1..Len(fs) |-> Text1(l, fs[i].cols)]
Decoded(l)   == LET fs == FieldsOf(l)
                    id == Ident(l)
                IN  [i \in 1..Len(fs) |-> Decode(fs[i].codec, Text1(l, fs[i].cols), id)]
Primary(l)   == IsPrimaryNo(ContNo(l, Ident(l)))
HasCont(l)   == ContNo(l, Ident(l)) = "1"

(* whether decoding may / must fail *)
MustFail(l) == \E i \in 1..Len(Decoded(l)) : Decoded(l)[i].k = "err"
MayFail(l)  == \E i \in 1..Len(Decoded(l)) : Decoded(l)[i].k # "ok"
=============================================================================
