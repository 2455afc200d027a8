------------------------------ MODULE GenFields ------------------------------
(***************************************************************************)
(* Test input for single fields.  One state per field definition and width *)
(* (written to OUT/use-<codec>-<width>.json: the texts of that width that  *)
(* distinguish meanings, complete where the domain is small enough) and one *)
(* per record type and layout (OUT/job-<section>-<layout>.json: its fields).*)
(* What each text means in each place is judged by the Trace modules.       *)
(***************************************************************************)
EXTENDS GenLines

Three(a, b, c) == { x \o y \o z : x \in a, y \in b, z \in c }
Digits2 == Two(DigitChars, DigitChars)
Digits3 == Two(Digits2, DigitChars)
Digits4 == Two(Digits2, Digits2)
Mixed   == {"0", "1", "5", "9", " ", "A", "T", "-", ".", "x"}

DigitsOf(w) == CASE w = 1 -> DigitChars
                 [] w = 2 -> Digits2
                 [] w = 3 -> Digits3
                 [] w = 4 -> Digits4
                 [] w = 5 /\ Thorough -> Two(Digits4, DigitChars)
                 [] OTHER -> Numerals(w) \cup { d \o Rep("0", w - 4) : d \in Digits4 }

MixedOf(w) == CASE w = 1 -> PrintChars
                [] w = 2 -> Two(PrintChars, PrintChars)
                [] w = 3 -> Three(Mixed, Mixed, Mixed)
                [] OTHER -> NonNumerals(w) \cup { Fit(d, w) : d \in Three(Mixed, Mixed, Mixed) }

Codes3 == UpperChars \cup {" ", "0"}

Full(codec, w) ==
  CASE w = 1 -> PrintChars
    [] codec \in {"003", "101", "106"} -> Three(Codes3, Codes3, Codes3) \cup Candidates(codec, w)
    [] codec \in {"042", "196"} -> Three(PrintChars, PrintChars, {" ", "B"}) \cup Candidates(codec, w)
    [] codec = "017" -> { a \o b \o c \o d : a \in DOMAIN WaypointDesc1 \cup {" ", "Y"}, b \in DOMAIN WaypointDesc2 \cup {" ", "A"},
                          c \in DOMAIN WaypointDesc3 \cup {" ", "E"}, d \in DOMAIN WaypointDesc4 \cup {" ", "Y"} } \cup Candidates(codec, w)
    [] codec = "178" -> Two(PrintChars, Digits2) \cup Candidates(codec, w)
    [] codec = "039" -> Two({"E", "W"}, DigitsOf(w - 1)) \cup Two(PrintChars, {Zeros(w - 1), SubSeq("0129", 1, w - 1)}) \cup
                        Two({"E", "D"}, MixedOf(w - 1)) \cup Candidates(codec, w)
    [] codec = "032" -> Digits4
    [] codec = "026" -> DigitsOf(w) \cup MixedOf(w) \cup { d \o "T" : d \in DigitsOf(w - 1) } \cup Candidates(codec, w)
    [] codec = "027" -> DigitsOf(w) \cup MixedOf(w) \cup { "T" \o d : d \in DigitsOf(w - 1) } \cup Candidates(codec, w)
    [] codec \in NumberCodecs -> DigitsOf(w) \cup MixedOf(w) \cup Candidates(codec, w)
    [] w = 2 -> Two(PrintChars, PrintChars)
    [] codec \in TextCodecs /\ w = 3 -> Three(Mixed, Mixed, Mixed) \cup Candidates(codec, w)
    [] OTHER -> Candidates(codec, w) \cup { Fit(d, w) : d \in Digits2 }

GenKind == IOEnv.GEN_KIND
Wanted == CASE GenKind = "table"  -> TableCodecs
            [] GenKind = "number" -> NumberCodecs
            [] GenKind = "text"   -> TextCodecs
            [] GenKind = "every"  -> { u[1] : u \in Uses }
            [] OTHER           -> SpecialCodecs
UsesSpecial == { u \in Uses : u[1] \in Wanted }
UseFile(u) == OutDir \o "/use-" \o u[1] \o "-" \o ToString(u[2]) \o ".json"
JobFile(s, y) == OutDir \o "/job-" \o First(s) \o Strip(Rest(s)) \o "-" \o y \o ".json"

(* texts that decode whatever the record, and the others: for every use, and *)
(* the rest of the domain                                                    *)
Decodes(u, v) == Decode(u[1], v, "ER").k = "ok"
Parted(u, vs) == << SetToSeq({ v \in vs : Decodes(u, v) }), SetToSeq({ v \in vs : ~Decodes(u, v) }) >>
WriteUse(u) == LET few == Candidates(u[1], u[2])
               IN  ndJsonSerialize(UseFile(u), Parted(u, few) \o (IF GenKind \in {"all", "every"} THEN << >> ELSE Parted(u, Full(u[1], u[2]) \ few)))
WriteJob(s, y) == ndJsonSerialize(JobFile(s, y),
                    [ i \in Dom(y) |-> [ n |-> Layouts[y][i].name, codec |-> Layouts[y][i].codec, w |-> Width(Layouts[y][i]),
                                         c |-> Layouts[y][i].cols ] ])

FInit == todoJob \in (Jobs \cup UsesSpecial) /\ isDone = FALSE
FNext == /\ ~isDone
         /\ isDone' = IF todoJob \in UsesSpecial THEN WriteUse(todoJob) ELSE WriteJob(todoJob[1], todoJob[2])
         /\ UNCHANGED todoJob
FSpec == FInit /\ [][FNext]_<<todoJob, isDone>>
=============================================================================
