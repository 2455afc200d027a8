-------------------------------- MODULE Text --------------------------------
(***************************************************************************)
(* Character-level vocabulary.  Text is a TLA+ string; the alphabet of the *)
(* model is printable ASCII plus the white space characters below, which   *)
(* may only surround a record.                                             *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

Char(s, i) == SubSeq(s, i, i)
First(s)   == SubSeq(s, 1, 1)
Rest(s)    == SubSeq(s, 2, Len(s))

DigitChars == {"0","1","2","3","4","5","6","7","8","9"}
UpperChars == {"A","B","C","D","E","F","G","H","I","J","K","L","M",
               "N","O","P","Q","R","S","T","U","V","W","X","Y","Z"}
LowerChars == {"a","b","c","d","e","f","g","h","i","j","k","l","m",
               "n","o","p","q","r","s","t","u","v","w","x","y","z"}
AlphaChars == UpperChars \cup LowerChars
AlnumChars == DigitChars \cup AlphaChars
PunctChars == {"!","\"","#","$","%","&","'","(",")","*","+",",","-",".","/",":",
               ";","<","=",">","?","@","[","\\","]","^","_","`","{","|","}","~"}
PrintChars == AlnumChars \cup PunctChars \cup {" "}
WhiteChars == {" ", "\t", "\n", "\r", "\f"}

(* every character of s is in C, and there is at least one *)
AllIn(s, C)  == Len(s) > 0 /\ \A i \in 1..Len(s) : Char(s, i) \in C
NoneIn(s, C) == \A i \in 1..Len(s) : Char(s, i) \notin C
IsDigits(s)  == AllIn(s, DigitChars)
IsAlnum(s)   == AllIn(s, AlnumChars)
IsAlpha(s)   == AllIn(s, AlphaChars)
IsBlank(s)   == \A i \in 1..Len(s) : Char(s, i) \in WhiteChars

Blanks    == "                                                                                                                                                      "
Spaces(n) == SubSeq(Blanks, 1, n)
Zeros(n)  == SubSeq("000000000000", 1, n)

(* s from its first to its last character outside C; not recursive, so that   *)
(* TLC recognises definitions built on it as constants                         *)
Trimmed(s, C, fromLeft, fromRight) ==
  LET keep == { i \in 1..Len(s) : Char(s, i) \notin C }
      lo   == IF fromLeft  THEN CHOOSE i \in keep : \A k \in keep : i <= k ELSE 1
      hi   == IF fromRight THEN CHOOSE i \in keep : \A k \in keep : i >= k ELSE Len(s)
  IN  IF keep = {} THEN "" ELSE SubSeq(s, lo, hi)
LStrip(s) == Trimmed(s, WhiteChars, TRUE, FALSE)
RStrip(s) == Trimmed(s, WhiteChars, FALSE, TRUE)
Strip(s)  == IF Len(s) > 0 /\ Char(s, 1) \notin WhiteChars /\ Char(s, Len(s)) \notin WhiteChars
             THEN s ELSE Trimmed(s, WhiteChars, TRUE, TRUE)

(* a decimal numeral without its leading zeros; zero keeps one *)
DropZeros(s) == LET n == Trimmed(s, {"0"}, TRUE, FALSE) IN IF n = "" THEN "0" ELSE n

(* the numeral v read as an integer and divided by 10^d, with d decimals *)
Scale(v, d) ==
  LET n == DropZeros(v)
      m == IF Len(n) > d THEN n ELSE Zeros(d + 1 - Len(n)) \o n
  IN  SubSeq(m, 1, Len(m) - d) \o "." \o SubSeq(m, Len(m) - d + 1, Len(m))

(* the numeral v with at least w digits and no other leading zeros *)
PadNum(v, w) == LET n == DropZeros(v)
                IN  IF Len(n) >= w THEN n ELSE Zeros(w - Len(n)) \o n

(* one digit as a number *)
DigitVal(c) == CHOOSE n \in 0..9 : <<"0","1","2","3","4","5","6","7","8","9">>[n + 1] = c

StartsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p

(* p occurs in s *)
Occurs(p, s) == \E i \in 0..(Len(s) - Len(p)) : SubSeq(s, i + 1, i + Len(p)) = p

(* t is s, possibly without some of the blanks at its end *)
EqualUpToTrailingBlanks(s, t) ==
  /\ Len(t) <= Len(s)
  /\ SubSeq(s, 1, Len(t)) = t
  /\ \A i \in (Len(t) + 1)..Len(s) : Char(s, i) = " "

(* at most four texts, separated by sep *)
JoinWith(ss, sep) ==
  CASE Len(ss) = 0 -> ""
    [] Len(ss) = 1 -> ss[1]
    [] Len(ss) = 2 -> ss[1] \o sep \o ss[2]
    [] Len(ss) = 3 -> ss[1] \o sep \o ss[2] \o sep \o ss[3]
    [] Len(ss) = 4 -> ss[1] \o sep \o ss[2] \o sep \o ss[3] \o sep \o ss[4]

(* n times the character c, n <= 256 *)
Rep(c, n) == LET c4 == c \o c \o c \o c    c16 == c4 \o c4 \o c4 \o c4
                 c64 == c16 \o c16 \o c16 \o c16
             IN  SubSeq(c64 \o c64 \o c64 \o c64, 1, n)
=============================================================================
