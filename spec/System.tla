------------------------------- MODULE System -------------------------------
(***************************************************************************)
(* The system of Record objects and module-level calls.                    *)
(*                                                                         *)
(* State: for every Record object the line it holds (0: none), and the      *)
(* files with the lines they hold.  Lines are                               *)
(* numbers; what a line is, is given by four operators:                    *)
(*   Acc(l)      the line is accepted                                      *)
(*   Ans(l, q)   what a new Record that has read just line l answers to    *)
(*               query q (l = 0: a Record that has read nothing)           *)
(*   Err(l)      "none", or the exception with which decoding it ends      *)
(*   Tab(l)      the table that decoding it shows                          *)
(* MCSystem instantiates them with abstract terms and explores all         *)
(* histories; TraceSystem instantiates them with recorded answers of the   *)
(* implementation and follows recorded histories.                          *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt

CONSTANTS Acc(_), Ans(_, _), Err(_), Tab(_)

-----------------------------------------------------------------------------
(* Record objects: h is a function from records to the line they hold      *)

AfterNew(h, r)     == [h EXCEPT ![r] = 0]
AfterRead(h, r, l) == [h EXCEPT ![r] = IF Acc(l) THEN l ELSE @]
QueryAnswer(h, r, q) == Ans(h[r], q)

(* A call that is interrupted, or that fails because of something outside,   *)
(* may leave a Record that it was reading unfinished: what it shows is not   *)
(* said until it accepts another line.  Nothing else is changed.             *)
Unfinished == 1000000
AfterBroken(h, e) == IF e.op = "read" THEN [h EXCEPT ![e.r] = Unfinished] ELSE h

(* parse(): True, False or the exception, and the tables shown *)
ParseAnswer(l) == IF ~Acc(l) THEN "F" ELSE IF Err(l) # "none" THEN Err(l) ELSE "T"
ParseTables(l, output) == IF output /\ Acc(l) /\ Err(l) = "none" THEN <<Tab(l)>> ELSE <<>>

(* read_file(): lines in order up to the first that cannot be decoded *)
Fails(l)      == Acc(l) /\ Err(l) # "none"
FailsAt(ls)   == { i \in 1..Len(ls) : Fails(ls[i]) }
EndsAt(ls)    == IF FailsAt(ls) = {} THEN Len(ls)
                 ELSE CHOOSE i \in FailsAt(ls) : \A k \in FailsAt(ls) : i <= k
FileAnswer(ls) == IF FailsAt(ls) = {} THEN "none" ELSE Err(ls[EndsAt(ls)])
FileTables(ls, output) ==
  LET seen == SelectSeq(SubSeq(ls, 1, EndsAt(ls)), LAMBDA l : Acc(l) /\ Err(l) = "none")
  IN  IF output THEN [ i \in 1..Len(seen) |-> Tab(seen[i]) ] ELSE <<>>

(* search(): the accepted lines that Hit *)
Found(ls, Hit(_)) == SelectSeq(ls, LAMBDA l : Acc(l) /\ Hit(l))

(* read_folder(): the files one after the other in some order, up to the    *)
(* first that ends with an exception                                        *)
Orders(n) == { p \in [1..n -> 1..n] : \A i, j \in 1..n : i # j => p[i] # p[j] }
FolderEnd(fs, p) ==
  LET bad == { i \in 1..Len(fs) : FileAnswer(fs[p[i]]) # "none" }
  IN  IF bad = {} THEN Len(fs) ELSE CHOOSE i \in bad : \A k \in bad : i <= k
FolderTables(fs, p) == FlattenSeq([ i \in 1..FolderEnd(fs, p) |-> FileTables(fs[p[i]], TRUE) ])
FolderAnswer(fs, p) == IF fs = <<>> THEN "none" ELSE FileAnswer(fs[p[FolderEnd(fs, p)]])
FolderMay(fs, answer, tables) ==
  \E p \in Orders(Len(fs)) : FolderAnswer(fs, p) = answer /\ FolderTables(fs, p) = tables
(* the same for many files, none of which fails or shows more than one table *)
FolderMayMany(fs, answer, tables) ==
  LET ts == FlattenSeq([ i \in 1..Len(fs) |-> FileTables(fs[i], TRUE) ])
      times(t, s) == Cardinality({ i \in 1..Len(s) : s[i] = t })
  IN  /\ answer = "none"
      /\ Len(tables) = Len(ts)
      /\ \A i \in 1..Len(ts) : times(ts[i], tables) = times(ts[i], ts)

-----------------------------------------------------------------------------
(* Files: d is a function from the names of the existing files of a folder  *)
(* to the lines they hold.  Calls see the files as they are at that time.   *)
NoFiles == [ f \in {} |-> <<>> ]
OpenError == "X:FileNotFoundError"
AfterWrite(d, f, ls)  == [ g \in DOMAIN d \cup {f} |-> IF g = f THEN ls ELSE d[g] ]
AfterAppend(d, f, ls) == AfterWrite(d, f, (IF f \in DOMAIN d THEN d[f] ELSE <<>>) \o ls)
AfterRemove(d, f)     == [ g \in DOMAIN d \ {f} |-> d[g] ]
DiskFileAnswer(d, f)     == IF f \in DOMAIN d THEN FileAnswer(d[f]) ELSE OpenError
DiskFileTables(d, f, output) == IF f \in DOMAIN d THEN FileTables(d[f], output) ELSE <<>>
DiskFound(d, f, Hit(_))  == IF f \in DOMAIN d THEN Found(d[f], Hit) ELSE <<>>
Contents(d)              == LET names == SetToSeq(DOMAIN d) IN [ i \in 1..Len(names) |-> d[names[i]] ]
=============================================================================
