------------------------------ MODULE MCSystem ------------------------------
(***************************************************************************)
(* All histories of System.tla up to a depth, over a few abstract lines:   *)
(*   1, 2  accepted and decodable    3  accepted, decoding it fails        *)
(*   4     rejected                  5  blank (rejected)                   *)
(* Checks the properties C12 to C20, C22 and C23 on the specification, each said in a   *)
(* way that does not mention how System.tla computes it, and prints every  *)
(* history of full depth (HIST), to be replayed on the implementation.     *)
(* FAMILY selects the operations, DEPTH the length.                        *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils

Family == IOEnv.FAMILY
Depth  == atoi(IOEnv.DEPTH)

MAcc(l)    == l \in {1, 2, 3}
MErr(l)    == IF l = 3 THEN "X:ValueError" ELSE "none"
MAns(l, q) == IF l = 3 /\ q \in {"decode", "decode0", "decode1"} THEN <<"X:ValueError", 3>> ELSE <<q, l>>
MTab(l)    == l
Sys == INSTANCE System WITH Acc <- MAcc, Ans <- MAns, Err <- MErr, Tab <- MTab

Recs == {1, 2}
AllQueries == {"decode", "decode0", "decode1", "json", "json01", "json11", "json00", "json10", "primary", "hasCont"}

Seqs(S, n) == UNION { [1..k -> S] : k \in 0..n }

(* the operations of a family *)
New(rs)      == { [op |-> "new", r |-> r] : r \in rs }
Read(rs, ls) == { [op |-> "read", r |-> r, l |-> l] : r \in rs, l \in ls }
Query(rs, qs) == { [op |-> "query", r |-> r, q |-> q] : r \in rs, q \in qs }
Parse(ls, qs) == { [op |-> "parse", l |-> l, q |-> q] : l \in ls, q \in qs }
File(fs, qs, nls) == { [op |-> "file", ls |-> f, q |-> q, nl |-> n, fin |-> b] : f \in fs, q \in qs, n \in nls, b \in BOOLEAN }
Search(fs, ws) == { [op |-> "search", ls |-> f, want |-> w] : f \in fs, w \in ws }
Folder(fss, ns) == { [op |-> "folder", fs |-> f, subs |-> n] : f \in fss, n \in ns }

Enter(ws)       == { [op |-> "world", w |-> w] : w \in ws }
Int(es)         == { [op |-> "int", e |-> e] : e \in es }
Write(fs, lss)  == { [op |-> o, f |-> f, ls |-> ls] : o \in {"write", "append"}, f \in fs, ls \in lss }
Remove(fs)      == { [op |-> "remove", f |-> f] : f \in fs }
DFile(fs, qs)   == { [op |-> "dfile", f |-> f, q |-> q] : f \in fs, q \in qs }
DSearch(fs, ws) == { [op |-> "dsearch", f |-> f, want |-> w] : f \in fs, w \in ws }
DFolder         == { [op |-> "dfolder"] }

(* what a search looks for, in abstract: everything, line 1 only, nothing  *)
WantSet(w) == CASE w = "all" -> {1, 2, 3} [] w = "one" -> {1} [] w = "none" -> {} [] w = "both" -> {1, 2}

SomeFiles == { <<>>, <<1>>, <<2, 1>>, <<4, 1, 5>>, <<1, 3, 2>>, <<3>> }
Ops ==
  CASE Family = "reuse"   -> Read({1}, {1, 2, 3, 4}) \cup Query({1}, {"decode1", "json01", "hasCont"})
    [] Family = "reject"  -> Read({1}, {1, 3, 4, 5}) \cup Query({1}, {"decode0", "primary"}) \cup New({1})
    [] Family = "queries" -> Query({1}, AllQueries) \cup Query({2}, {"decode1", "json10"}) \cup Read({1, 2}, {1, 2})
    [] Family = "two"     -> Read(Recs, {1, 2}) \cup Query(Recs, {"decode1", "json01"}) \cup Parse({2}, {"parse1"}) \cup Read({1}, {4})
    [] Family = "mixed"   -> Read({1}, {1, 3}) \cup New({1}) \cup Query({1}, {"decode0"}) \cup Parse({1, 2, 3, 4}, {"parse1"}) \cup
                             File({<<2, 1>>, <<3>>}, {"parse1"}, {"n"}) \cup Search({<<1, 4, 2>>}, {"all"}) \cup Folder({<< <<2>>, <<1>> >>}, {0})
    [] Family = "parse"   -> Parse({1, 2, 3, 4, 5}, {"parse", "parse0", "parse1"}) \cup Read({1}, {1, 2})
    [] Family = "files"   -> File(Seqs({1, 2, 3, 4, 5}, 4), {"parse", "parse0", "parse1"}, {"n", "rn", "r"})
    [] Family = "search"  -> Search(Seqs({1, 2, 3, 4, 5}, 4), {"all", "one", "none", "both"})
    [] Family = "folders" -> Folder(Seqs(SomeFiles, 3), {0, 1, 2})
    [] Family = "disk"    -> Write({1, 2}, { <<1>>, <<2>> }) \cup Write({1}, { <<4, 2, 1>>, <<3, 1>>, <<>> }) \cup Remove({1}) \cup
                             DFile({1, 2}, {"parse1"}) \cup DSearch({1}, {"all", "one"}) \cup DFolder

    [] Family = "world" ->
         Enter({0, 1, 2}) \cup Read({1}, {1, 4}) \cup Query({1}, {"decode1", "json10"}) \cup Parse({1, 3}, {"parse1"}) \cup
         File({<<2, 4, 1>>}, {"parse1"}, {"rn"}) \cup Search({<<1, 4, 2>>}, {"one"}) \cup Folder({<< <<2>>, <<1>> >>}, {0})
    [] Family = "interrupt" ->
         Int(Read({1, 2}, {1, 2}) \cup Read({1}, {4}) \cup Query({1}, {"decode1", "json10"}) \cup Parse({1, 3}, {"parse1"}) \cup
             File({<<2, 1>>}, {"parse1"}, {"n"}) \cup Search({<<1, 4, 2>>}, {"all"}) \cup Folder({<< <<2>>, <<1>> >>}, {0})) \cup
         Read({1, 2}, {1, 2}) \cup Query({1, 2}, {"decode0", "json01"}) \cup Read({1}, {4}) \cup
         Parse({2}, {"parse1"}) \cup File({<<1, 2>>}, {"parse1"}, {"n"})

VARIABLES hist, held, disk, world
vs == <<hist, held, disk, world>>

(* the response of an operation *)
Resp(e, h, d) ==
  CASE e.op = "new"    -> "none"
    [] e.op = "read"   -> MAcc(e.l)
    [] e.op = "query"  -> Sys!QueryAnswer(h, e.r, e.q)
    [] e.op = "parse"  -> << Sys!ParseAnswer(e.l), Sys!ParseTables(e.l, e.q # "parse0") >>
    [] e.op = "file"   -> << Sys!FileAnswer(e.ls), Sys!FileTables(e.ls, e.q # "parse0") >>
    [] e.op = "search" -> Sys!Found(e.ls, LAMBDA l : l \in WantSet(e.want))
    [] e.op = "folder" -> { << Sys!FolderAnswer(e.fs, p), Sys!FolderTables(e.fs, p) >> : p \in Sys!Orders(Len(e.fs)) }
    [] e.op \in {"write", "append", "remove", "int", "world"} -> "none"
    [] e.op = "dfile"   -> << Sys!DiskFileAnswer(d, e.f), Sys!DiskFileTables(d, e.f, e.q # "parse0") >>
    [] e.op = "dsearch" -> << IF e.f \in DOMAIN d THEN "none" ELSE Sys!OpenError, Sys!DiskFound(d, e.f, LAMBDA l : l \in WantSet(e.want)) >>
    [] e.op = "dfolder" -> LET fs == Sys!Contents(d) IN { << Sys!FolderAnswer(fs, p), Sys!FolderTables(fs, p) >> : p \in Sys!Orders(Len(fs)) }

AfterDisk(e, d) == CASE e.op = "write"  -> Sys!AfterWrite(d, e.f, e.ls)
                     [] e.op = "append" -> Sys!AfterAppend(d, e.f, e.ls)
                     [] e.op = "remove" -> Sys!AfterRemove(d, e.f)
                     [] OTHER -> d

After(e, h) == CASE e.op = "new"  -> Sys!AfterNew(h, e.r)
                 [] e.op = "read" -> Sys!AfterRead(h, e.r, e.l)
                 [] e.op = "int"  -> Sys!AfterBroken(h, e.e)
                 [] OTHER -> h

(* records and the two interchangeable lines are named in the order of their use *)
Inner(e)    == IF e.op = "int" THEN e.e ELSE e
UsesRec(e)  == IF e.op \in {"new", "read", "query"} THEN {e.r} ELSE {}
UsesLine(e) == IF e.op \in {"read", "parse"} THEN {e.l} ELSE IF e.op = "file" \/ e.op = "search" THEN { e.ls[i] : i \in 1..Len(e.ls) } ELSE {}
PastRecs  == UNION { UsesRec(Inner(hist[i].e)) : i \in 1..Len(hist) }
PastLines == UNION { UsesLine(hist[i].e) : i \in 1..Len(hist) }
InOrder(e) == /\ (2 \in UsesRec(Inner(e)) => 1 \in PastRecs)
              /\ (UsesLine(e) = {2} /\ Family \in {"reuse", "two", "parse", "queries"} => 1 \in PastLines)

Init == hist = <<>> /\ held = [ r \in Recs |-> 0 ] /\ disk = Sys!NoFiles /\ world = 0
Next == /\ Len(hist) < Depth
        /\ \E e \in Ops :
             /\ InOrder(e)
             /\ hist' = Append(hist, [e |-> e, x |-> Resp(e, held, disk)])
             /\ held' = After(e, held)
             /\ disk' = AfterDisk(e, disk)
             /\ world' = IF e.op = "world" THEN e.w ELSE world
Spec == Init /\ [][Next]_vs

Emit == Len(hist) = Depth => PrintT("HIST " \o ToJson([ i \in 1..Len(hist) |-> hist[i].e ]))

-----------------------------------------------------------------------------
Idx == 1..Len(hist)
Ev(i) == hist[i].e
Rs(i) == hist[i].x

(* C12: a record holds the last line it accepted since it was made *)
Reads(r, n)  == { i \in 1..n : (Ev(i).op = "read" /\ Ev(i).r = r /\ Ev(i).l \in {1, 2, 3}) \/ (Ev(i).op = "new" /\ Ev(i).r = r) }
HeldAt(r, n) == IF Reads(r, n) = {} THEN 0
                ELSE LET i == CHOOSE i \in Reads(r, n) : \A k \in Reads(r, n) : k <= i
                     IN  IF Ev(i).op = "new" THEN 0 ELSE Ev(i).l
SpecC12 == Family # "interrupt" =>
             /\ \A r \in Recs : held[r] = HeldAt(r, Len(hist))
             /\ \A i \in Idx : Ev(i).op = "query" => Rs(i) = MAns(HeldAt(Ev(i).r, i - 1), Ev(i).q)
(* C13: rejected reads change nothing *)
SpecC13 == [][ LET e == hist'[Len(hist')].e IN e.op = "read" /\ e.l \in {4, 5} => held' = held ]_vs
(* C14: only an operation on a record itself changes what it shows *)
SpecC14 == [][ LET e == Inner(hist'[Len(hist')].e) IN \A r \in Recs : r \notin UsesRec(e) => held'[r] = held[r] ]_vs
(* C15: the same query gives the same answer until the record reads another line *)
SpecC15 == /\ [][ LET e == hist'[Len(hist')].e IN e.op = "query" => held' = held ]_vs
SpecC15b == Family # "interrupt" => \A i, k \in Idx :
              (i < k /\ Ev(i).op = "query" /\ Ev(k).op = "query" /\ Ev(i).q = Ev(k).q /\ Ev(i).r = Ev(k).r
               /\ Reads(Ev(i).r, k) = Reads(Ev(i).r, i)) => Rs(i) = Rs(k)
(* C16: all that is shown is what parse() shows line by line, until one line fails *)
SpecC16 == \A i \in Idx : Ev(i).op = "file" =>
             LET ls == Ev(i).ls
                 good(k) == ls[k] \in {1, 2}
                 before(k) == \A m \in 1..(k - 1) : ls[m] # 3
                 shown == { k \in 1..Len(ls) : good(k) /\ before(k) }
                 x == Rs(i)
             IN  /\ x[1] = (IF \E k \in 1..Len(ls) : ls[k] = 3 THEN "X:ValueError" ELSE "none")
                 /\ Len(x[2]) = (IF Ev(i).q = "parse0" THEN 0 ELSE Cardinality(shown))
                 /\ Ev(i).q # "parse0" => \A k \in shown : x[2][Cardinality({ m \in shown : m <= k })] = ls[k]
(* C17: exactly the wanted records, in order, each occurrence *)
SpecC17 == \A i \in Idx : Ev(i).op = "search" =>
             LET ls == Ev(i).ls
                 hit == { k \in 1..Len(ls) : ls[k] \in WantSet(Ev(i).want) }
             IN  /\ Len(Rs(i)) = Cardinality(hit)
                 /\ \A k \in hit : Rs(i)[Cardinality({ m \in hit : m <= k })] = ls[k]
(* C18: when all files can be decoded, every file's tables, whatever the order *)
Total(fs, l) == Cardinality({ <<f, k>> \in (1..Len(fs)) \X (1..4) : k <= Len(fs[f]) /\ fs[f][k] = l })
Count(s, l)  == Cardinality({ k \in 1..Len(s) : s[k] = l })
SpecC18 == \A i \in Idx : Ev(i).op = "folder" =>
             LET fs == Ev(i).fs
             IN  IF \A f \in 1..Len(fs) : \A k \in 1..Len(fs[f]) : fs[f][k] # 3
                 THEN \A x \in Rs(i) : x[1] = "none" /\ \A l \in {1, 2} : Count(x[2], l) = Total(fs, l)
                 ELSE \A x \in Rs(i) : x[1] = "X:ValueError" /\ \A l \in {1, 2} : Count(x[2], l) <= Total(fs, l)
(* C20: what a file holds is what was written last and appended since; what   *)
(* was read before, and the other file, do not matter                         *)
RECURSIVE LinesAt(_, _)
LinesAt(f, n) == IF n = 0 THEN <<0>>                     \* <<0>>: there is no such file
                 ELSE LET e == Ev(n) IN
                      IF e.op \in {"write", "append", "remove"} /\ e.f = f
                      THEN CASE e.op = "write"  -> e.ls
                             [] e.op = "remove" -> <<0>>
                             [] OTHER -> (IF LinesAt(f, n - 1) = <<0>> THEN <<>> ELSE LinesAt(f, n - 1)) \o e.ls
                      ELSE LinesAt(f, n - 1)
SpecC20 == \A i \in Idx :
             /\ Ev(i).op = "dfile" =>
                  LET ls == LinesAt(Ev(i).f, i - 1)
                  IN  IF ls = <<0>> THEN Rs(i) = << "X:FileNotFoundError", <<>> >>
                      ELSE /\ (Rs(i)[1] = "X:ValueError") = (\E k \in 1..Len(ls) : ls[k] = 3)
                           /\ Rs(i)[1] = "none" => Rs(i)[2] = SelectSeq(ls, LAMBDA l : l \in {1, 2})
             /\ Ev(i).op = "dsearch" =>
                  LET ls == LinesAt(Ev(i).f, i - 1)
                  IN  IF ls = <<0>> THEN Rs(i) = << "X:FileNotFoundError", <<>> >>
                      ELSE Rs(i) = << "none", SelectSeq(ls, LAMBDA l : l \in WantSet(Ev(i).want)) >>
             /\ Ev(i).op = "dfolder" =>
                  \A x \in Rs(i) : x[1] = "none" => \A l \in {1, 2} :
                     Count(x[2], l) = Count(LinesAt(1, i - 1), l) + Count(LinesAt(2, i - 1), l)
SpecC20b == [][ LET e == hist'[Len(hist')].e IN e.op \notin {"write", "append", "remove"} => disk' = disk ]_vs
(* C22: a call that is broken off changes nothing but the Record it reads,    *)
(* and the next line that Record accepts makes it whole                      *)
SpecC22 == [][ LET e == hist'[Len(hist')].e
               IN  /\ e.op = "int" => /\ disk' = disk
                                      /\ \A r \in Recs : (e.e.op = "read" => e.e.r # r) => held'[r] = held[r]
                   /\ e.op = "read" /\ e.l \in {1, 2, 3} => held'[e.r] = e.l ]_vs
Broken(r, n) == \E i \in 1..n : /\ Ev(i).op = "int" /\ Ev(i).e.op = "read" /\ Ev(i).e.r = r
                               /\ \A k \in Reads(r, n) : k < i
SpecC22b == \A i \in Idx : Ev(i).op = "query" /\ ~Broken(Ev(i).r, i - 1) => Rs(i) = MAns(HeldAt(Ev(i).r, i - 1), Ev(i).q)
(* C23: the surroundings of the process have no say: equal calls on equal    *)
(* records and files are answered equally in all of them                     *)
WorldAt(n) == LET ws == { i \in 1..n : Ev(i).op = "world" }
              IN  IF ws = {} THEN 0 ELSE Ev(CHOOSE i \in ws : \A k \in ws : k <= i).w
SpecC23 == Family = "world" =>
             /\ world = WorldAt(Len(hist))
             /\ \A i, k \in Idx : (Ev(i) = Ev(k) /\ WorldAt(i) # WorldAt(k)
                                   /\ (Ev(i).op = "query" => HeldAt(Ev(i).r, i) = HeldAt(Ev(k).r, k))) => Rs(i) = Rs(k)
SpecC23b == [][ hist'[Len(hist')].e.op = "world" => held' = held /\ disk' = disk ]_vs
(* C19: parse() has no memory, and is a new Record's read() and decode() *)
SpecC19 == \A i \in Idx : Ev(i).op = "parse" =>
             LET l == Ev(i).l
                 d == MAns(l, "decode1")
             IN  /\ (Rs(i)[1] = "F") = ~MAcc(l)
                 /\ (Rs(i)[1] = "X:ValueError") = (MAcc(l) /\ d[1] = "X:ValueError")
                 /\ Rs(i)[2] = IF MAcc(l) /\ d[1] # "X:ValueError" /\ Ev(i).q # "parse0" THEN <<l>> ELSE <<>>
=============================================================================
