---------------------------- MODULE TraceSystem ----------------------------
(***************************************************************************)
(* Follows recorded histories of the implementation through System.tla.    *)
(*   FRESH   the catalogue of lines: text l, core (the number of the same  *)
(*           line without surrounding white space), fr (what new Records   *)
(*           in processes of their own answered), ro (what read() printed) *)
(*   TRACE   histories: ev, the events, and res, the recorded responses    *)
(* The line number 0, "nothing read", is the first entry of FRESH.         *)
(* One state per event; an event that the specification does not allow is  *)
(* reported (BAD) and the history goes on with the specified state.        *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils, Text

Traces == ndJsonDeserialize(IOEnv.TRACE)
Fresh  == ndJsonDeserialize(IOEnv.FRESH)
Prop   == IOEnv.PROP

LineText(l) == Fresh[l + 1].l
Core(l)     == Fresh[l + 1].core
Cored(ls)   == [ i \in 1..Len(ls) |-> Core(ls[i]) ]
Of(l, q)    == Fresh[l + 1].fr[q]
Has(l, q)   == q \in DOMAIN Fresh[l + 1].fr

(* the catalogue pairs lines with what they are without white space *)
ASSUME \A i \in 2..Len(Fresh) : Fresh[Fresh[i].core + 1].l = Strip(Fresh[i].l)

IsTab(t) == First(t) = "T"
Tables(o) == SelectSeq(o, IsTab)

TAcc(l)    == Of(l, "read").a = "T"
TAns(l, q) == Of(l, q)
TErr(l)    == LET a == Of(l, "decode0").a IN IF StartsWith(a, "X:") THEN a ELSE "none"
TTab(l)    == LET t == Tables(Of(l, "decode1").o) IN IF Len(t) = 1 THEN t[1] ELSE "no single table"

Sys == INSTANCE System WITH Acc <- TAcc, Ans <- TAns, Err <- TErr, Tab <- TTab

Shows(q) == q # "parse0"
Hits(l, flt) == \A i \in 1..Len(flt) : Occurs(flt[i], LineText(l))

(* what a rejected line of the file makes read() print *)
Noise(ls) == UNION { { Fresh[ls[i] + 1].ro[k] : k \in 1..Len(Fresh[ls[i] + 1].ro) } :
                     i \in { i \in 1..Len(ls) : ~TAcc(ls[i]) } }

If(b, t) == IF b THEN {t} ELSE {}

WrongCall(h, d, e, x) ==
  CASE e.op = "new"   -> {}
    [] e.op = "read"  -> If(x.a # Of(Core(e.l), "read").a, "read() answers " \o x.a)
    [] e.op = "query" /\ h[e.r] = Sys!Unfinished -> {}
    [] e.op = "query" -> LET w == Sys!QueryAnswer(h, e.r, e.q)
                         IN  If(x.a # w.a, e.q \o " answers differently") \cup
                             If(x.o # w.o, e.q \o " prints something else")
    [] e.op = "count" -> If(h[e.r] = 0 /\ x.a # "F F 0 0", "a Record that holds nothing is not empty: " \o x.a)
    [] e.op = "parse" -> LET l == Core(e.l)
                         IN  If(x.a # Sys!ParseAnswer(l), "parse() answers " \o x.a \o ", not " \o Sys!ParseAnswer(l)) \cup
                             If(Tables(x.o) # Sys!ParseTables(l, Shows(e.q)), "parse() shows other tables")
    [] e.op = "file"  -> LET ls == TLCEval(Cored(e.ls))
                         IN  If(x.a # Sys!FileAnswer(ls), "read_file() ends with " \o x.a \o ", not " \o Sys!FileAnswer(ls)) \cup
                             If(Tables(x.o) # Sys!FileTables(ls, Shows(e.q)), "read_file() shows other tables")
    [] e.op = "search" ->
         LET ls == TLCEval(Cored(e.ls))
             want == TLCEval(Sys!Found(ls, LAMBDA l : Hits(l, e.flt)))
             noise == TLCEval(Noise(ls))
             got == SelectSeq(x.o, LAMBDA t : t \notin noise)
         IN  If(x.a # "none", "search() ends with " \o x.a) \cup
             If(got # [ i \in 1..Len(want) |-> LineText(want[i]) ], "search() shows other records") \cup
             If(x.n # ToString(Len(want)), "search() counts " \o x.n)
    [] e.op = "folder" ->
         LET fs == TLCEval([ i \in 1..Len(e.files) |-> Cored(e.files[i].ls) ])
         IN  If(IF Len(fs) <= 6 THEN ~Sys!FolderMay(fs, x.a, Tables(x.o)) ELSE ~Sys!FolderMayMany(fs, x.a, Tables(x.o)),
                "read_folder() shows something else than its files")
    [] e.op \in {"write", "append", "remove", "world"} -> {}
    [] e.op = "dfile" ->
         If(x.a # Sys!DiskFileAnswer(d, e.f), "read_file() ends with " \o x.a \o ", not " \o Sys!DiskFileAnswer(d, e.f)) \cup
         If(Tables(x.o) # Sys!DiskFileTables(d, e.f, Shows(e.q)), "read_file() shows other tables than those of the file now")
    [] e.op = "dsearch" ->
         IF e.f \notin DOMAIN d THEN If(x.a # Sys!OpenError, "search() in a missing file ends with " \o x.a)
         ELSE LET want == TLCEval(Sys!DiskFound(d, e.f, LAMBDA l : Hits(l, e.flt)))
                  noise == TLCEval(Noise(d[e.f]))
                  got == SelectSeq(x.o, LAMBDA t : t \notin noise)
              IN  If(x.a # "none", "search() ends with " \o x.a) \cup
                  If(got # [ i \in 1..Len(want) |-> LineText(want[i]) ], "search() shows other records than those of the file now") \cup
                  If(x.n # ToString(Len(want)), "search() counts " \o x.n)
    [] e.op = "dfolder" ->
         If(~Sys!FolderMay(Sys!Contents(d), x.a, Tables(x.o)), "read_folder() shows something else than its files now")

(* "world": the surroundings of the process change, and nothing else.        *)
(* "int": the call e.e was to be interrupted at its k-th step; x.hit says     *)
(* whether it took that many.  "env": the state of the process.  "bad": a    *)
(* call with something that is no record, file or folder; any answer goes.   *)
Changed(x) == If(StartsWith(x.a, "changed"), x.a)
Wrong(t, p, h, d) ==
  LET e == t.ev[p]
      x == t.res[p]
  IN  CASE e.op = "int" -> IF x.hit = "T" THEN Changed(x) ELSE WrongCall(h, d, e.e, x)
        [] e.op = "bad" -> Changed(x)
        [] e.op = "env" -> LET was == t.res[CHOOSE i \in 1..p : t.ev[i].op = "env" /\ \A m \in 1..(i - 1) : t.ev[m].op # "env"].env
                           IN  { "the call before changed the process: " \o n : n \in { n \in DOMAIN was : was[n] # x.env[n] } }
        [] OTHER -> WrongCall(h, d, e, x)

AfterCall(h, e) ==
  CASE e.op = "new"  -> Sys!AfterNew(h, e.r)
    [] e.op = "read" -> Sys!AfterRead(h, e.r, Core(e.l))
    [] OTHER         -> h

After(t, p, h) ==
  LET e == t.ev[p]
  IN  IF e.op # "int" THEN AfterCall(h, e)
      ELSE IF p <= Len(t.res) /\ t.res[p].hit = "T" THEN Sys!AfterBroken(h, e.e) ELSE AfterCall(h, e.e)

AfterDisk(d, e) ==
  CASE e.op = "write"  -> Sys!AfterWrite(d, e.f, Cored(e.ls))
    [] e.op = "append" -> Sys!AfterAppend(d, e.f, Cored(e.ls))
    [] e.op = "remove" -> Sys!AfterRemove(d, e.f)
    [] OTHER           -> d

Judge(k, p, h, d) ==
  LET t == Traces[k]
      w == IF p > Len(t.res) THEN {"no answer: the process ended"} ELSE Wrong(t, p, h, d)
  IN  IF w = {} THEN 0
      ELSE IF PrintT("BAD " \o ToJson([k |-> k, p |-> p, what |-> w])) THEN 1 ELSE 1

VARIABLES traceNo, at, held, disk, bads
Init == /\ traceNo \in 1..Len(Traces)
        /\ at = 1
        /\ held = [ r \in 1..2 |-> 0 ]
        /\ disk = Sys!NoFiles
        /\ bads = 0
Next == /\ at <= Len(Traces[traceNo].ev)
        /\ bads' = bads + Judge(traceNo, at, held, disk)
        /\ held' = After(Traces[traceNo], at, held)
        /\ disk' = AfterDisk(disk, Traces[traceNo].ev[at])
        /\ at' = at + 1
        /\ UNCHANGED traceNo
Spec == Init /\ [][Next]_<<traceNo, at, held, disk, bads>>
=============================================================================
