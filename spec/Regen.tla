------------------------------- MODULE Regen --------------------------------
(* Histories of a project that is generated again and again: the user edits, adds and removes the    *)
(* files that belong to them, the workflow changes, the generator runs, implementation files get     *)
(* damaged or left over.  The state is what every file has to be:                                    *)
(*   user[f]   "absent", "own" (the user's text) or "stub k" (what the generator wrote for Docs[k])  *)
(*   impl      what the files that belong to the generator have to be: 0 nothing is known,           *)
(*             k exactly what a first generation of Docs[k] writes                                   *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, SequencesExt, FiniteSetsExt

CONSTANTS Walks, Steps,   \* random histories
          Small           \* TRUE: all the histories of a project with few files, to check the properties

\* ---- the workflows (records as in Workflow.tla)
Act(c, r, b) == [conc |-> c, resp |-> r, bcs |-> b]
Bc(r) == [ref |-> r, opt |-> FALSE]
BcO(r) == [ref |-> r, opt |-> TRUE]
Rq(r, e, a) == [k |-> "req", ref |-> r, err |-> e, acts |-> a]
Ev(r, b) == [k |-> "evt", ref |-> r, bcs |-> b]
Bn(r) == [k |-> "bcn", refs |-> r]
Cf(i) == [k |-> "cfg", items |-> i]
It(k, v) == [key |-> k, val |-> v]
Both == <<It("Producer", <<"rust", "typescript">>), It("Consumer", <<"rust", "typescript">>)>>
Keys == <<It("SelfKey", <<"K">>), It("AssignedKey", <<"L">>)>>

AllDocs == <<
  << Cf(Both), Rq("A", "B", <<Act("", "C", <<>>)>>), Rq("G.A", "B", <<Act("Yes", "C", <<Bc("D")>>), Act("No", "E", <<>>)>>),
     Ev("F", <<Bc("G.B")>>), Bn(<<"J", "G.H.A">>) >>,
  << Cf(Both \o Keys), Rq("G.A", "B", <<Act("Yes", "C", <<Bc("D")>>), Act("No", "E", <<>>)>>), Rq("A", "B", <<Act("", "C", <<>>)>>),   \* other order, keys, connected
     Ev("connected", <<Bc("D")>>), Ev("F", <<Bc("G.B"), BcO("M")>>), Bn(<<"G.H.A">>), Bn(<<"J">>) >>,
  << Cf(Both), Rq("A", "B", <<Act("Fine", "C", <<Bc("E")>>), Act("Bad", "D", <<BcO("G.B")>>)>>),                                      \* A has conclusions, G.A is gone, I is new
     Rq("I", "I", <<Act("", "I", <<>>)>>), Ev("disconnected", <<Bc("E")>>), Bn(<<"G.H.A", "N">>) >>,
  << Cf(Both), Rq("A", "D", <<Act("", "M", <<>>)>>), Ev("F", <<BcO("M")>>) >>,                                                         \* much is gone
  << Cf(Both \o Keys), Bn(<<"A">>) >> >>                                                                                               \* the request became a beacon
Docs == IF Small THEN <<AllDocs[4], AllDocs[5]>> ELSE AllDocs

\* ---- names of files
Low(x) == CASE x = "A" -> "a" [] x = "B" -> "b" [] x = "C" -> "c" [] x = "D" -> "d" [] x = "E" -> "e" [] x = "F" -> "f" [] x = "G" -> "g" [] x = "H" -> "h"
            [] x = "I" -> "i" [] x = "J" -> "j" [] x = "K" -> "k" [] x = "L" -> "l" [] x = "M" -> "m" [] x = "N" -> "n" [] OTHER -> x
Path(r) == CASE r = "G.A" -> <<"G", "A">> [] r = "G.B" -> <<"G", "B">> [] r = "G.H.A" -> <<"G", "H", "A">> [] OTHER -> <<r>>
Join(s, sep) == FoldLeft(LAMBDA a, b : IF a = "" THEN b ELSE a \o sep \o b, "", s)
File(lang, r) == LET p == [i \in 1..Len(Path(r)) |-> Low(Path(r)[i])] IN IF lang = "rust" THEN Join(p, "_") \o ".rs" ELSE Join(p, ".") \o ".ts"

\* ---- the files of the user
Of(doc, k) == {doc[i] : i \in {j \in 1..Len(doc) : doc[j].k = k}}
Reqs(doc) == {d.ref : d \in Of(doc, "req")}
Evts(doc) == {d.ref : d \in Of(doc, "evt")}
Bcns(doc) == UNION {Range(d.refs) : d \in Of(doc, "bcn")}
Refs(bcs) == {b.ref : b \in Range(bcs)}
Casts(doc) == UNION {UNION {Refs(a.bcs) : a \in Range(d.acts)} : d \in Of(doc, "req")} \cup UNION {Refs(d.bcs) : d \in Of(doc, "evt")}
In(d, lang, rs) == {d \o "/" \o File(lang, r) : r \in rs}
Producer(doc, lang) ==
  In("p/" \o lang \o "/responses", lang, Reqs(doc)) \cup In("p/" \o lang \o "/beacons", lang, Bcns(doc)) \cup
  In("p/" \o lang \o "/events", lang, Evts(doc) \cup {"connected", "disconnected", "error", "ready", "shutdown"}) \cup In("p/" \o lang, lang, {"context"})
Consumer(doc, lang) ==
  IF lang = "rust" THEN In("c/rust/broadcasts", lang, Casts(doc)) \cup In("c/rust/events", lang, {"connected", "disconnected", "error", "reconnect", "shutdown"}) \cup In("c/rust", lang, {"context"})
  ELSE {}
User(doc) == IF Small THEN In("p/rust/responses", "rust", Reqs(doc)) \cup In("p/rust/beacons", "rust", Bcns(doc)) \cup In("p/rust", "rust", {"context"})
             ELSE UNION {Producer(doc, l) \cup Consumer(doc, l) : l \in {"rust", "typescript"}}
UserOf == TLCEval([k \in 1..Len(Docs) |-> User(Docs[k])])
Extra == IF Small THEN {} ELSE {"p/rust/responses/util.rs", "p/typescript/events/helper.ts", "p/rust/events/notes.txt", "c/rust/broadcasts/mine.rs", "c/typescript/app.ts", "p/typescript/.keep"}
All == TLCEval(UNION {UserOf[k] : k \in 1..Len(Docs)} \cup Extra)

\* ---- histories
VARIABLES user, impl, walk, step, op
vars == <<user, impl, walk, step, op>>

Stub(k) == "stub " \o ToString(k)
Gen(k) == /\ user' = TLCEval([f \in All |-> IF user[f] = "absent" /\ f \in UserOf[k] THEN Stub(k) ELSE user[f]])
          /\ impl' = k
          /\ op' = [o |-> "gen", k |-> k]
Edit(fs) == /\ user' = TLCEval([f \in All |-> IF f \in fs THEN "own" ELSE user[f]])
            /\ op' = [o |-> "edit", k |-> 0]
            /\ UNCHANGED impl
Delete(fs) == /\ user' = TLCEval([f \in All |-> IF f \in fs THEN "absent" ELSE user[f]])
              /\ op' = [o |-> "delete", k |-> 0]
              /\ UNCHANGED impl
Spoil == /\ impl # 0
         /\ impl' = 0
         /\ op' = [o |-> "spoil", k |-> 0]
         /\ UNCHANGED user

Init == /\ user = [f \in All |-> "absent"]
        /\ impl = 0
        /\ walk \in 1..(IF Small THEN 1 ELSE Walks)
        /\ step = 0
        /\ op = [o |-> "start", k |-> 0]

SmallNext == /\ \/ \E k \in 1..Len(Docs) : Gen(k)
                \/ \E f \in All : Edit({f}) \/ Delete({f})
                \/ Spoil
             /\ UNCHANGED <<walk, step>>

\* one random operation; the first half of the walks starts from the user's files alone
Pick(s) == RandomElement(IF step >= 0 THEN s ELSE {})     \* a constant set would be drawn from once only
Thin(s, n) == {f \in s : RandomElement(IF f # "" THEN 1..n ELSE {}) = 1}
WideNext ==
  /\ step < Steps
  /\ step' = step + 1
  /\ UNCHANGED walk
  /\ LET x == TLCEval(Pick(1..10))
         k == TLCEval(Pick(1..Len(Docs)))
         fs == TLCEval(Thin(IF Pick(1..2) = 1 THEN All ELSE {f \in All : user[f] # "absent"}, Pick({1, 2, 5})))
     IN IF (step = 0 /\ walk % 2 = 0) \/ (x \in 1..2 /\ op.o = "gen") THEN Edit(fs)
        ELSE IF x \in 3..4 /\ op.o = "gen" THEN Delete(fs)
        ELSE IF x \in 5..6 /\ op.o = "gen" THEN Spoil
        ELSE Gen(k)
  /\ PrintT(ToJson([walk |-> walk, step |-> step, op |-> op', user |-> user', impl |-> impl']))
Next == IF Small THEN SmallNext ELSE WideNext
Spec == Init /\ [][Next]_vars

\* ---- properties
EmitDocs == step = 0 => PrintT(ToJson([docs |-> Docs]))
OwnStays == [][op'.o = "gen" => \A f \in All : user[f] # "absent" => user'[f] = user[f]]_vars
Complete == (impl # 0 /\ op.o = "gen") => \A f \in UserOf[impl] : user[f] # "absent"
Nothing  == [][op'.o = "gen" => \A f \in All \ UserOf[op'.k] : user'[f] = user[f]]_vars   \* no file of the user that the workflow does not need
=============================================================================
