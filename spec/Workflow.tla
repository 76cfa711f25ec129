------------------------------ MODULE Workflow ------------------------------
(* What a workflow means: which workflows are sound, and the interactions a sound one declares.      *)
(*                                                                                                   *)
(* A document is a sequence of declarations:                                                         *)
(*   [k: "cfg", items: Seq([key, val: Seq(STRING)])]                                                 *)
(*   [k: "req", ref, err, acts: Seq([conc, resp, bcs: Seq([ref, opt])])]      conc "" : none         *)
(*   [k: "evt", ref, bcs]                                                                            *)
(*   [k: "bcn", refs]                                                                                *)
(* The behaviour starts at a sound document and edits it; every document reached is emitted with the *)
(* verdict (Problems) and what its diagram shows.                                                    *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt, FiniteSetsExt

CONSTANTS Edits,     \* number of edits
          Narrow,    \* TRUE: a substituted reference is drawn from few values
          Share      \* a random walk takes one of so many edits of each kind (0: all of them)

\* ---- the protocol: paths and what they name
Structs == {"A", "B", "C", "D", "E", "F", "I", "J", "K", "L", "M", "N", "G.A", "G.B", "G.H.A", "G.H.B", "G.C"}
Enums   == {"V", "G.V"}
Groups  == {"G", "G.H"}
Defined == Structs \cup Enums   \* a message is a struct; an event, which no one sends, can be an enum as well
\* nothing defined: an unknown name, a name with other letters, a group, a group path, an unknown name in a group, a member
\* of a group without the group, a path through a message, a path that goes on after a message
BadRefs == {"U", "a", "G", "G.H", "G.U", "H.A", "A.B", "G.A.A", "g.A", "AA"}

\* ---- what is wrong with a document
Req(doc) == SelectSeq(doc, LAMBDA d : d.k = "req")
Evt(doc) == SelectSeq(doc, LAMBDA d : d.k = "evt")
Bcn(doc) == SelectSeq(doc, LAMBDA d : d.k = "bcn")
Cfg(doc) == SelectSeq(doc, LAMBDA d : d.k = "cfg")
Dup(s) == Cardinality(Range(s)) # Len(s)
Map(f(_), s) == [i \in 1..Len(s) |-> f(s[i])]
Flat(s) == FlattenSeq(s)
Beacons(doc) == Flat(Map(LAMBDA d : d.refs, Bcn(doc)))
BcRefs(bcs) == Map(LAMBDA b : b.ref, bcs)

ReqProblems(r) ==
  (IF r.ref \notin Structs THEN {"request undefined"} ELSE {}) \cup
  (IF r.err \notin Structs THEN {"error undefined"} ELSE {}) \cup
  (IF r.acts = <<>> THEN {"no action"} ELSE {}) \cup
  (IF \E i \in 1..Len(r.acts) : r.acts[i].resp \notin Structs THEN {"response undefined"} ELSE {}) \cup
  (IF \E i \in 1..Len(r.acts) : \E j \in 1..Len(r.acts[i].bcs) : r.acts[i].bcs[j].ref \notin Structs THEN {"broadcast undefined"} ELSE {}) \cup
  (IF \E i \in 1..Len(r.acts) : Dup(BcRefs(r.acts[i].bcs)) THEN {"broadcast twice"} ELSE {}) \cup
  (IF Len(r.acts) > 1 /\ \E i \in 1..Len(r.acts) : r.acts[i].conc = "" THEN {"conclusion without a name"} ELSE {}) \cup
  (IF \E i, j \in 1..Len(r.acts) : i # j /\ r.acts[i].conc = r.acts[j].conc /\ r.acts[i].conc # "" THEN {"conclusion twice"} ELSE {})
EvtProblems(e) ==
  (IF e.ref \notin Defined \cup {"connected", "disconnected"} THEN {"event undefined"} ELSE {}) \cup
  (IF e.bcs = <<>> THEN {"event without broadcasts"} ELSE {}) \cup
  (IF \E i \in 1..Len(e.bcs) : e.bcs[i].ref \notin Structs THEN {"event broadcast undefined"} ELSE {}) \cup
  (IF Dup(BcRefs(e.bcs)) THEN {"event broadcast twice"} ELSE {})
CfgProblems(c) ==
  LET ks == Map(LAMBDA x : x.key, c.items) IN
  (IF Dup(ks) THEN {"config key repeated"} ELSE {}) \cup
  (IF ~({"Producer", "Consumer"} \subseteq Range(ks)) THEN {"config lacks a side"} ELSE {}) \cup
  (IF \E i \in 1..Len(c.items) : c.items[i].key \in {"SelfKey", "AssignedKey"} /\ c.items[i].val[1] \notin Structs THEN {"key undefined"} ELSE {}) \cup
  (IF \E i \in 1..Len(c.items) : c.items[i].key \in {"Producer", "Consumer"} /\ (Dup(c.items[i].val) \/ ~(Range(c.items[i].val) \subseteq {"rust", "typescript"})) THEN {"target"} ELSE {})
Problems(doc) ==
  UNION {ReqProblems(doc[i]) : i \in {j \in 1..Len(doc) : doc[j].k = "req"}} \cup
  UNION {EvtProblems(doc[i]) : i \in {j \in 1..Len(doc) : doc[j].k = "evt"}} \cup
  UNION {CfgProblems(doc[i]) : i \in {j \in 1..Len(doc) : doc[j].k = "cfg"}} \cup
  (IF Cfg(doc) = <<>> THEN {"no config"} ELSE IF Len(Cfg(doc)) > 1 THEN {"config repeated"} ELSE {}) \cup
  (IF Dup(Map(LAMBDA d : d.ref, Req(doc))) THEN {"request repeated"} ELSE {}) \cup
  (IF Dup(Map(LAMBDA d : d.ref, Evt(doc))) THEN {"event repeated"} ELSE {}) \cup
  (IF \E i \in 1..Len(doc) : doc[i].k = "bcn" /\ doc[i].refs = <<>> THEN {"no beacons"} ELSE {}) \cup
  (IF Dup(Beacons(doc)) THEN {"beacon repeated"} ELSE {}) \cup
  (IF ~(Range(Beacons(doc)) \subseteq Structs) THEN {"beacon undefined"} ELSE {}) \cup
  (IF Range(Beacons(doc)) \cap Range(Map(LAMBDA d : d.ref, Req(doc))) # {} THEN {"beacon is a request"} ELSE {})

\* the language leaves open what a key means that is requested as well
KeyOf(doc, k) == {x.val[1] : x \in {y \in UNION {Range(Cfg(doc)[i].items) : i \in 1..Len(Cfg(doc))} : y.key = k}}
Open(doc) == KeyOf(doc, "SelfKey") \cap (Range(Beacons(doc)) \cup Range(Map(LAMBDA d : d.ref, Req(doc)))) # {}

\* ---- what the diagram shows: one entry per line, [a: from, b: to, dash, t: text]
Line(a, b, dash, t) == [a |-> a, b |-> b, dash |-> dash, t |-> t]
ReqLines(r) ==
  <<Line("Consumer", "Producer", FALSE, r.ref), Line("Producer", "Consumer", TRUE, "error " \o r.err)>> \o
  Flat(Map(LAMBDA a : (IF Len(r.acts) > 1 THEN <<Line("", "", FALSE, a.conc)>> ELSE <<>>) \o <<Line("Producer", "Consumer", FALSE, a.resp)>>
                      \o Map(LAMBDA b : Line("Producer", "Consumers", b.opt, b.ref), a.bcs), r.acts))
EvtLines(e) == <<Line("Producer", "Producer", FALSE, e.ref)>> \o Map(LAMBDA b : Line("Producer", "Consumer", TRUE, b.ref), e.bcs)
BcnLines(doc) == <<Line("Consumer", "Producer", FALSE, "Connected Event"), Line("Consumer", "Producer", FALSE, "Disconnected Event")>>
                 \o Map(LAMBDA b : Line("Consumer", "Producer", TRUE, b), Beacons(doc))
Diagram(doc) == [requests |-> Map(ReqLines, Req(doc)), events |-> Map(EvtLines, Evt(doc)), beacons |-> BcnLines(doc)]

\* ---- documents to start from
Bc(r) == [ref |-> r, opt |-> FALSE]
BcO(r) == [ref |-> r, opt |-> TRUE]
Act(c, r, b) == [conc |-> c, resp |-> r, bcs |-> b]
Rq(r, e, a) == [k |-> "req", ref |-> r, err |-> e, acts |-> a]
Ev(r, b) == [k |-> "evt", ref |-> r, bcs |-> b]
Bn(r) == [k |-> "bcn", refs |-> r]
Cf(i) == [k |-> "cfg", items |-> i]
It(k, v) == [key |-> k, val |-> v]
RR == <<It("Producer", <<"rust">>), It("Consumer", <<"rust">>)>>

Base1 == << Cf(<<It("SelfKey", <<"A">>), It("AssignedKey", <<"G.A">>)>> \o RR),
            Rq("B", "C", <<Act("Yes", "D", <<Bc("E"), BcO("G.B")>>), Act("No", "G.H.A", <<>>)>>),
            Ev("F", <<Bc("I")>>),
            Bn(<<"J", "G.H.B">>) >>
Base2 == << Rq("A", "B", <<Act("", "C", <<>>)>>),
            Rq("G.A", "B", <<Act("Sole", "G.H.B", <<Bc("D")>>)>>),
            Bn(<<"G.H.A">>),
            Cf(RR),
            Bn(<<"G.B">>),
            Ev("connected", <<Bc("D"), BcO("E")>>),
            Ev("G.C", <<Bc("D")>>) >>
Base3 == << Cf(<<It("Consumer", <<"typescript">>), It("AssignedKey", <<"N">>), It("Producer", <<"typescript", "rust">>)>>),
            Rq("F", "F", <<Act("a", "L", <<BcO("M")>>), Act("b", "M", <<Bc("L"), Bc("M")>>), Act("c", "L", <<>>)>>),
            Ev("disconnected", <<Bc("M")>>) >>
(* many of everything *)
Base4 == << Bn(<<"A", "B", "C", "D", "E">>),
            Cf(<<It("AssignedKey", <<"N">>), It("SelfKey", <<"M">>)>> \o RR),
            Rq("F", "G.A", <<Act("one", "A", <<Bc("A"), BcO("B"), Bc("C"), BcO("D"), Bc("E"), Bc("G.A"), BcO("G.H.A")>>), Act("two", "B", <<>>),
                             Act("three", "A", <<BcO("K")>>), Act("four", "C", <<Bc("D"), Bc("A"), BcO("G.B"), BcO("L")>>), Act("five", "D", <<BcO("I")>>)>>),
            Ev("V", <<Bc("A"), BcO("B"), Bc("C"), BcO("D"), Bc("E"), Bc("G.A")>>),
            Rq("I", "A", <<Act("", "G.C", <<>>)>>), Rq("J", "A", <<Act("", "G.C", <<>>)>>), Rq("K", "B", <<Act("x", "G.C", <<>>), Act("y", "F", <<Bc("F")>>)>>), Rq("L", "A", <<Act("z", "G.C", <<Bc("J")>>)>>),
            Ev("connected", <<Bc("I"), Bc("J"), Bc("K"), BcO("L")>>), Ev("A", <<Bc("B")>>), Ev("G.V", <<Bc("B")>>), Ev("disconnected", <<BcO("F")>>), Ev("B", <<Bc("B")>>),
            Bn(<<"G.A">>), Bn(<<"G.B", "G.C", "G.H.A", "G.H.B">>) >>
Bases == <<Base1, Base2, Base3, Base4>>

\* ---- edits
VARIABLES doc, n, base
vars == <<doc, n, base>>

\* places of references
Places(d) == UNION { LET x == d[i] IN
   CASE x.k = "req" -> {<<i, "ref">>, <<i, "err">>} \cup {<<i, "resp", a>> : a \in 1..Len(x.acts)} \cup UNION {{<<i, "bc", a, b>> : b \in 1..Len(x.acts[a].bcs)} : a \in 1..Len(x.acts)}
     [] x.k = "evt" -> {<<i, "ref">>} \cup {<<i, "ebc", b>> : b \in 1..Len(x.bcs)}
     [] x.k = "bcn" -> {<<i, "bcn", b>> : b \in 1..Len(x.refs)}
     [] x.k = "cfg" -> {<<i, "key", b>> : b \in {j \in 1..Len(x.items) : x.items[j].key \in {"SelfKey", "AssignedKey"}}} : i \in 1..Len(d) }
Get(d, p) == LET x == d[p[1]] IN
  CASE p[2] = "ref" -> x.ref [] p[2] = "err" -> x.err [] p[2] = "resp" -> x.acts[p[3]].resp [] p[2] = "bc" -> x.acts[p[3]].bcs[p[4]].ref
    [] p[2] = "ebc" -> x.bcs[p[3]].ref [] p[2] = "bcn" -> x.refs[p[3]] [] p[2] = "key" -> x.items[p[3]].val[1]
Put(d, p, v) == LET i == p[1] IN
  CASE p[2] = "ref" -> [d EXCEPT ![i].ref = v] [] p[2] = "err" -> [d EXCEPT ![i].err = v]
    [] p[2] = "resp" -> [d EXCEPT ![i].acts[p[3]].resp = v] [] p[2] = "bc" -> [d EXCEPT ![i].acts[p[3]].bcs[p[4]].ref = v]
    [] p[2] = "ebc" -> [d EXCEPT ![i].bcs[p[3]].ref = v] [] p[2] = "bcn" -> [d EXCEPT ![i].refs[p[3]] = v]
    [] p[2] = "key" -> [d EXCEPT ![i].items[p[3]].val = <<v>>]
Values == IF Narrow THEN {"U", "G", "B", "D", "G.H.B", "V"} ELSE BadRefs \cup {"K", "G.H.A", "V", "G.V"}
Ins(s, i, x) == SubSeq(s, 1, i - 1) \o <<x>> \o SubSeq(s, i, Len(s))
Del(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))

SubEdits(d) == {Put(d, p, v) : p \in Places(d), v \in Values \cup {Get(d, q) : q \in Places(d)}}
DeclEdits(d) ==
  {Ins(d, j, d[i]) : i \in 1..Len(d), j \in 1..Len(d) + 1} \cup {Del(d, i) : i \in 1..Len(d)} \cup
  {[d EXCEPT ![i] = d[i + 1], ![i + 1] = d[i]] : i \in 1..Len(d) - 1} \cup
  {Ins(d, j, x) : j \in {1, Len(d) + 1}, x \in {Ev("connected", <<Bc("E")>>), Ev("disconnected", <<BcO("G.H.A")>>), Ev("U", <<Bc("E")>>), Bn(<<"K", "B">>), Bn(<<"K">>), Bn(<<"K", "K">>),
                                                Rq("K", "K", <<Act("", "K", <<>>)>>), Rq("J", "K", <<Act("", "K", <<>>)>>), Cf(RR)}}
ActEdits(d) ==
  UNION { LET r == d[i] IN IF r.k # "req" THEN {} ELSE
    {[d EXCEPT ![i].acts = Ins(@, j, r.acts[a])] : a \in 1..Len(r.acts), j \in 1..Len(r.acts) + 1} \cup
    {[d EXCEPT ![i].acts = Ins(@, j, x)] : j \in {1, Len(r.acts) + 1}, x \in {Act("", "C", <<>>), Act("Q", "C", <<>>)}} \cup
    {[d EXCEPT ![i].acts = Del(@, a)] : a \in 1..Len(r.acts)} \cup
    {[d EXCEPT ![i].acts[a].conc = c] : a \in 1..Len(r.acts), c \in {"Z", ""} \cup {r.acts[b].conc : b \in 1..Len(r.acts)}} \cup
    UNION {{[d EXCEPT ![i].acts[a].bcs = Ins(@, j, x)] : j \in {1, Len(r.acts[a].bcs) + 1}, x \in {Bc("E"), BcO("D"), Bc("K"), Bc("U")}} : a \in 1..Len(r.acts)} \cup
    UNION {{[d EXCEPT ![i].acts[a].bcs[b].opt = ~@] : b \in 1..Len(r.acts[a].bcs)} : a \in 1..Len(r.acts)} \cup
    UNION {{[d EXCEPT ![i].acts[a].bcs = Del(@, b)] : b \in 1..Len(r.acts[a].bcs)} : a \in 1..Len(r.acts)} : i \in 1..Len(d) }
EvtEdits(d) ==
  UNION { LET e == d[i] IN IF e.k = "evt" THEN
    {[d EXCEPT ![i].bcs = Ins(@, j, x)] : j \in {1, Len(e.bcs) + 1}, x \in {Bc("I"), BcO("D"), Bc("U")}} \cup
    {[d EXCEPT ![i].bcs = Del(@, b)] : b \in 1..Len(e.bcs)} \cup {[d EXCEPT ![i].bcs[b].opt = ~@] : b \in 1..Len(e.bcs)}
   ELSE IF e.k = "bcn" THEN
    {[d EXCEPT ![i].refs = Ins(@, j, x)] : j \in {1, Len(e.refs) + 1}, x \in {"K", "U", "V"} \cup Range(e.refs)} \cup {[d EXCEPT ![i].refs = Del(@, b)] : b \in 1..Len(e.refs)}
   ELSE IF e.k = "cfg" THEN
    {[d EXCEPT ![i].items = Ins(@, j, x)] : j \in {1, Len(e.items) + 1}, x \in Range(e.items) \cup {It("SelfKey", <<"D">>), It("AssignedKey", <<"D">>), It("Producer", <<"rust">>), It("Consumer", <<"typescript">>)}} \cup
    {[d EXCEPT ![i].items = Del(@, b)] : b \in 1..Len(e.items)} \cup
    UNION {IF e.items[b].key \in {"Producer", "Consumer"} THEN {[d EXCEPT ![i].items[b].val = v] : v \in {<<"rust">>, <<"typescript">>, <<"rust", "typescript">>, <<"rust", "rust">>, <<"java">>, <<"Rust">>}} ELSE {} : b \in 1..Len(e.items)}
   ELSE {} : i \in 1..Len(d) }

Some(S, k) == IF S = {} THEN S ELSE {RandomElement(S) : i \in 1..k}
Pick(S) == IF Share # 0 THEN Some(S, Share) ELSE IF base = 4 THEN Some(S, 60) ELSE S      \* of the long one a share always
\* sourceable: what the grammar cannot express is not a document
Valid(d) == \A i \in 1..Len(d) :
   /\ (d[i].k = "req" => d[i].acts # <<>> /\ \A a \in 1..Len(d[i].acts) : d[i].acts[a].conc = "" => d[i].acts[a].bcs = <<>>)
   /\ (d[i].k = "evt" => d[i].bcs # <<>>) /\ (d[i].k = "bcn" => d[i].refs # <<>>) /\ (d[i].k = "cfg" => \A j \in 1..Len(d[i].items) : d[i].items[j].val # <<>>)

Init == \E b \in 1..Len(Bases) : doc = Bases[b] /\ n = 0 /\ base = b
Next == /\ n < Edits
        /\ \E d \in Pick(SubEdits(doc)) \cup Pick(DeclEdits(doc)) \cup Pick(ActEdits(doc)) \cup Pick(EvtEdits(doc)) :
             /\ Valid(d) /\ d # doc
             /\ Len(d) <= IF base = 4 THEN 16 ELSE 8
             /\ doc' = d
        /\ n' = n + 1
        /\ UNCHANGED base
Spec == Init /\ [][Next]_vars
View == doc

\* ---- of the meaning itself
BasesSound == n = 0 => Problems(doc) = {} /\ ~Open(doc)
\* soundness does not depend on the order of declarations
OrderFree == Len(doc) > 1 => Problems(doc) = Problems(Tail(doc) \o <<Head(doc)>>)
\* a diagram shows every message that is not a key
Shown == LET dg == Diagram(doc)
             texts == UNION ({Range(Map(LAMBDA l : l.t, dg.requests[i])) : i \in 1..Len(dg.requests)} \cup {Range(Map(LAMBDA l : l.t, dg.events[i])) : i \in 1..Len(dg.events)} \cup {Range(Map(LAMBDA l : l.t, dg.beacons))})
         IN \A p \in Places(doc) : p[2] # "key" => Get(doc, p) \in texts \/ ("error " \o Get(doc, p)) \in texts

Emit == PrintT(ToJson([doc |-> doc, bad |-> SetToSeq(Problems(doc)), open |-> Open(doc), n |-> n, base |-> base,
                       dg |-> IF Problems(doc) = {} THEN <<Diagram(doc)>> ELSE <<>>]))
=============================================================================
