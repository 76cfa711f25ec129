----------------------------- MODULE CrowdTrace ------------------------------
(* The contract of SystemCore alone, over long recorded runs of many real      *)
(* consumers with a real producer: nothing is assumed of how either works      *)
(* inside; the channels and the contract's books follow what they are seen to  *)
(* put out.                                                                    *)
EXTENDS SystemCore, Json, IOUtils

VARIABLES t, i, W
vars == <<t, i, W>>

Flows == TLCEval(JsonDeserialize(IOEnv.ST_FLOWS))
Cases == TLCEval(JsonDeserialize(IOEnv.ST_CASES))
Raw == TLCEval(JsonDeserialize(IOEnv.ST_TRACES))
FlowDef(f) == Flows[f]
C == Cases[Raw[t].c]
Segs == Raw[t].segs

Crowd0(c) ==
  LET us == DOMAIN c.cons none == [u \in us |-> <<>>] empty == [u \in us |-> [x \in {} |-> 0]] IN
  [p |-> [jobs |-> <<>>], c |-> none, link |-> [u \in us |-> "no"], up |-> none, down |-> none,
   known |-> {}, keyof |-> [u \in us |-> ""], calls |-> [x \in {} |-> 0], handled |-> [x \in {} |-> 0], res |-> [x \in {} |-> 0],
   owe |-> empty, got |-> empty, ready |-> {}, due |-> [q \in {} |-> 0]]

(* the books after a segment *)
Step(W0_, x, os) ==
  IF AtProducer(x) THEN POut(C, Before(C, W0_, x), SelectSeq(os, LAMBDA o : o.op \in {"send", "disc", "call"}))
  ELSE COut(C, Before(C, W0_, x), x.u, os)
(* a package nobody can place: unknown, to nobody, or numbered as another one that is still unanswered *)
Mine(w, u, who) == IF who \in {"key", "hash"} THEN TRUE
                   ELSE \E g \in DOMAIN w.calls : w.calls[g].u = u /\ who = "call:" \o g
Strange(w, x, os) == \E j \in DOMAIN os : IF os[j].op = "?" THEN TRUE
                                         ELSE IF ~AtProducer(x) /\ os[j].op = "send" THEN ~Mine(Before(C, w, x), x.u, os[j].who) ELSE FALSE

(* the parts of the contract a segment can break; the rest holds as it did *)
ResNow(os) == {os[j].id : j \in {j \in DOMAIN os : os[j].op = "res"}}
AnswerRight(w, tag) ==
  IF tag \notin DOMAIN w.calls THEN FALSE
  ELSE LET r == w.res[tag] q == w.calls[tag] IN
       /\ r.n = 1
       /\ IF Failed(r.k) THEN w.link[q.u] = "closed"
          ELSE [k |-> r.k, m |-> r.m, tag |-> r.tag] = Want(C, q.u, q.m, q.s, tag) /\ tag \in DOMAIN w.handled
CallsNow(os) == {os[j].tag : j \in {j \in DOMAIN os : os[j].op = "call" /\ os[j].k \in {"request", "beacon", "event"}}}
Broken(w, x, os) ==
  (IF AtProducer(x) THEN (IF \E g \in CallsNow(os) : w.handled[g] # 1 THEN {"handled twice"} ELSE {})
        ELSE (IF \E g \in ResNow(os) : ~AnswerRight(w, g) THEN {"a wrong answer"} ELSE {})
             \cup (IF ~Within(w.got[x.u], w.owe[x.u]) THEN {"a broadcast that was not for it"} ELSE {})
             \cup (IF x.u \in w.ready /\ C.cons[x.u].h # "ok" THEN {"accepted in spite of its fingerprint"} ELSE {}))
  \cup (IF i = Len(Segs) /\ AtRest(C, w) /\ ~Complete(C, w) THEN {"not complete when everything has arrived"} ELSE {})
  \cup (IF i = Len(Segs) /\ ~AtRest(C, w) THEN {"what was put out never arrives"} ELSE {})

Init == t \in DOMAIN Raw /\ i = 1 /\ W = Crowd0(Cases[Raw[t].c])
Next ==
  /\ i <= Len(Segs)
  /\ LET x == Segs[i].x os == Segs[i].out IN
     IF ~CanDo(C, W, x) THEN PrintT(ToJson([id |-> Raw[t].id, at |-> i, next |-> x, broken |-> {"the schedule cannot be followed"}])) /\ i' = Len(Segs) + 2 /\ W' = W
     ELSE LET w == TLCEval(Step(W, x, os)) b == IF Strange(W, x, os) THEN {"something nobody can place was sent"} ELSE Broken(w, x, os) IN
          IF b # {} THEN PrintT(ToJson([id |-> Raw[t].id, at |-> i, next |-> Segs[i], broken |-> b])) /\ i' = Len(Segs) + 2 /\ W' = W
          ELSE W' = w /\ i' = i + 1
  /\ UNCHANGED t
Spec == Init /\ [][Next]_vars
Emit == i = Len(Segs) + 1 => PrintT(ToJson([ok |-> Raw[t].id, at |-> i, owed |-> [u \in DOMAIN W.owe |-> FoldFunction(+, 0, W.owe[u])], answered |-> Cardinality(DOMAIN W.res)]))
Shape == <<t, i>>
=============================================================================
