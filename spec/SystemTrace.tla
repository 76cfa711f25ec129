----------------------------- MODULE SystemTrace -----------------------------
(* Judges recorded runs of real producers and consumers talking to each other: *)
(* every step of the network had an outcome the specification allows, and      *)
(* the contract holds at every point.                                          *)
EXTENDS SystemCore, Json, IOUtils

VARIABLES t, i, W
vars == <<t, i, W>>

Flows == TLCEval(JsonDeserialize(IOEnv.ST_FLOWS))
Cases == TLCEval(JsonDeserialize(IOEnv.ST_CASES))
Raw == TLCEval(JsonDeserialize(IOEnv.ST_TRACES))
FlowDef(f) == Flows[f]
Verbose == IOEnv.ST_VERBOSE = "1"
C == Cases[Raw[t].c]
Segs == Raw[t].segs

(* what the two ends are seen to do *)
PView(o) == CASE o.op = "call" -> IF o.k = "plain" THEN <<>> ELSE <<[op |-> "call", k |-> o.k, h |-> o.h, u |-> o.u, tag |-> o.tag]>>
              [] o.op \in {"send", "disc"} -> <<o>>
              [] o.op = "?" -> <<o>>
              [] OTHER -> <<>>
CView(u, o) == o.op \in {"send", "bcast", "res", "ctl", "?"} \/ Ready(C, u, o)
PViewAll(os) == FlattenSeq([j \in DOMAIN os |-> PView(os[j])])
CBag(u, b) == LET D == {o \in DOMAIN b : CView(u, o)} IN [o \in D |-> b[o]]

Ok == Contract(C, W)
Init == t \in DOMAIN Raw /\ i = 1 /\ W = W0(Cases[Raw[t].c])
Next ==
  /\ i <= Len(Segs) /\ Ok
  /\ LET x == Segs[i].x
         os == Segs[i].out IN
     /\ CanDo(C, W, x)
     /\ IF AtProducer(x) THEN
          LET r == PRun(C, W.p, PStim(W, x))
              v == PViewAll(os) IN
          /\ BagOf(PViewAll(r.o)) = BagOf(v)
          /\ W' = TLCEval(POut(C, [Before(C, W, x) EXCEPT !.p = r.s], v))
        ELSE
          LET v == SelectSeq(os, LAMBDA o : CView(x.u, o)) IN
          \E r \in CResults(C, W, x) :
            /\ CBag(x.u, r.o) = BagOf(v)
            /\ W' = TLCEval(COut(C, [Before(C, W, x) EXCEPT !.c[x.u] = r.s], x.u, v))
  /\ i' = i + 1 /\ UNCHANGED t
Spec == Init /\ [][Next]_vars
Going == Ok /\ i <= Len(Segs)
Emit == /\ (i > Len(Segs) /\ Ok => PrintT(ToJson([ok |-> Raw[t].id])))
        /\ (Verbose /\ ~Ok => PrintT(ToJson([id |-> Raw[t].id, at |-> i, next |-> "the contract is broken",
               want |-> <<AnswersRight(C, W), HandledOnce(W), NobodyElse(W), OnlyMatching(C, W), Complete(C, W)>>])))
        /\ (Verbose /\ Going => LET x == Segs[i].x IN
             PrintT(ToJson([id |-> Raw[t].id, at |-> i, next |-> Segs[i],
               want |-> IF ~CanDo(C, W, x) THEN <<"cannot be">>
                        ELSE IF AtProducer(x) THEN <<PViewAll(PRun(C, W.p, PStim(W, x)).o)>>
                        ELSE SetToSeq({Unbag(CBag(x.u, r.o)) : r \in CResults(C, W, x)})])))
=============================================================================
