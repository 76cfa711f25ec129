-------------------------- MODULE TsProducerTrace --------------------------
(* Judges recorded runs of generated TypeScript producers: a run is accepted  *)
(* if the specification has an execution with the same stimuli at the same    *)
(* places and the same outputs in the same order.                             *)
EXTENDS TsProducerCore, Json, IOUtils

VARIABLES t, i, S, obs
vars == <<t, i, S, obs>>

Flows == TLCEval(JsonDeserialize(IOEnv.PT_FLOWS))
Raw == TLCEval(JsonDeserialize(IOEnv.PT_TRACES))
FlowDef(f) == Flows[f]
Verbose == IOEnv.PT_VERBOSE = "1"

(* errors that are not about serving are not looked at *)
Looked == {"ProcessingIncomeData", "AssignedKeyError", "ProtocolHash", "WorkflowHash", "HashError", "KeyError"}
View(o) == IF o.op = "error" THEN (IF o.k \in Looked THEN <<o>> ELSE <<>>) ELSE <<o>>
ViewAll(os) == FlattenSeq([k \in DOMAIN os |-> View(os[k])])
FromRecord(o) == IF o.op = "call" THEN [o EXCEPT !.all = Range(@), !.exc = Range(@), !.ecl = Range(@), !.byk = Range(@), !.bya = Range(@), !.any = Range(@), !.ecm = Range(@)] ELSE o
Init == \E k \in DOMAIN Raw :
        /\ t = k /\ i = 1
        /\ S = LET r == Raw[k] IN S0(r.flow, r.ids, r.errs, r.cfg)
        /\ obs = TLCEval(FlattenSeq([j \in DOMAIN Raw[k].obs |-> LET o == Raw[k].obs[j] IN IF o.op \in {"stim", "settled"} THEN <<o>> ELSE View(FromRecord(o))]))
(* the order of an answer, a disconnection and an error that come of one message is open *)
Swap(v, k) == IF v[k].op = "error" /\ v[k + 1].op = "disc" THEN [v EXCEPT ![k] = v[k + 1], ![k + 1] = v[k]] ELSE v
RECURSIVE NormFrom(_, _)
NormFrom(v, k) == IF k >= Len(v) THEN v ELSE NormFrom(Swap(v, k), k + 1)
Norm2(v) == IF Len(v) < 2 THEN v ELSE NormFrom(v, 1)
Matches(v) == /\ i + Len(v) - 1 <= Len(obs)
              /\ Norm2(SubSeq(obs, i, i + Len(v) - 1)) = Norm2(v)
Step == \E r \in Steps(S) :
          LET v == TLCEval(ViewAll(r.o)) IN
          /\ Matches(v)
          /\ i' = i + Len(v) /\ S' = r.s /\ UNCHANGED <<t, obs>>
Stim == /\ i <= Len(obs) /\ obs[i].op = "stim"
        /\ S' = Apply(S, obs[i].x) /\ i' = i + 1 /\ UNCHANGED <<t, obs>>
Settled == /\ i <= Len(obs) /\ obs[i].op = "settled" /\ Quiet(S)
           /\ i' = i + 1 /\ UNCHANGED <<t, S, obs>>
Next == Step \/ Stim \/ Settled
Spec == Init /\ [][Next]_vars
Emit == /\ (i > Len(obs) => PrintT(ToJson([ok |-> Raw[t].id])))
        /\ (Verbose /\ i <= Len(obs)) => PrintT(ToJson([id |-> Raw[t].id, at |-> i, next |-> obs[i],
                want |-> SetToSeq({ViewAll(r.o) : r \in Steps(S)})]))
Shape == <<t, i, S>>
=============================================================================
