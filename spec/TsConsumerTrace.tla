-------------------------- MODULE TsConsumerTrace --------------------------
(* Judges recorded runs of generated TypeScript consumers.  A run is a         *)
(* sequence of segments; in each, stimuli (in order) and what every stream     *)
(* showed before the consumer came to rest.  A run is accepted if the          *)
(* specification has an execution with the same stimuli that shows the same    *)
(* in every stream of every segment and is at rest at its end.                 *)
EXTENDS TsConsumerCore, Json, IOUtils

VARIABLES t, g, i, pos, S, obs
vars == <<t, g, i, pos, S, obs>>

Flows == TLCEval(JsonDeserialize(IOEnv.CT_FLOWS))
Raw == TLCEval(JsonDeserialize(IOEnv.CT_TRACES))
FlowDef(f) == Flows[f]
Verbose == IOEnv.CT_VERBOSE = "1"

StreamOf(o) == CASE o.op \in {"ev", "bcast"} -> "ev" [] o.op = "send" -> "send" [] o.op = "res" -> "res" \o o.id [] OTHER -> "life"
Zero(out) == [k \in DOMAIN out |-> 0]
Init == \E k \in DOMAIN Raw :
        /\ t = k /\ g = 1 /\ i = 1 /\ S = S0(Raw[k].flow)
        /\ obs = Raw[k].segs
        /\ pos = TLCEval(Zero(Raw[k].segs[1].out))
Here == obs[g]
RECURSIVE Advance(_, _, _)
Advance(out, ps, os) ==
  IF os = <<>> THEN <<ps>>
  ELSE LET o == Head(os) k == StreamOf(o) IN
    IF k \notin DOMAIN out THEN <<>>
    ELSE IF ps[k] >= Len(out[k]) THEN <<>>
    ELSE IF out[k][ps[k] + 1] # o THEN <<>>
    ELSE Advance(out, [ps EXCEPT ![k] = @ + 1], Tail(os))
Step == /\ g <= Len(obs)
        /\ \E r \in Steps(S) :
             LET a == TLCEval(Advance(Here.out, pos, r.o)) IN
             /\ a # <<>>
             /\ pos' = a[1] /\ S' = r.s /\ UNCHANGED <<t, g, i, obs>>
Stim == /\ g <= Len(obs) /\ i <= Len(Here.stims)
        /\ S' = Apply(S, Here.stims[i]) /\ i' = i + 1 /\ UNCHANGED <<t, g, pos, obs>>
Settled == /\ g <= Len(obs) /\ i > Len(Here.stims)
           /\ \A k \in DOMAIN pos : pos[k] = Len(Here.out[k])
           /\ Quiet(S)
           /\ g' = g + 1 /\ i' = 1 /\ UNCHANGED <<t, S, obs>>
           /\ pos' = IF g < Len(obs) THEN TLCEval(Zero(obs[g + 1].out)) ELSE <<>>
Next == Step \/ Stim \/ Settled
Spec == Init /\ [][Next]_vars
Missing == [k \in {k \in DOMAIN pos : pos[k] < Len(Here.out[k])} |-> Here.out[k][pos[k] + 1]]
Emit == /\ (g > Len(obs) => PrintT(ToJson([ok |-> Raw[t].id])))
        /\ (Verbose /\ g <= Len(obs)) =>
             PrintT(ToJson([id |-> Raw[t].id, at |-> g, stim |-> i, done |-> FoldFunction(LAMBDA a, b : a + b, 0, pos),
                            next |-> Missing, want |-> SetToSeq({r.o : r \in Steps(S)})]))
Shape == <<t, g, i, pos, S>>
=============================================================================
