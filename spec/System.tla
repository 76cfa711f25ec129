------------------------------- MODULE System -------------------------------
(* All ways the network may carry what a producer and its consumers say, for  *)
(* small instances (checked exhaustively), and random walks through larger    *)
(* ones (emitted for replay between the real processes).                      *)
EXTENDS SystemCore, Json, IOUtils

VARIABLES k, W, nc, ne, nl, h
vars == <<k, W, nc, ne, nl, h>>

Flows == TLCEval(JsonDeserialize(IOEnv.SY_FLOWS))
Cases == TLCEval(JsonDeserialize(IOEnv.SY_CASES))
FlowDef(f) == Flows[f]
Walk == IOEnv.SY_WALK = "1"
C == Cases[k]
(* in a walk, choices of arguments are made at random *)
Some(s) == IF Walk THEN {RandomElement(IF nc >= 0 THEN s ELSE {})} ELSE s

X(a, u, n, m, tag, s) == [a |-> a, u |-> u, n |-> n, m |-> m, tag |-> tag, s |-> s]
Plain(a, u, n) == X(a, u, n, "", "", NoScript)
Do(x) ==
  /\ CanDo(C, W, x)
  /\ IF AtProducer(x) THEN
       LET r == PRun(C, W.p, PStim(W, x)) IN W' = TLCEval(POut(C, [Before(C, W, x) EXCEPT !.p = r.s], r.o))
     ELSE \E r \in CResults(C, W, x) : W' = TLCEval(COut(C, [Before(C, W, x) EXCEPT !.c[x.u] = r.s], x.u, Unbag(r.o)))
  /\ h' = IF Walk THEN Append(h, x) ELSE h
Tag == "t" \o ToString(nc + ne + 1)
Us == DOMAIN C.cons
Sizes(q) == 1..(IF Leading(q) = 0 THEN 1 ELSE IF Leading(q) > C.chunk THEN C.chunk ELSE Leading(q))
Open == \E u \in Us : Do(Plain("open", u, 0)) /\ UNCHANGED <<nc, ne, nl>>
Up == \E u \in Us : W.up[u] # <<>> /\ \E n \in Sizes(W.up[u]) : Do(Plain("up", u, n)) /\ UNCHANGED <<nc, ne, nl>>
Down == \E u \in Us : W.down[u] # <<>> /\ \E n \in Sizes(W.down[u]) : Do(Plain("down", u, n)) /\ UNCHANGED <<nc, ne, nl>>
Call == /\ nc < C.calls /\ W.ready # {}
        /\ \E u \in Some(W.ready) : \E i \in Some(DOMAIN C.ask) : Do(X("call", u, 0, C.ask[i].m, Tag, C.ask[i].s)) /\ nc' = nc + 1 /\ UNCHANGED <<ne, nl>>
Event == /\ ne < C.events
         /\ \E i \in Some(DOMAIN C.evs) : Do(X("event", "", 0, C.evs[i].e, Tag, C.evs[i].s)) /\ ne' = ne + 1 /\ UNCHANGED <<nc, nl>>
Leave == /\ nl < C.leaves
         /\ \E u \in Some(Us) : \E a \in {"leave", "quit"} : (a = "quit" => u \in W.ready) /\ Do(Plain(a, u, 0)) /\ nl' = nl + 1 /\ UNCHANGED <<nc, ne>>
Gates == IF C.prod = "ts" THEN {<<W.p.jobs[j].u, W.p.jobs[j].h>> : j \in {i \in DOMAIN W.p.jobs : W.p.jobs[i].st = "gate"}} ELSE {}
Go == Gates # {} /\ \E g \in Some(Gates) : Do(X("go", g[1], 0, g[2], "", NoScript)) /\ UNCHANGED <<nc, ne, nl>>

(* a walk is over when everybody came, everything was said and has arrived *)
Over == AtRest(C, W) /\ (\A u \in Us : W.link[u] # "no") /\ nc = C.calls /\ ne = C.events

Init == k \in DOMAIN Cases /\ W = W0(Cases[k]) /\ nc = 0 /\ ne = 0 /\ nl = 0 /\ h = <<>>
Next == (Walk => ~Over) /\ (Open \/ Up \/ Down \/ Call \/ Event \/ Leave \/ Go) /\ UNCHANGED k
Spec == Init /\ [][Next]_vars
Holds == Contract(C, W)
Emit == Walk /\ (Over \/ TLCGet("level") >= 118) => PrintT(ToJson([c |-> k, h |-> h]))
Shape == <<k, W, nc, ne, nl>>
=============================================================================
