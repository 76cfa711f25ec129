---------------------------- MODULE TsConsumerGen ----------------------------
(* Bounded exploration of the TypeScript consumer: every stimulus of a case's  *)
(* alphabet in every reachable state of rest.  Checks monitors over the        *)
(* outputs, written without the consumer's state, and emits the histories.     *)
EXTENDS TsConsumerCore, Json, IOUtils

VARIABLES c, n, S, hist, g
vars == <<c, n, S, hist, g>>

Flows == TLCEval(JsonDeserialize(IOEnv.CG_FLOWS))
Cases == TLCEval(JsonDeserialize(IOEnv.CG_CASES))
FlowDef(f) == Flows[f]
Case == Cases[c]
Total == Len(Case.prefix) + Case.depth

(* ---- monitors ---- *)
G0 == [up |-> FALSE, got |-> {}, bc |-> 0, keyed |-> FALSE, hashed |-> FALSE, ready |-> FALSE, calls |-> {}, over |-> FALSE, bad |-> ""]
Need(x, b, why) == IF b \/ x.bad # "" THEN x ELSE [x EXCEPT !.bad = why]
Got(x, ref, m, err) == \E t \in x.got : t.ref = ref /\ t.m = m /\ t.err = err
MonEv(x, o) ==
  CASE o.k = "connected" -> [Need(x, ~x.up, "connected twice") EXCEPT !.up = TRUE]
    [] o.k = "ready" ->
         LET a == Need(x, x.up /\ ~x.ready, "ready twice in a connection")
             b == Need(a, x.keyed /\ x.hashed /\ Got(x, "hash", Sv("HashResponse"), FALSE), "ready before the handshake was complete")
         IN [Need(b, \E t \in x.got : t.ref = "key" /\ t.m = Sv("SelfKeyResponse") /\ t.tag = o.x, "ready under a foreign name") EXCEPT !.ready = TRUE]
    [] o.k = "disconnected" -> LET y == Need(x, x.up, "disconnected without a connection") IN [y EXCEPT !.up = FALSE, !.keyed = FALSE, !.hashed = FALSE, !.ready = FALSE]
    [] OTHER -> x
MonOne(x, o) ==
  LET live == Need(x, o.op \in {"res", "ctl"} \/ ~x.over, "something after the consumer was destroyed") IN
  CASE o.op = "ev" -> MonEv(live, o)
    [] o.op = "bcast" -> LET y == Need(live, \E t \in x.got : t.m = o.m /\ t.tag = o.tag, "a broadcast nobody sent") IN [Need(y, y.bc > 0, "a broadcast twice") EXCEPT !.bc = @ - 1]
    [] o.op = "send" /\ o.who = "key" -> [Need(live, x.up /\ ~x.keyed /\ Got(x, "0", Sv("ConnectConfirmationBeacon"), FALSE), "key without a confirmation") EXCEPT !.keyed = TRUE]
    [] o.op = "send" /\ o.who = "hash" -> [Need(live, x.keyed /\ ~x.hashed /\ Got(x, "key", Sv("SelfKeyResponse"), FALSE), "fingerprints before the key was answered") EXCEPT !.hashed = TRUE]
    [] o.op = "send" -> Need(live, x.up, "sent without a connection")
    [] o.op = "res" ->
         LET y == [Need(live, o.id \in x.calls, "a result nobody waits for") EXCEPT !.calls = @ \ {o.id}]
         IN IF o.m # "" THEN Need(y, \E t \in x.got : t.m = o.m /\ t.tag = o.tag, "a result that is no answer") ELSE y
    [] o.op = "ctl" -> [live EXCEPT !.over = TRUE]
    [] OTHER -> live
RECURSIVE Mon(_, _)
Mon(x, os) == IF os = <<>> THEN x ELSE Mon(MonOne(x, Head(os)), Tail(os))
Seen(y, x) ==
  CASE x.t = "msg" -> [y EXCEPT !.got = @ \cup Range(x.c), !.bc = @ + Cardinality({i \in DOMAIN x.c : x.c[i].t \in {"M", "B"}})]
    [] x.t = "call" \/ (x.t = "on" /\ x.a = "call") -> [y EXCEPT !.calls = @ \cup {x.id}]
    [] OTHER -> y

(* ---- the environment: which stimuli make sense ---- *)
Sensible(T, x) ==
  CASE x.t = "msg" -> /\ T.up
                      /\ IF T.half = "" THEN x.c[1].t # "B" ELSE x.c[1].t = "B" /\ x.c[1].m = T.half
                      /\ (\E i \in DOMAIN x.c : x.c[i].m = Sv("ConnectConfirmationBeacon")) => T.hs = "none"
    [] x.t = "connect" -> ~T.up /\ ~T.gone
    [] x.t \in {"disconnect", "error"} -> T.up
    [] x.t = "call" -> x.again = (x.tag \in DOMAIN T.objs) /\ x.id \notin DOMAIN T.jobs
    [] x.t = "on" -> /\ x.k \notin DOMAIN T.on
                     /\ IF x.a = "call" THEN x.tag \notin DOMAIN T.objs /\ \A k \in DOMAIN T.on : T.on[k].a = "call" => T.on[k].tag # x.tag ELSE TRUE
    [] x.t = "drop" -> IF x.of \in DOMAIN T.objs THEN T.objs[x.of] # "dead" ELSE FALSE
    [] x.t = "fault" -> x.on # T.fault
    [] x.t = "destroy" -> ~T.gone
    [] OTHER -> TRUE
RECURSIVE Fits(_, _), ApplyAll(_, _), SeenAll(_, _)
Fits(T, xs) == IF xs = <<>> THEN TRUE ELSE Sensible(T, Head(xs)) /\ Fits(Apply(T, Head(xs)), Tail(xs))
ApplyAll(T, xs) == IF xs = <<>> THEN T ELSE ApplyAll(Apply(T, Head(xs)), Tail(xs))
SeenAll(y, xs) == IF xs = <<>> THEN y ELSE SeenAll(Seen(y, Head(xs)), Tail(xs))

Init == /\ c \in DOMAIN Cases /\ n = 0 /\ hist = <<>> /\ g = G0 /\ S = S0(Cases[c].flow)
(* with a new connection a new handshake may begin *)
Renew(T, xs) == IF \E i \in DOMAIN xs : xs[i].t = "connect" THEN [T EXCEPT !.hs = "none"] ELSE T
Do(k, xs) ==
  /\ IF Fits(Renew(S, xs), xs) THEN TRUE ELSE k = 0 /\ PrintT(ToJson([stuck |-> c, at |-> n])) /\ FALSE
  /\ n' = n + 1 /\ hist' = Append(hist, k) /\ S' = TLCEval(ApplyAll(Renew(S, xs), xs)) /\ c' = c
  /\ g' = TLCEval(SeenAll(g, xs))
  /\ (k > 0 => PrintT(ToJson([c |-> c, h |-> hist'])))
Stim == /\ Quiet(S) /\ n < Total
        /\ IF n < Len(Case.prefix) THEN Do(0, Case.prefix[n + 1])
           ELSE \E k \in DOMAIN Case.alpha : Do(k, Case.alpha[k])
Run == \E r \in Steps(S) : S' = r.s /\ g' = Mon(g, r.o) /\ UNCHANGED <<c, n, hist>>
Next == Stim \/ Run
Spec == Init /\ [][Next]_vars
Monitors == g.bad = ""
(* at rest a call without result awaits an answer that can still come *)
NothingStuck == Quiet(S) => \A j \in DOMAIN S.jobs : S.jobs[j].st = "wait" /\ S.up /\ ~S.gone /\ "call:" \o S.jobs[j].o \in S.pend
                            /\ S.objs[S.jobs[j].o] # "ready"
OneEach == \A o \in DOMAIN S.objs : Cardinality({j \in DOMAIN S.jobs : S.jobs[j].o = o /\ S.jobs[j].st # "busy"}) <= 1
Shape == <<c, S, g, IF hist = <<>> THEN 0 ELSE hist[Len(hist)]>>
=============================================================================
