---------------------------- MODULE TsProducerGen ----------------------------
(* Bounded exploration of the TypeScript producer: every stimulus of a case's  *)
(* alphabet in every reachable state, also while jobs are still open.  Checks  *)
(* the rules of serving (monitors over the outputs) and emits the histories.   *)
EXTENDS TsProducerCore, Json, IOUtils

VARIABLES c, n, S, hist, half, g
vars == <<c, n, S, hist, half, g>>

Flows == TLCEval(JsonDeserialize(IOEnv.PG_FLOWS))
Cases == TLCEval(JsonDeserialize(IOEnv.PG_CASES))
FlowDef(f) == Flows[f]

(* ---- monitors ---- *)
G0 == [conn |-> {}, conf |-> {}, keyed |-> {}, hashed |-> {}, away |-> {}, own |-> {}, bad |-> ""]
Fail(x, why) == IF x.bad = "" THEN [x EXCEPT !.bad = why] ELSE x
Need(x, b, why) == IF b THEN x ELSE Fail(x, why)
Forget(x, u) == [x EXCEPT !.conf = @ \ {u}, !.keyed = @ \ {u}, !.hashed = @ \ {u}, !.away = @ \ {u}]
MonOne(x, o) ==
  CASE o.op = "call" /\ o.k \in {"request", "beacon"} ->
         LET a == Need(x, o.u \in x.conn \cap x.hashed /\ o.u \in x.keyed \cup x.own, "a handler was called before the handshake was over")
             b == Need(a, o.u \notin x.away, "a handler was called for a consumer that was sent away")
         IN Need(b, o.all = x.conn /\ o.key # NoKey, "what the handler sees")
    [] o.op = "call" /\ o.h = "connected" -> [Forget(Need(x, o.u \notin x.conn, "connected twice"), o.u) EXCEPT !.conn = @ \cup {o.u}]
    [] o.op = "call" /\ o.h = "disconnected" -> [Need(x, o.u \in x.conn, "disconnected without being connected") EXCEPT !.conn = @ \ {o.u}]
    [] o.op = "send" /\ o.m = Sv("ConnectConfirmationBeacon") -> [Need(x, o.u \notin x.conf /\ o.u \in x.conn, "confirmed twice") EXCEPT !.conf = @ \cup {o.u}]
    [] o.op = "send" /\ o.m = Sv("SelfKeyResponse") -> [Need(x, o.u \notin x.hashed, "key after hash") EXCEPT !.keyed = @ \cup {o.u}]
    [] o.op = "send" /\ o.m = Sv("HashResponse") -> IF o.tag = "ok" THEN [x EXCEPT !.hashed = @ \cup {o.u}] ELSE x
    [] o.op = "disc" -> [x EXCEPT !.away = @ \cup {o.u}]
    [] OTHER -> x
RECURSIVE Mon(_, _)
Mon(x, os) == IF os = <<>> THEN x ELSE Mon(MonOne(x, Head(os)), Tail(os))

(* ---- what must hold of the open jobs ---- *)
JobsOk == \A i \in DOMAIN S.jobs :
  LET j == S.jobs[i] IN
  /\ j.st \in {"sent", "bc"} /\ j.k \in {"request", "beacon"} => j.ok
  /\ j.st = "bc" /\ j.k \in {"request", "beacon"} => j.p = "resolved"       \* broadcasts and deferred action only behind the reply
  /\ j.open # <<>> => j.st = "bc"

(* ---- the environment: which stimuli make sense ---- *)
HalfId(m) == ToString(<<m.m, m.q, m.key, m.s>>)
HalfAfter(toks) == IF toks # <<>> /\ toks[Len(toks)].t = "A" THEN HalfId(toks[Len(toks)]) ELSE ""
FitsHalf(h, toks) == IF h = "" THEN toks[1].t # "B" ELSE toks[1].t = "B" /\ h = HalfId(toks[1])
Half(h, u) == IF u \in DOMAIN h THEN h[u] ELSE ""
Busy(u) == \E i \in DOMAIN S.jobs : S.jobs[i].u = u \/ u \in Range(S.jobs[i].open) \/ \E k \in DOMAIN S.jobs[i].bc : S.jobs[i].bc[k].u = u
Sensible(h, x) == CASE x.t = "recv" -> FitsHalf(Half(h, x.u), x.c)
                    [] x.t = "connect" -> Half(h, x.u) = "" /\ ~Busy(x.u) /\ (x.u \in DOMAIN S.conns \/ x.u \notin S.seen)
                    [] x.t = "ident" -> x.u \in S.seen
                    [] x.t = "go" -> \E i \in DOMAIN S.jobs : S.jobs[i].st = "gate" /\ S.jobs[i].h = x.h /\ S.jobs[i].u = x.u
                    [] x.t = "hold" -> x.u \notin S.hold
                    [] x.t = "release" -> x.u \in S.hold
                    [] OTHER -> TRUE
Case == Cases[c]
Total == Len(Case.prefix) + Case.depth
Init == /\ c \in DOMAIN Cases /\ n = 0 /\ hist = <<>> /\ half = [u \in {} |-> ""] /\ g = G0
        /\ S = S0(Cases[c].flow, Cases[c].ids, Cases[c].errs, Cases[c].cfg)
RECURSIVE Fits(_, _), Halves(_, _), ApplyAll(_, _, _)
Fits(h, xs) == IF xs = <<>> THEN TRUE ELSE LET x == Head(xs) IN Sensible(h, x) /\ Fits(Halves(h, <<x>>), Tail(xs))
Halves(h, xs) == IF xs = <<>> THEN h
                 ELSE LET x == Head(xs)
                          h1 == IF x.t = "recv" THEN With(h, x.u, HalfAfter(x.c)) ELSE IF x.t = "disconnect" THEN With(h, x.u, "") ELSE h
                      IN Halves(h1, Tail(xs))
ApplyAll(T, xs, k) == IF xs = <<>> THEN T ELSE ApplyAll(Apply(T, Head(xs)), Tail(xs), k + 1)
ScriptKeyed(x) == {x.u : m \in {j \in DOMAIN x.c : x.c[j].s.k # <<>>}}
UserKeyed(xs) == UNION {IF xs[j].t = "ident" THEN {xs[j].u} ELSE IF xs[j].t = "recv" THEN ScriptKeyed(xs[j]) ELSE {} : j \in DOMAIN xs}
                 \cup (IF \E e \in DOMAIN S.cfg : S.cfg[e].s.k # <<>> THEN {xs[j].u : j \in {i \in DOMAIN xs : xs[i].t = "connect"}} ELSE {})
Do(k, xs) ==
  /\ Fits(half, xs)
  /\ n' = n + 1 /\ hist' = Append(hist, k) /\ S' = ApplyAll(S, xs, 0) /\ c' = c
  /\ g' = [g EXCEPT !.own = @ \cup UserKeyed(xs)]
  /\ half' = Halves(half, xs)
  /\ (k > 0 => PrintT(ToJson([c |-> c, h |-> hist', t |-> 1])))
Stim == /\ Quiet(S) /\ n < Total
        /\ IF n < Len(Case.prefix) THEN Do(0, Case.prefix[n + 1])
           ELSE \E k \in DOMAIN Case.alpha : Do(k, Case.alpha[k])
Run == \E r \in Steps(S) : S' = r.s /\ g' = Mon(g, r.o) /\ UNCHANGED <<c, n, hist, half>>
Next == Stim \/ Run
Spec == Init /\ [][Next]_vars
Monitors == g.bad = ""
(* at rest only what handlers and transport hold back is still open *)
NothingStuck == Quiet(S) => \A i \in DOMAIN S.jobs : S.jobs[i].st = "gate" \/ S.jobs[i].p = "held" \/ S.jobs[i].open # <<>>
Shape == <<c, [S EXCEPT !.n = 0], half, g, IF hist = <<>> THEN 0 ELSE hist[Len(hist)]>>
=============================================================================
