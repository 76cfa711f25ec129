----------------------------- MODULE ProducerGen -----------------------------
(* Bounded exploration of the producer: every stimulus of a case's alphabet in *)
(* every reachable state, up to a number of stimuli.  Checks the properties    *)
(* (monitors over the outputs, written independently of the state of the       *)
(* producer) and emits one history per explored (state, stimulus).             *)
EXTENDS ProducerCore, Json, IOUtils

VARIABLES c, n, S, hist, half, g
vars == <<c, n, S, hist, half, g>>

Flows == TLCEval(JsonDeserialize(IOEnv.PG_FLOWS))
Cases == TLCEval(JsonDeserialize(IOEnv.PG_CASES))
FlowDef(f) == Flows[f]

(* ---- monitors: what a run of outputs may look like ---- *)
G0 == [conn |-> {}, conf |-> {}, keyed |-> {}, hashed |-> {}, closed |-> {}, own |-> {}, ended |-> FALSE, down |-> FALSE, call |-> [op |-> "none"], bad |-> ""]
Fail(x, why) == IF x.bad = "" THEN [x EXCEPT !.bad = why] ELSE x
Need(x, b, why) == IF b THEN x ELSE Fail(x, why)
I(m) == "InternalServiceGroup." \o m
MonCall(x, o) ==
  LET y == [x EXCEPT !.call = o] IN
  CASE o.k \in {"request", "beacon"} ->
         LET a == Need(y, o.u \in x.conn \cap x.conf \cap x.hashed \cap (x.keyed \cup x.own), "P01 a handler was called before the handshake was over")
             b == Need(a, o.u \notin x.closed, "P01 a handler was called for a consumer that was sent away")
             d == Need(b, o.key # NoKey, "P06 no key")
         IN Need(d, o.all = x.conn, "P03 all")
    [] o.h = "connected" /\ o.k = "default" ->
         LET a == Need(y, o.u \notin x.conn, "P04 connected twice")
         IN [Need(a, o.all = x.conn, "P03 all") EXCEPT !.conn = @ \cup {o.u}, !.conf = @ \ {o.u}, !.keyed = @ \ {o.u}, !.hashed = @ \ {o.u}, !.closed = @ \ {o.u}]
    [] o.h = "disconnected" /\ o.k = "default" ->
         LET a == Need(y, o.u \in x.conn, "P04 disconnected without being connected")
         IN [Need(a, o.all = x.conn \ {o.u}, "P03 all") EXCEPT !.conn = @ \ {o.u}]
    [] o.k = "plain" /\ o.h = "shutdown" -> [y EXCEPT !.down = TRUE]
    [] o.k = "event" -> Need(y, o.all = x.conn, "P03 all")
    [] OTHER -> y
MonSend(x, o) ==
  LET y == Need(x, o.u \in x.conn, "P04 sent to a connection that does not exist") IN
  CASE o.m = I("ConnectConfirmationBeacon") -> [Need(y, o.u \notin x.conf, "P04 confirmed twice") EXCEPT !.conf = @ \cup {o.u}]
    [] o.m = I("SelfKeyResponse") -> [Need(y, o.u \notin x.hashed /\ o.u \in x.conf, "P01 key after hash") EXCEPT !.keyed = @ \cup {o.u}]
    [] o.m = I("HashResponse") -> IF o.tag = "ok" THEN [Need(y, o.u \in x.conf, "P01 hash before the confirmation") EXCEPT !.hashed = @ \cup {o.u}] ELSE y
    [] o.m = I("BeaconConfirmation") -> [Need(y, x.call.op = "call" /\ x.call.k = "beacon" /\ x.call.u = o.u, "P08 confirmation without a beacon") EXCEPT !.call.op = "beaconed"]
    [] OTHER -> [Need(y, x.call.op = "call" /\ x.call.k = "request" /\ x.call.u = o.u, "P02 a reply that answers no request") EXCEPT !.call.op = "replied"]
MonOne(x, o) ==
  LET y == Need(x, ~x.ended \/ o.op = "released", "P07 something happened after the end")
      z == IF x.call.op = "call" /\ x.call.k = "request" /\ o.op \notin {"send", "disc", "srvdown", "released"} THEN Fail(y, "P02 a request without its reply") ELSE y
  IN CASE o.op = "call" -> MonCall(z, o)
       [] o.op = "send" -> MonSend(z, o)
       [] o.op = "bcast" -> Need(Need(z, z.call.op # "none", "P02 a broadcast nobody asked for"), o.to # {}, "P02 empty broadcast")
       [] o.op = "disc" -> [z EXCEPT !.closed = @ \cup (IF x.call.op = "call" THEN {} ELSE {o.u})]
       [] o.op = "end" -> [Need(z, x.down, "P07 end without the shutdown handler") EXCEPT !.ended = TRUE]
       [] o.op = "released" -> Need(z, x.ended \/ ~S.ready, "P07 a waiting shutdown returned too early")
       [] OTHER -> z
RECURSIVE Mon(_, _, _)
Mon(x, os, T) == IF os = <<>> THEN (IF T.busy # "" THEN x ELSE IF x.call.op = "call" /\ x.call.k = "request" THEN Fail(x, "P02 a request without its reply") ELSE [x EXCEPT !.call = [op |-> "none"]])
              ELSE Mon(MonOne(x, Head(os)), Tail(os), T)

(* ---- the environment: which stimuli make sense ---- *)
HalfId(m) == ToString(<<m.m, m.q, m.key, m.s>>)
HalfAfter(toks) == IF toks # <<>> /\ toks[Len(toks)].t = "A" THEN HalfId(toks[Len(toks)]) ELSE ""
FitsHalf(h, toks) == IF h = "" THEN toks[1].t # "B" ELSE toks[1].t = "B" /\ h = HalfId(toks[1])
Half(h, u) == IF u \in DOMAIN h THEN h[u] ELSE ""
Sensible(h, x) == CASE x.t = "recv" -> FitsHalf(Half(h, x.u), x.c)
                    [] x.t = "connect" -> Half(h, x.u) = ""
                    [] x.t = "listen" -> S.endq = <<>>
                    [] x.t = "ready" -> ~S.ready
                    [] x.t = "go" -> S.busy = "hold"
                    [] x.t = "fault" -> S.busy = ""
                    [] OTHER -> TRUE

Case == Cases[c]
Total == Len(Case.prefix) + Case.depth
Init == /\ c \in DOMAIN Cases /\ n = 0 /\ hist = <<>> /\ half = [u \in {} |-> ""] /\ g = G0
        /\ S = S0(Cases[c].flow, Cases[c].ids, Cases[c].errs, Cases[c].cfg)
RECURSIVE Fits(_, _), Halves(_, _), ApplyAll(_, _, _)
Fits(h, xs) == IF xs = <<>> THEN TRUE
               ELSE LET x == Head(xs) IN Sensible(h, x) /\ Fits(Halves(h, <<x>>), Tail(xs))
Halves(h, xs) == IF xs = <<>> THEN h
                 ELSE LET x == Head(xs)
                          h1 == IF x.t = "recv" THEN With(h, x.u, HalfAfter(x.c)) ELSE IF x.t = "disconnect" THEN With(h, x.u, "") ELSE h
                      IN Halves(h1, Tail(xs))
ApplyAll(T, xs, k) == IF xs = <<>> THEN T ELSE ApplyAll(Apply(T, [n |-> 10 * (n + 1) + k] @@ Head(xs)), Tail(xs), k + 1)
ScriptKeyed(x) == {x.u : m \in {j \in DOMAIN x.c : x.c[j].s.k # <<>>}}
UserKeyed(xs) == UNION {IF xs[j].t = "ident" THEN {xs[j].u} ELSE IF xs[j].t = "recv" THEN ScriptKeyed(xs[j]) ELSE {} : j \in DOMAIN xs}
                 \cup (IF \E e \in DOMAIN S.cfg : S.cfg[e].s.k # <<>> THEN {xs[j].u : j \in {i \in DOMAIN xs : xs[i].t = "connect"}} ELSE {})
Do(k, xs) ==
  /\ Fits(half, xs)
  /\ n' = n + 1 /\ hist' = Append(hist, k) /\ S' = ApplyAll(S, xs, 0) /\ c' = c
  /\ g' = [g EXCEPT !.own = @ \cup UserKeyed(xs)]          \* user code may identify a consumer itself
  /\ half' = Halves(half, xs)
  /\ (k > 0 => PrintT(ToJson([c |-> c, h |-> hist', t |-> 1])))
Stim == /\ Quiet(S) /\ ~S.fin /\ n < Total
        /\ IF n < Len(Case.prefix) THEN Do(0, Case.prefix[n + 1])
           ELSE \E k \in DOMAIN Case.alpha : Do(k, Case.alpha[k])
Run == \E r \in Steps(S) : S' = r.s /\ g' = Mon(g, r.o, r.s) /\ UNCHANGED <<c, n, hist, half>>
Next == Stim \/ Run
Spec == Init /\ [][Next]_vars
Monitors == g.bad = "" /\ (S.busy # "" => S.lst \/ S.fin = FALSE)
Shape == <<c, S, half, g, IF hist = <<>> THEN 0 ELSE hist[Len(hist)]>>
=============================================================================
