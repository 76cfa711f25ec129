----------------------------- MODULE ConsumerGen -----------------------------
(* Bounded exploration of the consumer: every stimulus (or burst of stimuli)   *)
(* of a case's alphabet in every reachable state of rest, up to a number of   *)
(* steps.  Checks monitors over the outputs, written independently of the     *)
(* consumer's state, and emits one history per explored (state, stimulus).    *)
EXTENDS ConsumerCore, Json, IOUtils

VARIABLES c, n, S, hist, g
vars == <<c, n, S, hist, g>>

Flows == TLCEval(JsonDeserialize(IOEnv.CG_FLOWS))
Cases == TLCEval(JsonDeserialize(IOEnv.CG_CASES))
FlowDef(f) == Flows[f]
Case == Cases[c]
Total == Len(Case.prefix) + Case.depth

(* ---- monitors ---- *)
G0 == [open |-> FALSE, opened |-> FALSE, got |-> {}, bc |-> 0, connected |-> FALSE, keyed |-> FALSE, hashed |-> FALSE, disc |-> FALSE,
       shut |-> FALSE, failed |-> FALSE, asked |-> FALSE, calls |-> {}, down |-> {}, ctl |-> FALSE, released |-> FALSE, bad |-> ""]
Need(x, b, why) == IF b \/ x.bad # "" THEN x ELSE [x EXCEPT !.bad = why]
Got(x, ref, m, err) == \E t \in x.got : t.ref = ref /\ t.m = m /\ t.err = err
MonEv(x, o) ==
  CASE o.k = "connected" ->
         LET a == Need(x, x.open /\ ~x.connected, "C01 connected twice in a session")
             b == Need(a, x.keyed /\ x.hashed /\ Got(x, "key", Sv("SelfKeyResponse"), FALSE) /\ Got(x, "hash", Sv("HashResponse"), FALSE), "C01 connected without a complete handshake")
         IN [b EXCEPT !.connected = TRUE]
    [] o.k = "disconnected" -> [Need(x, x.open /\ ~x.disc, "C04 disconnected twice") EXCEPT !.disc = TRUE]
    [] o.k = "shutdown" -> [Need(x, x.disc /\ ~x.shut, "C04 shutdown out of order") EXCEPT !.shut = TRUE, !.failed = o.x # ""]
    [] o.k = "reconnect" -> [Need(x, x.shut /\ ~x.failed /\ ~x.ctl /\ S.reconnect > 0, "C04 reconnection although it must not") EXCEPT !.asked = TRUE]
    [] o.k = "error" -> Need(x, x.open /\ ~x.shut, "C04 an error outside of a session")
    [] OTHER -> x
MonOne(x, o) ==
  CASE o.op = "ev" -> MonEv(x, o)
    [] o.op = "open" -> LET y == Need(x, ~x.opened \/ (x.asked /\ S.again), "C04 a connection nobody asked for")
                        IN [G0 EXCEPT !.open = TRUE, !.opened = TRUE, !.calls = y.calls, !.down = y.down, !.bad = y.bad]
    [] o.op = "bcast" -> LET y == Need(x, \E t \in x.got : t.m = o.m /\ t.tag = o.tag, "C03 a broadcast nobody sent") IN [Need(y, y.bc > 0, "C03 a broadcast twice") EXCEPT !.bc = @ - 1]
    [] o.op = "send" /\ o.who = "key" -> [Need(x, x.open /\ ~x.keyed /\ Got(x, "0", Sv("ConnectConfirmationBeacon"), FALSE), "C01 key without a confirmation") EXCEPT !.keyed = TRUE]
    [] o.op = "send" /\ o.who = "hash" -> [Need(x, x.keyed /\ ~x.hashed /\ Got(x, "key", Sv("SelfKeyResponse"), FALSE), "C01 fingerprints before the key was answered") EXCEPT !.hashed = TRUE]
    [] o.op = "send" -> Need(x, x.open /\ ~x.shut, "C02 sent outside of a session")
    [] o.op = "res" ->
         LET y == [Need(x, o.id \in x.calls, "C02 a result nobody waits for") EXCEPT !.calls = @ \ {o.id}]
         IN IF o.m # "" THEN Need(y, x.open /\ \E t \in x.got : t.ref = "call:" \o o.id /\ t.m = o.m /\ t.tag = o.tag, "C02 a result that is not the answer to the call") ELSE y
    [] o.op = "ctl" -> [Need(x, x.open /\ ~x.ctl, "C04 shut down twice") EXCEPT !.ctl = TRUE]
    [] o.op = "released" -> LET y == Need(x, o.id \in x.down, "C04 released twice")
                            IN [Need(y, ~o.ok \/ ((x.shut \/ S.busy # "") /\ x.ctl), "C04 released before the session was over") EXCEPT !.down = @ \ {o.id}]
    [] OTHER -> x
RECURSIVE Mon(_, _)
Mon(x, os) == IF os = <<>> THEN x ELSE Mon(MonOne(x, Head(os)), Tail(os))
Tokens(x) == IF x.t = "msg" THEN Range(x.c) ELSE {}
Seen(y, x) ==
  CASE x.t = "msg" -> IF S.phase = "up" THEN [y EXCEPT !.got = @ \cup Range(x.c), !.bc = @ + Cardinality({i \in DOMAIN x.c : x.c[i].t \in {"M", "B"}})] ELSE y
    [] x.t = "call" -> [y EXCEPT !.calls = @ \cup {x.id}]
    [] x.t = "plan" /\ x.a.act = "call" -> [y EXCEPT !.calls = @ \cup {x.a.id}]
    [] x.t = "plan" /\ x.a.act = "shutdown" -> [y EXCEPT !.down = @ \cup {x.a.id}]
    [] x.t = "abandon" -> [y EXCEPT !.calls = @ \ {x.of}]
    [] x.t = "shutdown" -> [y EXCEPT !.down = @ \cup {x.id}]
    [] OTHER -> y

(* ---- the environment: which stimuli make sense ---- *)
Busy(T, tag) == "call:" \o tag \in T.pend \/ \E j \in DOMAIN T.jobs : T.jobs[j].tag = tag
Sensible(T, x) ==
  CASE x.t = "msg" -> /\ T.phase = "up"
                      /\ IF T.half = "" THEN x.c[1].t # "B" ELSE x.c[1].t = "B" /\ x.c[1].m = T.half
                      /\ (\E i \in DOMAIN x.c : x.c[i].m = Sv("ConnectConfirmationBeacon")) => T.auth = "none" /\ T.cliq = <<>>
    [] x.t = "close" -> T.phase = "up" /\ T.closeq = ""
    [] x.t = "cli" -> T.phase = "up"
    [] x.t = "call" -> ~Busy(T, x.tag)
    [] x.t \in {"keep", "shutdown"} -> x.id \notin DOMAIN T.jobs
    [] x.t = "abandon" -> \E j \in DOMAIN T.jobs : T.jobs[j].tag = x.of
    [] x.t = "fault" -> x.on # T.fault
    [] x.t = "plan" -> Len(T.plan) < 2 /\ x.a.id \notin DOMAIN T.jobs /\ (\A i \in DOMAIN T.plan : T.plan[i].id # x.a.id) /\ (x.a.act = "call" => ~Busy(T, x.a.tag))
    [] x.t = "go" -> T.busy = "hold"
    [] x.t = "tick" -> T.phase = "wait" \/ \E j \in DOMAIN T.jobs : T.jobs[j].st = "wait"
    [] OTHER -> TRUE
RECURSIVE Fits(_, _), ApplyAll(_, _), SeenAll(_, _)
Fits(T, xs) == IF xs = <<>> THEN TRUE ELSE Sensible(T, Head(xs)) /\ Fits(Apply(T, Head(xs)), Tail(xs))
ApplyAll(T, xs) == IF xs = <<>> THEN T ELSE ApplyAll(Apply(T, Head(xs)), Tail(xs))
SeenAll(y, xs) == IF xs = <<>> THEN y ELSE SeenAll(Seen(y, Head(xs)), Tail(xs))

Init == /\ c \in DOMAIN Cases /\ n = 0 /\ hist = <<>> /\ g = G0
        /\ S = S0(Cases[c].flow, Cases[c].reconnect, Cases[c].timeout, Cases[c].again)
Do(k, xs) ==
  /\ IF Fits(S, xs) THEN TRUE ELSE k = 0 /\ PrintT(ToJson([stuck |-> c, at |-> n])) /\ FALSE
  /\ n' = n + 1 /\ hist' = Append(hist, k) /\ S' = TLCEval(ApplyAll(S, xs)) /\ c' = c
  /\ g' = TLCEval(SeenAll(g, xs))
  /\ (k > 0 => PrintT(ToJson([c |-> c, h |-> hist', t |-> 1])))
Stim == /\ n < Total /\ Quiet(S)
        /\ IF n < Len(Case.prefix) THEN Do(0, Case.prefix[n + 1])
           ELSE \E k \in DOMAIN Case.alpha : Do(k, Case.alpha[k])
Run == \E r \in Steps(S) : S' = r.s /\ g' = TLCEval(Mon(g, r.o)) /\ UNCHANGED <<c, n, hist>>
Next == Stim \/ Run
Spec == Init /\ [][Next]_vars
Monitors == g.bad = ""
(* at rest everybody who must have been told has been told *)
Later == {S.plan[i].id : i \in DOMAIN S.plan}
Rest == Quiet(S) => /\ (S.phase # "up" => g.disc /\ g.shut)
                    /\ (S.phase = "end" => g.calls \subseteq Later /\ g.down \subseteq Later)
                    /\ (S.phase = "up" /\ S.busy = "" => ~g.disc /\ ~g.ctl)
                    /\ (S.phase = "up" /\ S.shown => S.busy = "hold")          \* nothing but a handler that takes its time holds the end up
                    /\ (S.busy = "" => S.evq = <<>>)
                    /\ \A id \in g.calls : id \in DOMAIN S.jobs \cup Later
Shape == <<c, S, g, IF hist = <<>> THEN 0 ELSE hist[Len(hist)]>>
=============================================================================
