--------------------------- MODULE TsConsumerCore ---------------------------
(* A generated TypeScript consumer: its state, what it may do next, and what   *)
(* callers, subscribers and the transport see of it.                           *)
(*                                                                             *)
(* What the transport and the application tell waits in S.inq.  Messages are    *)
(* taken one after the other; what follows an answer (the next step of the     *)
(* handshake, the end of a call) happens some time later, in a job of its own.  *)
(*                                                                             *)
(* S    the state (see S0)     Apply(S, x)   the environment does x             *)
(* Steps(S)   the set of <<next state, outputs>> the consumer may do next       *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, SequencesExt, Functions

CONSTANTS FLOW(_),     \* the workflow by name: list (request -> answers), beacons, broadcasts
          AnyOrder     \* whether what the consumer leaves open is explored (else: one representative)

S0(flow) ==
  [flow |-> flow, up |-> FALSE, gone |-> FALSE, fault |-> FALSE,
   inq |-> <<>>, cur |-> FALSE, q |-> <<>>, half |-> "",
   hs |-> "none", uuid |-> "",                    \* handshake: none start key keyed hash ok done failed
   pend |-> {},                                   \* whose numbers await an answer: key, hash, call:<tag>
   objs |-> [o \in {} |-> 0],                     \* request objects: ready, pending, dead
   on |-> [k \in {} |-> 0],                       \* what a subscriber does when it is told of k the next time
   jobs |-> [j \in {} |-> 0]]                     \* calls without result

(* ---- outputs ---- *)
Sv(m) == "InternalServiceGroup." \o m
Ev(k, x) == [op |-> "ev", k |-> k, x |-> x, m |-> "", tag |-> ""]
BcastOut(m, tag) == [op |-> "bcast", k |-> "", x |-> "", m |-> m, tag |-> tag]
SendOut(m, who, x) == [op |-> "send", m |-> m, who |-> who, x |-> x]
Res(id, k, m, tag) == [op |-> "res", id |-> id, k |-> k, m |-> m, tag |-> tag]
R(S, o) == [s |-> S, o |-> o]
Without(f, u) == [x \in DOMAIN f \ {u} |-> f[x]]
With(f, u, v) == [x \in DOMAIN f \cup {u} |-> IF x = u THEN v ELSE f[x]]

(* ---- sending ---- *)
CanSend(S) == S.up /\ ~S.fault /\ ~S.gone
(* the handshake goes on, or fails with the transport *)
Hand(S, who, m, hs) ==
  IF CanSend(S) THEN R([S EXCEPT !.pend = @ \cup {who}, !.hs = hs], <<SendOut(m, who, "own")>>)
  ELSE R([S EXCEPT !.hs = "failed"], <<>>)

(* ---- calls ---- *)
IsBeacon(S, m) == m \in Range(FLOW(S.flow).beacons)
(* the conclusion an answer stands for: its handler, and what the caller is given *)
Conclusion(S, j) ==
  IF IsBeacon(S, j.m) THEN
    (IF j.ans.m = Sv("BeaconConfirmation") /\ ~j.ans.err THEN [k |-> "response", m |-> "", tag |-> ""] ELSE [k |-> "!err", m |-> "", tag |-> ""])
  ELSE LET l == FLOW(S.flow).list[j.m]
           at == {i \in DOMAIN l : l[i].m = j.ans.m}
       IN IF at = {} THEN [k |-> "!", m |-> "", tag |-> ""]
          ELSE LET i == CHOOSE i \in at : \A h \in at : i <= h IN [k |-> l[i].c, m |-> j.ans.m, tag |-> j.ans.tag]
Ready(S, o) == [S EXCEPT !.objs[o] = IF @ = "pending" THEN "ready" ELSE @]
Drop(S, id) == [S EXCEPT !.jobs = Without(@, id)]
JobSteps(S, id) ==
  LET j == S.jobs[id] IN
  CASE j.st = "got" ->
         LET c == Conclusion(S, j) IN
         {R(Drop(Ready(S, j.o), id), <<IF S.objs[j.o] = "dead" THEN Res(id, "!", "", "") ELSE Res(id, c.k, c.m, c.tag)>>)}
    [] j.st = "no" -> {R(Drop(Ready(S, j.o), id), <<Res(id, "!", "", "")>>)}
    [] j.st = "busy" -> {R(Drop(S, id), <<Res(id, "!", "", "")>>)}
    [] OTHER -> {}
NoAns == [t |-> "", m |-> "", ref |-> "", tag |-> "", err |-> FALSE]
Call(S, x) ==
  LET has == x.tag \in DOMAIN S.objs
      st == IF has THEN S.objs[x.tag] ELSE "ready"
      j == [o |-> x.tag, m |-> x.m, st |-> "wait", ans |-> NoAns]
  IN IF st # "ready" THEN R([S EXCEPT !.jobs = With(@, x.id, [j EXCEPT !.st = "busy"])], <<>>)
     ELSE LET T == [S EXCEPT !.objs = With(@, x.tag, "pending")] IN
          IF CanSend(S) THEN R([T EXCEPT !.jobs = With(@, x.id, j), !.pend = @ \cup {"call:" \o x.tag}], <<SendOut(x.m, "call:" \o x.tag, "")>>)
          ELSE R([T EXCEPT !.jobs = With(@, x.id, [j EXCEPT !.st = "no"])], <<>>)

(* nobody answers any more: every call ends, the handshake too *)
Refuse(S) == [S EXCEPT !.pend = {}, !.hs = IF @ \in {"key", "hash"} THEN "failed" ELSE @,
                       !.jobs = [j \in DOMAIN @ |-> IF @[j].st = "wait" THEN [@[j] EXCEPT !.st = "no"] ELSE @[j]]]
Destroy(S) == R([Refuse(S) EXCEPT !.gone = TRUE, !.up = FALSE], <<[op |-> "ctl"]>>)

(* subscribers are told of k; one of them may call, or destroy the consumer, before it returns *)
Tell(S, k, o) ==
  IF k \notin DOMAIN S.on THEN R(S, <<o>>)
  ELSE LET x == S.on[k]
           T == [S EXCEPT !.on = Without(@, k)]
           r == IF x.a = "call" THEN Call(T, x) ELSE IF T.gone THEN R(T, <<>>) ELSE Destroy(T)
       IN R(r.s, <<o>> \o r.o)

HandSteps(S) ==
  CASE S.hs = "start" -> {Hand(S, "key", "key", "key")}
    [] S.hs = "keyed" -> {Hand(S, "hash", Sv("HashRequest"), "hash")}
    [] S.hs = "ok" ->                              \* open: ready of a consumer that has been destroyed meanwhile
         (IF S.gone THEN {R([S EXCEPT !.hs = "done"], <<>>)} ELSE {})
         \cup (IF ~S.gone \/ AnyOrder THEN {Tell([S EXCEPT !.hs = "done"], "ready", Ev("ready", S.uuid))} ELSE {})
    [] OTHER -> {}

(* ---- one message ---- *)
Answered(S, t) ==
  LET S1 == [S EXCEPT !.pend = @ \ {t.ref}] IN
  CASE t.ref = "key" -> IF t.m = Sv("SelfKeyResponse") THEN [S1 EXCEPT !.hs = "keyed", !.uuid = t.tag] ELSE [S1 EXCEPT !.hs = "failed"]
    [] t.ref = "hash" -> [S1 EXCEPT !.hs = IF t.m = Sv("HashResponse") /\ ~t.err THEN "ok" ELSE "failed"]
    [] OTHER -> LET mine == {j \in DOMAIN S.jobs : S.jobs[j].st = "wait" /\ t.ref = "call:" \o S.jobs[j].o}
                IN [S1 EXCEPT !.jobs = [j \in DOMAIN @ |-> IF j \in mine THEN [@[j] EXCEPT !.st = "got", !.ans = t] ELSE @[j]]]
OneMessage(S, t) ==
  IF t.ref \in S.pend THEN R(Answered(S, t), <<>>)
  ELSE IF t.m = Sv("ConnectConfirmationBeacon") THEN R([S EXCEPT !.hs = "start"], <<>>)
  ELSE IF t.m \in Range(FLOW(S.flow).broadcasts) THEN Tell(S, "bcast", BcastOut(t.m, t.tag)) ELSE R(S, <<>>)

(* the stream reader: tokens M (a whole package), A and B (its halves), anything else is refused *)
RECURSIVE Read(_, _, _)
Read(toks, q, bad) ==
  IF toks = <<>> THEN [q |-> q, bad |-> bad]
  ELSE LET t == Head(toks) IN
    IF t.t \in {"M", "B"} THEN Read(Tail(toks), Append(q, t), bad)
    ELSE Read(Tail(toks), q, bad \/ t.t # "A")
Received(S, toks) ==
  LET r == Read(toks, S.q, FALSE)
      T == [S EXCEPT !.q = r.q]
  IN IF ~r.bad THEN {R([T EXCEPT !.cur = TRUE], <<>>)}
     ELSE {R(T, <<>>)} \cup (IF AnyOrder THEN {R([T EXCEPT !.cur = TRUE], <<>>)} ELSE {})
(* whether the rest of a chunk is still told when a subscriber has destroyed the consumer is open *)
Work(S) ==
  IF S.q = <<>> THEN {R([S EXCEPT !.cur = FALSE], <<>>)}
  ELSE LET T == [S EXCEPT !.q = Tail(@)] IN
       IF ~S.gone THEN {OneMessage(T, Head(S.q))}
       ELSE {R(T, <<>>)} \cup (IF AnyOrder THEN {OneMessage(T, Head(S.q))} ELSE {})

Input(S, x) ==
  CASE x.t = "connect" -> {IF S.gone THEN R([S EXCEPT !.up = TRUE], <<>>) ELSE Tell([S EXCEPT !.up = TRUE], "connected", Ev("connected", ""))}
    [] x.t = "disconnect" ->
         {IF S.gone THEN R([S EXCEPT !.up = FALSE], <<>>)
          ELSE Tell([Refuse(S) EXCEPT !.up = FALSE, !.uuid = "", !.q = <<>>, !.half = ""], "disconnected", Ev("disconnected", ""))}
    [] x.t = "msg" -> IF S.gone THEN {R(S, <<>>)} ELSE Received(S, x.c)
    [] x.t = "error" -> {IF S.gone THEN R(S, <<>>) ELSE Tell(S, "error", Ev("error", ""))}
    [] x.t = "call" -> {Call(S, x)}
    [] x.t = "mass" -> {R(S, <<[op |-> "mass", id |-> x.id, ok |-> IF CanSend(S) THEN x.count ELSE 0]>>)}    \* that many calls, each answered at once
    [] x.t = "drop" -> {R([S EXCEPT !.objs = IF x.of \in DOMAIN @ THEN [@ EXCEPT ![x.of] = "dead"] ELSE @], <<>>)}
    [] x.t = "fault" -> {R([S EXCEPT !.fault = x.on], <<>>)}
    [] x.t = "on" -> {R([S EXCEPT !.on = With(@, x.k, x)], <<>>)}
    [] x.t = "destroy" -> {Destroy(S)}
    [] OTHER -> {R(S, <<>>)}

HalfOf(toks) == IF toks # <<>> /\ toks[Len(toks)].t = "A" THEN toks[Len(toks)].m ELSE ""
Apply(S, x) == [S EXCEPT !.inq = Append(@, x), !.half = IF x.t = "msg" THEN HalfOf(x.c) ELSE IF x.t = "disconnect" THEN "" ELSE @]
(* what the transport tells, it tells when what it told before has had its effect *)
Wire(x) == x.t \in {"msg", "connect", "disconnect", "error"}
Later(S) == HandSteps(S) \cup UNION {JobSteps(S, id) : id \in DOMAIN S.jobs}
Steps(S) ==
  LET later == Later(S) IN
  (IF S.cur THEN Work(S)
   ELSE IF S.inq = <<>> THEN {}
   ELSE IF Wire(Head(S.inq)) /\ later # {} THEN {}
   ELSE Input([S EXCEPT !.inq = Tail(@)], Head(S.inq)))
  \cup later
Quiet(S) == Steps(S) = {}
=============================================================================
