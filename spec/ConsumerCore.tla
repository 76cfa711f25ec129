---------------------------- MODULE ConsumerCore ----------------------------
(* A generated consumer: its sessions, what it may do next, and what the      *)
(* user's handlers, the callers and the transport see of it.                  *)
(*                                                                            *)
(* Apply(S, x)   the environment does x (bytes arrive, the connection ends, a  *)
(*               call is made or abandoned, a shutdown is asked for, time ...)  *)
(* Steps(S)      the set of <<next state, outputs>> the consumer may do next   *)
(*                                                                            *)
(* Tasks of a session: one takes the client's messages in order, one holds    *)
(* the table of requests without answer, one waits for the connection's end,  *)
(* one waits for a request to shut down.  When one of them ends, the session  *)
(* is cancelled, and each of the others ends after whatever it still takes.   *)
(* The user's handlers run one after another, in a task of their own: one may  *)
(* take its time, call the producer or ask for a shutdown and wait for it;     *)
(* what comes meanwhile is handed over afterwards, in order.                   *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, SequencesExt, Functions

CONSTANTS FLOW(_)      \* the workflow by name: list (request -> answers), beacons, broadcasts

Sv(n) == "InternalServiceGroup." \o n

Fresh(S) ==
  [S EXCEPT !.phase = "up", !.auth = "none", !.pend = {}, !.cliq = <<>>, !.cur = <<>>, !.q = <<>>, !.rest = <<>>, !.half = "",
            !.msgT = TRUE, !.apiT = TRUE, !.conT = TRUE, !.shT = TRUE, !.cancel = FALSE, !.shq = <<>>, !.acc = "", !.closeq = "",
            !.resM = "", !.resA = "", !.resC = "", !.shown = FALSE, !.evq = <<>>, !.busy = "", !.freed = FALSE]
S0(flow, reconnect, timeout, again) ==
       [flow |-> flow, reconnect |-> reconnect, timeout |-> timeout, again |-> again,
         phase |-> "wait", left |-> 0,             \* up, wait (for the next connection), end
         auth |-> "none",                          \* of the handshake: none start key hashing hash ok done, or an error
         pend |-> {},                              \* whose numbers await an answer: key, hash, call:<tag>
         cliq |-> <<>>, cur |-> <<>>,              \* what the client passed on; messages of the chunk in work
         q |-> <<>>, rest |-> <<>>, half |-> "",   \* the stream reader
         msgT |-> TRUE, apiT |-> TRUE, conT |-> TRUE, shT |-> TRUE, cancel |-> FALSE,
         shq |-> <<>>, acc |-> "", closeq |-> "", resM |-> "", resA |-> "", resC |-> "", shown |-> FALSE,
         evq |-> <<>>,                            \* what the handlers have not been called for yet
         busy |-> "",                             \* what the running handler waits for: a job, "hold", or "go"
         plan |-> <<>>,                           \* what handlers are going to do: on (which), act, id, m, tag
         freed |-> FALSE,                         \* the accepted shutdown is confirmed
         fault |-> FALSE, kept |-> "none",
         jobs |-> [u \in {} |-> 0]]               \* calls, shutdowns and requests for a handle in progress

(* ---- outputs ---- *)
Ev(k, x) == [op |-> "ev", k |-> k, x |-> x, m |-> "", tag |-> ""]
BcastOut(m, tag) == [op |-> "bcast", k |-> "", x |-> "", m |-> m, tag |-> tag]
SendOut(m, who, x) == [op |-> "send", m |-> m, who |-> who, x |-> x]
Res(id, k, m, tag) == [op |-> "res", id |-> id, k |-> k, m |-> m, tag |-> tag]
Gone(id) == Res(id, "!gone", "", "")
Released(id, ok) == [op |-> "released", id |-> id, ok |-> ok]
R(S, o) == [s |-> S, o |-> o]

NoAns == [t |-> "", m |-> "", ref |-> "", tag |-> "", err |-> FALSE]
Without(f, u) == [x \in DOMAIN f \ {u} |-> f[x]]
With(f, u, v) == [x \in DOMAIN f \cup {u} |-> IF x = u THEN v ELSE f[x]]

(* ---- one message ---- *)
Answered(S, t) ==
  LET S1 == [S EXCEPT !.pend = @ \ {t.ref}] IN
  CASE t.ref = "key" -> [S1 EXCEPT !.auth = IF t.m = Sv("SelfKeyResponse") THEN "hashing" ELSE "eHandshake"]
    [] t.ref = "hash" -> [S1 EXCEPT !.auth = IF t.m = Sv("HashResponse") /\ ~t.err THEN "ok" ELSE "eHashCheck"]
    [] OTHER -> LET mine == {j \in DOMAIN S.jobs : S.jobs[j].cur /\ S.jobs[j].st = "wait" /\ t.ref = "call:" \o S.jobs[j].tag}
                IN [S1 EXCEPT !.jobs = [j \in DOMAIN @ |-> IF j \in mine THEN [@[j] EXCEPT !.st = "answered", !.ans = t] ELSE @[j]]]
Unclaimed(S, t) == IF t.m \in Range(FLOW(S.flow).broadcasts) THEN <<BcastOut(t.m, t.tag)>> ELSE <<Ev("error", "UnknownMessage")>>
OneMessage(S, t) ==
  CASE t.m = Sv("ConnectConfirmationBeacon") -> R([S EXCEPT !.auth = "start"], <<>>)
    [] t.m # Sv("ConnectConfirmationBeacon") /\ S.apiT /\ t.ref \in S.pend -> R(Answered(S, t), <<>>)
    [] OTHER -> R(S, (IF S.apiT THEN <<>> ELSE <<Ev("error", "Pending")>>) \o Unclaimed(S, t))

(* the stream reader: tokens M (a whole package), A and B (its first and second half), anything else is refused *)
RECURSIVE Read(_, _)
Read(toks, q) ==
  IF toks = <<>> THEN [q |-> q, rest |-> <<>>, bad |-> FALSE]
  ELSE LET t == Head(toks) IN
    IF t.t \in {"M", "B"} THEN Read(Tail(toks), Append(q, t))
    ELSE IF t.t = "A" THEN Read(Tail(toks), q)
    ELSE [q |-> q, rest |-> Tail(toks), bad |-> TRUE]
HalfOf(toks) == IF toks # <<>> /\ toks[Len(toks)].t = "A" THEN toks[Len(toks)].m ELSE ""
Take(S, x) ==
  IF x.t = "msg" THEN
    LET r == Read(S.rest \o x.c, S.q) IN
    IF r.bad THEN R([S EXCEPT !.q = r.q, !.rest = r.rest], <<Ev("error", "BufferError")>>)
    ELSE R([S EXCEPT !.q = <<>>, !.rest = <<>>, !.cur = r.q], <<>>)
  ELSE CASE x.k = "error" -> R(S, <<Ev("error", "Client")>>)
         [] x.k \in {"text", "ping"} -> R(S, <<Ev("error", "UnknownMessage")>>)
         [] OTHER -> R(S, <<>>)

(* ---- calls ---- *)
(* the conclusion an answer stands for: the first declared with its type *)
Conclusion(S, j) ==
  IF j.m \in Range(FLOW(S.flow).beacons) THEN
    (IF j.ans.m = Sv("BeaconConfirmation") THEN [k |-> IF j.ans.err THEN "!Broadcast" ELSE "ok", m |-> "", tag |-> ""]
     ELSE [k |-> "!UnexpectedResponse", m |-> "", tag |-> ""])
  ELSE LET l == FLOW(S.flow).list[j.m]
           at == {i \in DOMAIN l : l[i].m = j.ans.m}
       IN IF at = {} THEN [k |-> "!UnexpectedResponse", m |-> "", tag |-> ""]
          ELSE LET i == CHOOSE i \in at : \A h \in at : i <= h IN [k |-> l[i].c, m |-> j.ans.m, tag |-> j.ans.tag]

Drop(S, id) == [S EXCEPT !.jobs = Without(@, id)]
(* sending fails: the table of requests is given up, the session with it *)
ApiFail(S) == [S EXCEPT !.apiT = FALSE, !.pend = {}, !.cancel = TRUE, !.resA = "ClientChannel"]
Issue(S, who, m, x) ==
  IF S.fault THEN R(ApiFail(S), <<SendOut(m, who, x)>>)
  ELSE R([S EXCEPT !.pend = @ \cup {who}], <<SendOut(m, who, x)>>)

JobSteps(S, id) ==
  LET j == S.jobs[id]
      up == S.phase = "up"
      here == j.cur /\ up
  IN
  CASE j.st = "ask" ->
         (IF j.dead THEN {R(Drop(S, id), <<>>)} ELSE {})
         \cup (IF up /\ ~S.shown THEN (IF j.k = "keep" THEN {R([Drop(S, id) EXCEPT !.kept = "cur"], <<>>)} ELSE {R([S EXCEPT !.jobs[id].st = "has"], <<>>)}) ELSE {})
         \cup (IF S.phase = "end" THEN {R(Drop(S, id), IF j.k = "call" THEN (IF j.dead THEN <<>> ELSE <<Gone(id)>>) ELSE IF j.k = "shutdown" THEN <<Released(id, FALSE)>> ELSE <<>>)} ELSE {})
    [] j.st = "has" /\ j.k = "call" ->
         (IF j.dead THEN {R(Drop(S, id), <<>>)} ELSE {})
         \cup (IF here /\ S.apiT /\ S.msgT THEN
                 LET r == Issue(S, "call:" \o j.tag, j.m, "") IN
                 {[r EXCEPT !.s = IF j.dead THEN Drop(@, id) ELSE [@ EXCEPT !.jobs[id].st = "wait", !.jobs[id].left = S.timeout]]} ELSE {})
         \cup (IF ~here \/ S.cancel THEN {R(Drop(S, id), IF j.dead THEN <<>> ELSE <<Gone(id)>>)} ELSE {})
    [] j.st = "has" /\ j.k = "shutdown" ->
         (IF here /\ S.apiT THEN
            (IF S.shT THEN {R([S EXCEPT !.shq = Append(@, id), !.jobs[id].st = "asked"], <<>>)} ELSE {R(Drop(S, id), <<Released(id, FALSE)>>)}) ELSE {})
         \cup (IF ~here \/ S.cancel THEN {R(Drop(S, id), <<Released(id, FALSE)>>)} ELSE {})
    [] j.st = "wait" ->
         (IF j.left = 0 THEN {R(Drop(S, id), <<Res(id, "!Timeout", "", "")>>)} ELSE {})
         \cup (IF ~here \/ ~S.apiT THEN {R(Drop(S, id), <<Gone(id)>>)} ELSE {})
    [] j.st = "answered" ->
         (LET c == Conclusion(S, j) IN {R(Drop(S, id), <<Res(id, c.k, c.m, c.tag)>>)})
         \cup (IF j.left = 0 THEN {R(Drop(S, id), <<Res(id, "!Timeout", "", "")>>)} ELSE {})
    [] j.st = "mass" -> {R(Drop(S, id), <<[op |-> "mass", id |-> id, ok |-> IF here /\ S.apiT /\ S.msgT /\ ~S.fault THEN j.left ELSE 0]>>)}
    [] OTHER -> {}

(* ---- the tasks of a session ---- *)
Refused(q) == [i \in DOMAIN q |-> Released(q[i], FALSE)]
DropAll(S, ids) == [S EXCEPT !.jobs = [j \in DOMAIN @ \ ids |-> @[j]]]
MsgSteps(S) ==
  IF ~S.msgT THEN {}
  ELSE IF S.cur # <<>> THEN {OneMessage([S EXCEPT !.cur = Tail(@)], Head(S.cur))}
  ELSE (IF S.cliq # <<>> THEN {Take([S EXCEPT !.cliq = Tail(@)], Head(S.cliq))} ELSE {})
       \cup (IF S.auth = "ok" THEN {R([S EXCEPT !.auth = "done"], <<Ev("connected", "")>>)} ELSE {})
       \cup (IF S.auth \in {"eHandshake", "eHashCheck"} /\ ~S.cancel THEN
               LET k == IF S.auth = "eHandshake" THEN "Handshake" ELSE "HashCheck" IN
               {R([S EXCEPT !.auth = "done", !.msgT = FALSE, !.cancel = TRUE, !.resM = k, !.cliq = <<>>], <<Ev("error", k)>>)} ELSE {})
       \cup (IF S.cancel THEN {R([S EXCEPT !.msgT = FALSE, !.cliq = <<>>, !.auth = IF @ \in {"start", "hashing"} THEN @ ELSE "done"], <<>>)} ELSE {})
ApiSteps(S) ==
  IF ~S.apiT THEN {}
  ELSE (IF S.auth = "start" THEN {LET r == Issue(S, "key", "key", "own") IN [r EXCEPT !.s = [@ EXCEPT !.auth = "key"]]} ELSE {})
       \cup (IF S.auth = "hashing" THEN {LET r == Issue(S, "hash", Sv("HashRequest"), "own") IN [r EXCEPT !.s = [@ EXCEPT !.auth = "hash"]]} ELSE {})
       \cup (IF S.cancel THEN {R([S EXCEPT !.apiT = FALSE, !.pend = {}], <<>>)} ELSE {})
ConSteps(S) ==
  IF ~S.conT THEN {}
  ELSE (IF S.closeq = "err" THEN {R([S EXCEPT !.conT = FALSE, !.cancel = TRUE, !.resC = "Client"], <<Ev("error", "Client"), Ev("disconnected", "")>>)} ELSE {})
       \cup (IF S.closeq = "ok" \/ S.cancel THEN {R([S EXCEPT !.conT = FALSE, !.cancel = TRUE], <<Ev("disconnected", "")>>)} ELSE {})
ShutSteps(S) ==
  IF ~S.shT THEN {}
  ELSE (IF S.shq # <<>> THEN
          {R([DropAll(S, Range(S.shq)) EXCEPT !.shT = FALSE, !.cancel = TRUE, !.acc = Head(S.shq), !.shq = <<>>, !.closeq = IF @ = "" THEN "ok" ELSE @],
             <<[op |-> "ctl"]>> \o Refused(Tail(S.shq)))} ELSE {})
       \cup (IF S.cancel THEN {R([DropAll(S, Range(S.shq)) EXCEPT !.shT = FALSE, !.shq = <<>>], Refused(S.shq))} ELSE {})
Outcome(S) == IF S.resC # "" THEN S.resC ELSE IF S.resM # "" THEN S.resM ELSE S.resA
EndSteps(S) ==
  (IF ~S.msgT /\ ~S.apiT /\ ~S.conT /\ ~S.shown THEN {R([S EXCEPT !.shown = TRUE], <<Ev("shutdown", Outcome(S))>>)} ELSE {})
  \cup (IF S.shown /\ ~S.shT /\ S.acc # "" /\ ~S.freed THEN {R([S EXCEPT !.freed = TRUE], <<Released(S.acc, TRUE)>>)} ELSE {})
  \cup (IF S.shown /\ ~S.shT /\ S.busy = "" /\ S.evq = <<>> /\ (S.acc = "" \/ S.freed) THEN
     LET old == [S EXCEPT !.jobs = [j \in DOMAIN @ |-> IF @[j].st = "ask" THEN @[j] ELSE [@[j] EXCEPT !.cur = FALSE]],
                          !.kept = IF @ = "cur" THEN "old" ELSE @, !.half = "", !.pend = {}, !.q = <<>>, !.rest = <<>>, !.closeq = "", !.auth = "none",
                          !.acc = "", !.resM = "", !.resA = "", !.resC = ""]
     IN IF Outcome(S) = "" /\ S.reconnect > 0 /\ S.acc = "" THEN
          {R([old EXCEPT !.phase = IF S.again THEN "wait" ELSE "end", !.left = S.reconnect], <<Ev("reconnect", ToString(S.reconnect))>>)}
        ELSE {R([old EXCEPT !.phase = "end"], <<>>)}
   ELSE {})

(* ---- handlers ---- *)
ForHandler(o) == o.op = "bcast" \/ (o.op = "ev" /\ o.k # "reconnect")
Planned(S, o) == {i \in DOMAIN S.plan : S.plan[i].on = IF o.op = "bcast" THEN o.m ELSE o.k}
Begin(S, a) ==
  CASE a.act = "hold" -> [S EXCEPT !.busy = "hold"]
    [] OTHER -> [S EXCEPT !.busy = a.id, !.jobs = With(@, a.id, [k |-> a.act, m |-> a.m, tag |-> a.tag, st |-> "has", cur |-> TRUE, left |-> 0, ans |-> NoAns, dead |-> FALSE])]
RECURSIVE HandOver(_, _)
HandOver(S, out) ==
  IF S.busy # "" \/ S.evq = <<>> THEN R(S, out)
  ELSE LET o == Head(S.evq)
           S1 == [S EXCEPT !.evq = Tail(@)]
           ps == Planned(S, o)
       IN IF ps = {} THEN HandOver(S1, Append(out, o))
          ELSE LET i == CHOOSE i \in ps : \A h \in ps : i <= h
               IN HandOver(Begin([S1 EXCEPT !.plan = RemoveAt(@, i)], S.plan[i]), Append(out, o))
Returned(S) == S.busy = "go" \/ (S.busy \notin {"", "hold"} /\ S.busy \notin DOMAIN S.jobs /\ (S.busy # S.acc \/ S.freed))
Deliver(r) ==
  LET S1 == [r.s EXCEPT !.evq = @ \o SelectSeq(r.o, ForHandler)]
      S2 == IF Returned(S1) THEN [S1 EXCEPT !.busy = ""] ELSE S1
  IN HandOver(S2, SelectSeq(r.o, LAMBDA o : ~ForHandler(o)))

Own(S) ==
  UNION {JobSteps(S, id) : id \in DOMAIN S.jobs}
  \cup (IF S.phase = "up" THEN MsgSteps(S) \cup ApiSteps(S) \cup ConSteps(S) \cup ShutSteps(S) \cup EndSteps(S)
        ELSE IF S.phase = "wait" /\ S.left = 0 THEN {R(Fresh(S), <<[op |-> "open"]>>)} ELSE {})
  \cup (IF S.busy = "go" THEN {R(S, <<>>)} ELSE {})
Steps(S) == {Deliver(r) : r \in Own(S)}
Quiet(S) == Steps(S) = {}

(* ---- the environment ---- *)
Job(k, m, tag, kept, S) ==
  [k |-> k, m |-> m, tag |-> tag, st |-> IF kept THEN "has" ELSE "ask", cur |-> IF kept THEN S.kept = "cur" ELSE TRUE, left |-> 0, ans |-> NoAns, dead |-> FALSE]
Minus(a, b) == IF a > b THEN a - b ELSE 0
Apply(S, x) ==
  CASE x.t \in {"cli", "msg"} -> IF S.phase = "up" /\ S.msgT THEN [S EXCEPT !.cliq = Append(@, x), !.half = IF x.t = "msg" THEN HalfOf(x.c) ELSE @] ELSE S
    [] x.t = "close" -> IF S.phase = "up" /\ S.conT /\ S.closeq = "" THEN [S EXCEPT !.closeq = x.k] ELSE S
    [] x.t = "call" -> [S EXCEPT !.jobs = With(@, x.id, Job("call", x.m, x.tag, x.kept, S))]
    [] x.t = "mass" -> [S EXCEPT !.jobs = With(@, x.id, [Job("mass", x.m, "", FALSE, S) EXCEPT !.st = "mass", !.left = x.count])]    \* that many calls, each answered at once
    [] x.t = "keep" -> [S EXCEPT !.jobs = With(@, x.id, Job("keep", "", "", FALSE, S))]
    [] x.t = "shutdown" -> [S EXCEPT !.jobs = With(@, x.id, Job("shutdown", "", "", x.kept, S))]
    [] x.t = "abandon" ->
         LET mine == {j \in DOMAIN S.jobs : S.jobs[j].k = "call" /\ S.jobs[j].tag = x.of} IN
         [S EXCEPT !.jobs = [j \in {i \in DOMAIN @ : i \notin mine \/ @[i].st \in {"ask", "has"}} |-> IF j \in mine THEN [@[j] EXCEPT !.dead = TRUE] ELSE @[j]]]
    [] x.t = "tick" -> [S EXCEPT !.left = IF S.phase = "wait" THEN Minus(@, x.ms) ELSE @,
                                 !.jobs = [j \in DOMAIN @ |-> IF @[j].st \in {"wait", "answered"} THEN [@[j] EXCEPT !.left = Minus(@, x.ms)] ELSE @[j]]]
    [] x.t = "plan" -> [S EXCEPT !.plan = Append(@, x.a)]
    [] x.t = "go" -> [S EXCEPT !.busy = IF @ = "hold" THEN "go" ELSE @]
    [] x.t = "fault" -> [S EXCEPT !.fault = x.on]
    [] OTHER -> S
=============================================================================
