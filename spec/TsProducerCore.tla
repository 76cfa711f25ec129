--------------------------- MODULE TsProducerCore ---------------------------
(* A generated TypeScript producer: its state, what it may do next, and what  *)
(* the user's handlers and the transport see of it.                           *)
(*                                                                            *)
(* Unlike its Rust sibling it serves every request in a job of its own: the    *)
(* handler is called as soon as the message is taken, and reply, broadcasts    *)
(* and deferred action follow when the handler and the transport allow it,     *)
(* interleaved with the jobs of other requests and with further messages.      *)
(*                                                                            *)
(* S    the state (see S0)     Apply(S, x)   the environment does x            *)
(* Steps(S)   the set of <<next state, outputs>> the producer may do next      *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, SequencesExt, Functions

CONSTANTS FLOW(_),     \* the workflow by name: requests, beacons, events, selfopt, asgopt
          AnyOrder     \* whether what the producer leaves open is explored (else: one representative)

NoKey == <<>>
S0(flow, ids, errs, cfg) ==
  [flow |-> flow, ids |-> ids, errs |-> errs, cfg |-> cfg,
   conns |-> [u \in {} |-> 0],
   inq |-> <<>>,                                  \* what the transport and the application have told
   cur |-> "",                                    \* the connection whose messages are being taken
   jobs |-> [j \in {} |-> 0], n |-> 0,            \* served requests, beacons and events
   hold |-> {}, fault |-> {}, seen |-> {}]        \* connections: sends stay open, sends fail, handlers have kept the identification
Conn0 == [key |-> NoKey, asg |-> NoKey, hash |-> FALSE, disc |-> FALSE, q |-> <<>>, rest |-> <<>>]

(* ---- outputs ---- *)
Sv(m) == "InternalServiceGroup." \o m
Send(u, m, q, tag) == [op |-> "send", u |-> u, m |-> m, q |-> q, tag |-> tag]
Disc(u) == [op |-> "disc", u |-> u]
Error(k, u) == [op |-> "error", k |-> k, idu |-> u]
HasKey1(c, v) == c.key # NoKey /\ c.key[1] = v
Call(conns, kind, h, u, c, tag) ==
  LET D == DOMAIN conns IN
  [op |-> "call", k |-> kind, h |-> h, u |-> u, tag |-> tag, key |-> c.key, asg |-> c.asg,
   all |-> D, exc |-> D \ {"c1"}, ecl |-> D \ {"c1", "c2"},
   byk |-> {x \in D : HasKey1(conns[x], "n1")}, bya |-> {x \in D : conns[x].asg # NoKey},
   any |-> D, ecm |-> D \ {"c7", "c4", "c2", "c5", "c3"}]

(* ---- what a handler decides (script s) ---- *)
Recipients(conns, D, u, r) ==
  CASE r.t = "all" -> D
    [] r.t = "except" -> D \ {IF u = "" THEN r.l[1] ELSE u}
    [] r.t = "exclude" -> D \ Range(r.l)
    [] r.t = "keyed" -> {x \in D : HasKey1(conns[x], r.l[1])}
    [] r.t = "asgd" -> {x \in D : conns[x].asg # NoKey}
    [] r.t \in {"none", "miss"} -> {}
    [] OTHER -> Range(r.l)
RECURSIVE Listed(_)
Listed(D) == IF D = {} THEN <<>> ELSE LET x == CHOOSE x \in D : TRUE IN <<x>> \o Listed(D \ {x})
Broadcasts(conns, u, bc, s, tag) ==
  LET D == DOMAIN conns
      One(i) == LET to == IF i > Len(s.b) THEN <<>>
                    ELSE IF s.b[i].t = "list" THEN s.b[i].l            \* as often as the handler names it
                    ELSE Listed(Recipients(conns, D, u, s.b[i]))
                IN [k \in DOMAIN to |-> Send(to[k], bc[i].m, "0", tag \o "#" \o ToString(i - 1))]
  IN FlattenSeq([i \in 1..Len(bc) |-> One(i)])
(* a required broadcast that the handler does not declare makes the whole answer void *)
Missing(bc, s) == \E i \in 1..Len(bc) : ~bc[i].opt /\ (i > Len(s.b) \/ s.b[i].t = "miss")
Merge(old, new, opt) == [i \in 1..Len(old) |-> IF opt[i] /\ new[i] = "-" THEN old[i] ELSE new[i]]
NewKey(old, new, ow, opt) == IF ow \/ old = NoKey THEN new ELSE Merge(old, new, opt)
Without(f, u) == [x \in DOMAIN f \ {u} |-> f[x]]
With(f, u, v) == [x \in DOMAIN f \cup {u} |-> IF x = u THEN v ELSE f[x]]
Gone(conns, u) == IF u \in DOMAIN conns THEN [conns EXCEPT ![u].disc = TRUE] ELSE conns
Effects(S, u, s) ==
  LET in == u \in DOMAIN S.conns
      A == IF in /\ s.k # <<>> THEN [S EXCEPT !.conns[u].key = NewKey(@, s.k[1], s.k[2], FLOW(S.flow).selfopt)] ELSE S
      B == IF in /\ s.a # <<>> THEN [A EXCEPT !.conns[u].asg = NewKey(@, s.a[1], s.a[2], FLOW(S.flow).asgopt)] ELSE A
  IN IF s.x = "" THEN B ELSE [B EXCEPT !.conns = Gone(@, s.x)]
EffOut(s) == IF s.x = "" THEN <<>> ELSE <<Disc(s.x)>>

R(S, o) == [s |-> S, o |-> o]
Then(r, o) == [r EXCEPT !.o = @ \o o]
(* faulty data or failed processing, according to the configured strategy *)
RespErr(S, u, known) ==
  LET d == known /\ S.errs \in {"Disconnect", "EmitErrorAndDisconnect"}
      T == IF d THEN [S EXCEPT !.conns = Gone(@, u)] ELSE S
      e == S.errs \in {"EmitError", "EmitErrorAndDisconnect"}
  IN R(T, (IF d THEN <<Disc(u)>> ELSE <<>>) \o (IF e THEN <<Error("ProcessingIncomeData", IF known THEN u ELSE "")>> ELSE <<>>))
SendAway(S, u, kind) == R([S EXCEPT !.conns = Gone(@, u)], <<Disc(u), Error(kind, u)>>)

(* ---- jobs ---- *)
Job(k, h, u, tag, s, ok, reply, bc) ==
  [k |-> k, h |-> h, u |-> u, tag |-> tag, ok |-> ok, reply |-> reply, bc |-> bc, d |-> s.d /\ k \in {"request", "beacon"},
   st |-> IF s.g THEN "gate" ELSE "run", p |-> "", open |-> <<>>]
Start(S, j) == [S EXCEPT !.jobs = With(@, S.n + 1, j), !.n = @ + 1]

Request(S, u, m) ==
  LET f == FLOW(S.flow).requests[m.m]
      s == m.s
      single == "_" \in DOMAIN f.acts
      act == f.acts[IF single THEN "_" ELSE s.c]
      reply == IF s.o = "err" THEN Send(u, f.err, m.q, m.tag \o ":err")
               ELSE Send(u, act.resp, m.q, m.tag \o ":" \o (IF single THEN "_" ELSE s.c))
      bc == IF s.o = "err" THEN <<>> ELSE Broadcasts(S.conns, u, act.bc, s, m.tag)
      ok == s.o \in {"ok", "err"} /\ (s.o = "err" \/ ~Missing(act.bc, s))
  IN R(Start(Effects(S, u, s), Job("request", m.m, u, m.tag, s, ok, <<reply>>, bc)),
       <<Call(S.conns, "request", m.m, u, S.conns[u], m.tag)>> \o EffOut(s))
Beacon(S, u, m) ==
  R(Start(Effects(S, u, m.s), Job("beacon", m.m, u, m.tag, m.s, m.s.o = "ok", <<Send(u, Sv("BeaconConfirmation"), m.q, "ok")>>, <<>>)),
    <<Call(S.conns, "beacon", m.m, u, S.conns[u], m.tag)>> \o EffOut(m.s))
(* events of the application (u = "") and of the transport *)
Event(S, k, h, u, c, s, tag) ==
  LET evs == FLOW(S.flow).events
      bc == IF h \in DOMAIN evs THEN evs[h] ELSE <<>>
      out == Broadcasts(S.conns, u, bc, s, tag)
  IN R(Start(Effects(S, u, s), Job(k, h, u, tag, s, s.o = "ok" /\ ~Missing(bc, s), <<>>, out)),
       <<Call(S.conns, k, h, u, c, tag)>> \o EffOut(s))

(* the fate of a send *)
Fate(S, u) == IF u \in S.hold THEN "held" ELSE IF u \in S.fault \/ u \notin DOMAIN S.conns THEN "rejected" ELSE "resolved"
DropJob(S, id) == [S EXCEPT !.jobs = Without(@, id)]
RemoveAt2(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
JobSteps(S, id) ==
  LET j == S.jobs[id] IN
  CASE j.st = "run" /\ ~j.ok ->
         {IF j.k \in {"request", "beacon"} THEN RespErr(DropJob(S, id), j.u, TRUE) ELSE R(DropJob(S, id), <<>>)}
    [] j.st = "run" /\ j.ok ->
         {IF j.reply = <<>> THEN R([S EXCEPT !.jobs[id].st = "bc"], <<>>)
          ELSE R([S EXCEPT !.jobs[id].st = "sent", !.jobs[id].p = Fate(S, j.u)], j.reply)}
    [] j.st = "sent" /\ j.p = "resolved" -> {R([S EXCEPT !.jobs[id].st = "bc"], <<>>)}
    [] j.st = "sent" /\ j.p = "rejected" -> {RespErr(DropJob(S, id), j.u, TRUE)}
    [] j.st = "bc" /\ j.bc # <<>> ->
         {LET b == j.bc[i] IN
          R([S EXCEPT !.jobs[id].bc = RemoveAt2(@, i), !.jobs[id].open = IF Fate(S, b.u) = "held" THEN Append(@, b.u) ELSE @], <<b>>)
          : i \in IF AnyOrder THEN DOMAIN j.bc ELSE {1}}
    [] j.st = "bc" /\ j.bc = <<>> /\ j.open = <<>> ->
         {R(DropJob(S, id), IF j.d THEN <<[op |-> "defer", h |-> j.h, tag |-> j.tag]>> ELSE <<>>)}
    [] OTHER -> {}

(* ---- one message of a connection ---- *)
Serve(S, u, m) ==
  IF m.m \in DOMAIN FLOW(S.flow).requests THEN Request(S, u, m)
  ELSE IF m.m \in Range(FLOW(S.flow).beacons) THEN Beacon(S, u, m)
  ELSE RespErr(S, u, TRUE)
Application(S, u, m) ==
  LET c == S.conns[u] IN
  IF ~c.hash THEN SendAway(S, u, "HashError")
  ELSE IF c.key = NoKey THEN SendAway(S, u, "KeyError")
  ELSE IF c.asg = NoKey /\ S.ids \notin {"Ignore", "Log"} THEN
    LET d == S.ids \in {"Disconnect", "EmitErrorAndDisconnect"} IN
    R(IF d THEN [S EXCEPT !.conns = Gone(@, u)] ELSE S,
      (IF d THEN <<Disc(u)>> ELSE <<>>) \o (IF S.ids \in {"EmitError", "EmitErrorAndDisconnect"} THEN <<Error("AssignedKeyError", u)>> ELSE <<>>))
  ELSE Serve(S, u, m)
Message(S, u, m) ==
  CASE m.kind = "key" /\ ~S.conns[u].hash ->
         R([S EXCEPT !.conns[u].key = m.key], <<Send(u, Sv("SelfKeyResponse"), m.q, u)>>)
    [] m.kind = "hash" ->
         IF m.h = "ok" THEN R([S EXCEPT !.conns[u].hash = TRUE], <<Send(u, Sv("HashResponse"), m.q, "ok")>>)
         ELSE LET r == SendAway(S, u, IF m.h = "w" THEN "WorkflowHash" ELSE "ProtocolHash")
              IN [r EXCEPT !.o = <<Send(u, Sv("HashResponse"), m.q, "err")>> \o @]
    [] OTHER -> Application(S, u, m)

(* the stream reader: tokens M (a whole package), A and B (its halves), anything else is refused *)
RECURSIVE Read(_, _, _)
Read(toks, q, bad) ==
  IF toks = <<>> THEN [q |-> q, rest |-> <<>>, bad |-> bad]
  ELSE LET t == Head(toks) IN
    IF t.t \in {"M", "B"} THEN Read(Tail(toks), Append(q, t), bad)
    ELSE IF t.t = "A" THEN Read(Tail(toks), q, bad)
    ELSE Read(Tail(toks), q, TRUE)

Received(S, u, toks) ==
  IF u \notin DOMAIN S.conns THEN {RespErr(S, u, FALSE)}
  ELSE LET c == S.conns[u] IN
    IF c.disc THEN {RespErr(S, u, TRUE)} \cup (IF AnyOrder THEN {R(S, <<>>)} ELSE {})
    ELSE LET r == Read(toks, c.q, FALSE)
             T == [S EXCEPT !.conns[u].q = r.q]
         IN IF r.bad THEN {RespErr(T, u, TRUE)}
                          \cup (IF AnyOrder THEN LET e == RespErr(T, u, TRUE) IN {[e EXCEPT !.s.cur = u]} ELSE {})
            ELSE {R([T EXCEPT !.cur = u], <<>>)}
(* the messages taken from a chunk, one after the other *)
Work(S) ==
  LET u == S.cur IN
  IF u \notin DOMAIN S.conns \/ S.conns[u].q = <<>> \/ S.conns[u].disc THEN R([S EXCEPT !.cur = ""], <<>>)
  ELSE Message([S EXCEPT !.conns[u].q = Tail(@)], u, Head(S.conns[u].q))

Connected(S, u) ==
  IF u \in DOMAIN S.conns THEN {R(S, <<Error("Connection", "")>>)}
  ELSE LET T == [S EXCEPT !.conns = With(@, u, Conn0), !.seen = @ \cup {u}]
           r == Event(T, "default", "connected", u, Conn0, S.cfg["connected"].s, S.cfg["connected"].tag)
           c == <<Send(u, Sv("ConnectConfirmationBeacon"), "0", "")>>
       IN {Then(r, c)} \cup (IF AnyOrder THEN {[r EXCEPT !.o = c \o @]} ELSE {})
Disconnected(S, u) ==
  IF u \notin DOMAIN S.conns THEN {R(S, <<Error("Disconnection", "")>>)}
  ELSE {Event([S EXCEPT !.conns = Without(@, u)], "default", "disconnected", u, S.conns[u], S.cfg["disconnected"].s, S.cfg["disconnected"].tag)}

Opened(j, u) == [j EXCEPT !.p = IF @ = "held" /\ j.u = u THEN "resolved" ELSE @, !.open = SelectSeq(@, LAMBDA x : x # u)]
GoJobs(S, x) == {i \in DOMAIN S.jobs : S.jobs[i].st = "gate" /\ S.jobs[i].u = x.u /\ S.jobs[i].h = x.h}
Input(S, x) ==
  CASE x.t = "connect" -> Connected(S, x.u)
    [] x.t = "disconnect" -> Disconnected(S, x.u)
    [] x.t = "recv" -> Received(S, x.u, x.c)
    [] x.t = "event" -> {Event(S, "event", x.e, "", Conn0, x.s, x.tag)}
    [] x.t = "ident" ->
         {R(IF x.u \notin DOMAIN S.conns THEN S
            ELSE IF x.k = "key" THEN [S EXCEPT !.conns[x.u].key = NewKey(@, x.key, x.ow, FLOW(S.flow).selfopt)]
            ELSE [S EXCEPT !.conns[x.u].asg = NewKey(@, x.key, x.ow, FLOW(S.flow).asgopt)], <<>>)}
    [] x.t = "fault" -> {R([S EXCEPT !.fault = Range(x.l)], <<>>)}
    [] x.t = "hold" -> {R([S EXCEPT !.hold = @ \cup {x.u}], <<>>)}
    [] x.t = "release" -> {R([S EXCEPT !.hold = @ \ {x.u}, !.jobs = [i \in DOMAIN @ |-> Opened(@[i], x.u)]], <<>>)}
    [] x.t = "go" ->
         {R(LET g == GoJobs(S, x) IN
            IF g = {} THEN S ELSE LET i == CHOOSE i \in g : \A k \in g : i <= k IN [S EXCEPT !.jobs[i].st = "run"], <<>>)}
    [] OTHER -> {R(S, <<>>)}

Apply(S, x) == [S EXCEPT !.inq = Append(@, x)]
Steps(S) ==
  (IF S.cur # "" THEN {Work(S)} ELSE IF S.inq # <<>> THEN Input([S EXCEPT !.inq = Tail(@)], Head(S.inq)) ELSE {})
  \cup UNION {JobSteps(S, id) : id \in DOMAIN S.jobs}
Quiet(S) == Steps(S) = {}
=============================================================================
