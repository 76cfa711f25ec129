---------------------------- MODULE ProducerCore ----------------------------
(* A generated producer: its state, what it may do next, and what the user's  *)
(* handlers and the transport see of it.                                      *)
(*                                                                            *)
(* S    the state (a record, see S0)                                          *)
(* Apply(S, x)   the environment does x (a connection, bytes, an application  *)
(*               event, a shutdown request, a fault)                          *)
(* Steps(S)      the set of <<next state, outputs>> the producer may do next   *)
(*                                                                            *)
(* Sequence numbers are strings: they exceed TLC's integers.                   *)
(* Each of the producer's queues (server events, application events, changes  *)
(* of keys, confirmations) is first-in first-out; which queue is served next  *)
(* is open.  While a handler takes its time none of them is served.           *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, SequencesExt, Functions

CONSTANTS FLOW(_)      \* the workflow by name: requests, beacons, events, selfopt, asgopt

NoKey == <<>>
Service == {"InternalServiceGroup.SelfKeyResponse", "InternalServiceGroup.HashRequest", "InternalServiceGroup.HashResponse",
            "InternalServiceGroup.BeaconConfirmation", "InternalServiceGroup.ConnectConfirmationBeacon"}

S0(flow, ids, errs, cfg) ==
  [flow |-> flow, ids |-> ids, errs |-> errs, cfg |-> cfg,
   conns |-> [u \in {} |-> 0],
   inq |-> <<>>, evq |-> <<>>, idq |-> <<>>, cfq |-> <<>>, cmdq |-> <<>>, endq |-> <<>>,
   seen |-> {},                                   \* connections whose identification user code has kept
   ready |-> FALSE,                               \* user code holds the control of the producer
   fault |-> {},                                  \* connections a send to which fails
   busy |-> "", held |-> <<>>,                     \* a handler takes its time (hold, go), what comes after it
   lst |-> TRUE, lsn |-> TRUE, sht |-> TRUE, cancel |-> FALSE, fin |-> FALSE, res |-> "ok", waiters |-> {}]

Conn0 == [confirmed |-> FALSE, key |-> NoKey, asg |-> NoKey, hash |-> FALSE, disc |-> FALSE, q |-> <<>>, rest |-> <<>>]

(* ---- outputs ---- *)
Send(u, m, q, tag) == [op |-> "send", u |-> u, m |-> m, q |-> q, tag |-> tag]
Bcast(m, tag, to) == [op |-> "bcast", m |-> m, tag |-> tag, to |-> to]
Disc(u) == [op |-> "disc", u |-> u]
Plain(h) == [op |-> "call", k |-> "plain", h |-> h, u |-> "", tag |-> "", key |-> NoKey, asg |-> NoKey,
             all |-> {}, exc |-> {}, ecl |-> {}, byk |-> {}, bya |-> {}, any |-> {}, ecm |-> {}]
HasKey1(c, v) == c.key # NoKey /\ c.key[1] = v
Call(conns, D, kind, h, u, c, tag) ==
  [op |-> "call", k |-> kind, h |-> h, u |-> u, tag |-> tag, key |-> c.key, asg |-> c.asg,
   all |-> D, exc |-> D \ {"c1"}, ecl |-> D \ {"c1", "c2"},
   byk |-> {x \in D : HasKey1(conns[x], "n1")}, bya |-> {x \in D : conns[x].asg # NoKey},
   any |-> D, ecm |-> D \ {"c7", "c4", "c2", "c5", "c3"}]
Error(S, kind, u) ==
  LET in == u \in DOMAIN S.conns IN
  [op |-> "error", k |-> kind, u |-> u, idu |-> IF in THEN u ELSE "",
   key |-> IF in THEN S.conns[u].key ELSE NoKey, asg |-> IF in THEN S.conns[u].asg ELSE NoKey]
ErrorNoIdent(kind, u) == [op |-> "error", k |-> kind, u |-> u, idu |-> "", key |-> NoKey, asg |-> NoKey]

(* ---- what a handler decides (script s) and what comes of it ---- *)
NoScript == [o |-> "ok", c |-> "", b |-> <<>>, k |-> <<>>, a |-> <<>>, x |-> "", d |-> FALSE, w |-> FALSE]

Recipients(conns, D, u, r) ==
  CASE r.t = "all" -> D
    [] r.t = "except" -> D \ {IF u = "" THEN r.l[1] ELSE u}
    [] r.t = "exclude" -> D \ Range(r.l)
    [] r.t = "keyed" -> {x \in D : HasKey1(conns[x], r.l[1])}
    [] r.t = "asgd" -> {x \in D : conns[x].asg # NoKey}
    [] r.t = "none" -> {}
    [] OTHER -> Range(r.l)
(* the broadcasts bc declared, in declared order, as the script addresses them *)
Broadcasts(conns, D, u, bc, s, tag) ==
  LET One(i) == LET to == IF i > Len(s.b) THEN {} ELSE Recipients(conns, D, u, s.b[i])
                IN IF to = {} THEN <<>> ELSE <<Bcast(bc[i].m, tag \o "#" \o ToString(i - 1), to)>>
  IN FlattenSeq([i \in 1..Len(bc) |-> One(i)])
(* side effects of a handler: asked changes of the caller's keys, connections it closes *)
Effects(S, u, s) ==
  [S EXCEPT !.idq = @ \o (IF u # "" /\ s.k # <<>> THEN <<[w |-> "key", u |-> u, key |-> s.k[1], ow |-> s.k[2]]>> ELSE <<>>)
                      \o (IF u # "" /\ s.a # <<>> THEN <<[w |-> "asg", u |-> u, key |-> s.a[1], ow |-> s.a[2]]>> ELSE <<>>)]
Hold == [op |-> "hold"]
EffOut(s) == (IF s.x # "" THEN <<Disc(s.x)>> ELSE <<>>) \o (IF s.w THEN <<Hold>> ELSE <<>>)
Deferred(s, h, tag) == IF s.d THEN <<[op |-> "defer", h |-> h, tag |-> tag]>> ELSE <<>>

R(S, o) == [s |-> S, o |-> o]
Then(r, o) == [r EXCEPT !.o = @ \o o]

Disconnect(S, u) ==
  IF u \in DOMAIN S.conns /\ ~S.conns[u].disc THEN R([S EXCEPT !.conns[u].disc = TRUE], <<Disc(u)>>) ELSE R(S, <<>>)
(* faulty data or failed processing, according to the configured strategy *)
RespErr(S, u) ==
  LET d == IF S.errs \in {"Disconnect", "EmitErrorAndDisconnect"} THEN Disconnect(S, u) ELSE R(S, <<>>)
  IN IF S.errs \in {"EmitError", "EmitErrorAndDisconnect"} THEN Then(d, <<Error(d.s, "ResponsingError", u)>>) ELSE d
Seq2(r, F(_)) == LET r2 == F(r.s) IN R(r2.s, r.o \o r2.o)
DiscAndError(S, u, kind) == LET d == Disconnect(S, u) IN Then(d, <<Error(d.s, kind, u)>>)

(* ---- one message of a connection ---- *)
Request(S, u, m) ==
  LET f == FLOW(S.flow).requests[m.m]
      s == m.s
      c == S.conns[u]
      D == DOMAIN S.conns
      act == f.acts[IF "_" \in DOMAIN f.acts THEN "_" ELSE s.c]
      reply == IF s.o = "err" THEN Send(u, f.err, m.q, m.tag \o ":err")
               ELSE Send(u, act.resp, m.q, m.tag \o ":" \o (IF "_" \in DOMAIN f.acts THEN "_" ELSE s.c))
      bc == IF s.o = "err" THEN <<>> ELSE Broadcasts(S.conns, D, u, act.bc, s, m.tag)
      S1 == Effects(S, u, s)
      o1 == <<Call(S.conns, D, "request", m.m, u, c, m.tag)>> \o EffOut(s) \o <<reply>>
  IN IF u \in S.fault THEN Then(R(S1, o1), <<>>) \* the reply could not be sent: processing has failed
     ELSE R(S1, o1 \o bc \o Deferred(s, m.m, m.tag))
RequestF(S, u, m) ==
  LET r == Request(S, u, m) IN IF u \in S.fault THEN Seq2(r, LAMBDA T : RespErr(T, u)) ELSE r

Beacon(S, u, m) ==
  LET s == m.s
      S1 == Effects(S, u, s)
      o1 == <<Call(S.conns, DOMAIN S.conns, "beacon", m.m, u, S.conns[u], m.tag)>> \o EffOut(s)
      err == <<Error(S1, "BeaconEmitterError", u)>>
      conf == <<Send(u, "InternalServiceGroup.BeaconConfirmation", m.q, "ok")>>
  IN IF s.o = "fail" THEN R(S1, o1 \o err)
     ELSE IF u \in S.fault THEN R(S1, o1 \o conf \o err)
     ELSE R(S1, o1 \o conf \o Deferred(s, m.m, m.tag))

Serve(S, u, m) ==
  IF m.m \in DOMAIN FLOW(S.flow).requests THEN RequestF(S, u, m)
  ELSE IF m.m \in Range(FLOW(S.flow).beacons) THEN Beacon(S, u, m)
  ELSE R(S, <<>>)

(* a message that is not part of the handshake *)
Application(S, u, m) ==
  LET c == S.conns[u] IN
  IF ~c.hash \/ c.key = NoKey THEN DiscAndError(S, u, "NoConsumerKey")
  ELSE IF c.asg = NoKey /\ S.ids \notin {"Ignore", "Log"} THEN
    LET d == IF S.ids \in {"Disconnect", "EmitErrorAndDisconnect"} THEN Disconnect(S, u) ELSE R(S, <<>>)
    IN IF S.ids \in {"EmitError", "EmitErrorAndDisconnect"} THEN Then(d, <<Error(d.s, "NoAssignedConsumer", u)>>) ELSE d
  ELSE Serve(S, u, m)

Reply(S, u, o) == IF u \in S.fault THEN Seq2(R(S, o), LAMBDA T : RespErr(T, u)) ELSE R(S, o)

Message(S, u, m) ==
  CASE m.kind = "key" /\ ~S.conns[u].hash ->
         Reply([S EXCEPT !.conns[u].key = m.key], u, <<Send(u, "InternalServiceGroup.SelfKeyResponse", m.q, u)>>)
    [] m.kind = "hash" ->
         LET valid == m.h = "ok"
             S1 == IF valid THEN [S EXCEPT !.conns[u].hash = TRUE] ELSE S
             r == Reply(S1, u, <<Send(u, "InternalServiceGroup.HashResponse", m.q, IF valid THEN "ok" ELSE "err")>>)
         IN IF valid THEN r ELSE Seq2(r, LAMBDA T : DiscAndError(T, u, "NoConsumerKey"))
    [] OTHER -> Application(S, u, m)

RECURSIVE Batch(_, _, _)
Batch(S, u, ms) ==
  IF ms = <<>> \/ S.conns[u].disc THEN R(S, <<>>)
  ELSE LET r == Message(S, u, Head(ms)) r2 == Batch(r.s, u, Tail(ms)) IN R(r2.s, r.o \o r2.o)

(* the stream reader: tokens M (a whole package), A and B (its first and second half), anything else is refused *)
RECURSIVE Read(_, _)
Read(toks, q) ==
  IF toks = <<>> THEN [q |-> q, rest |-> <<>>, bad |-> FALSE]
  ELSE LET t == Head(toks) IN
    IF t.t \in {"M", "B"} THEN Read(Tail(toks), Append(q, t))
    ELSE IF t.t = "A" THEN Read(Tail(toks), q)
    ELSE [q |-> q, rest |-> Tail(toks), bad |-> TRUE]

Received(S, u, toks) ==
  IF u \notin DOMAIN S.conns THEN RespErr(S, u)
  ELSE LET c == S.conns[u] IN
    IF ~c.confirmed THEN DiscAndError(S, u, "NotConfirmedConnection")
    ELSE IF c.disc THEN R(S, <<>>)
    ELSE LET r == Read(c.rest \o toks, c.q)
             S1 == [S EXCEPT !.conns[u].q = r.q, !.conns[u].rest = r.rest]
         IN IF r.bad THEN RespErr(S1, u)
            ELSE Batch([S1 EXCEPT !.conns[u].q = <<>>], u, r.q)

Without(f, u) == [x \in DOMAIN f \ {u} |-> f[x]]
With(f, u, v) == [x \in DOMAIN f \cup {u} |-> IF x = u THEN v ELSE f[x]]

(* the default events: what their handler decides is fixed per scenario *)
Default(S, conns, h, u, c) ==
  LET s == S.cfg[h].s
      tag == S.cfg[h].tag
      evs == FLOW(S.flow).events
      bc == IF h \in DOMAIN evs THEN evs[h] ELSE <<>>
      D == DOMAIN conns
      call == <<Call(conns, D, "default", h, u, c, tag)>> \o EffOut(s)
  IN R([Effects(S, u, s) EXCEPT !.seen = @ \cup {u}],
       call \o IF s.o = "fail" THEN <<>> ELSE Broadcasts(conns, D, u, bc, s, tag) \o Deferred(s, h, tag))

Connected(S, u) ==
  IF u \in DOMAIN S.conns THEN R(S, <<Error(S, "FailToAddConsumer", u)>>)
  ELSE LET r == Default(S, S.conns, "connected", u, Conn0)
       IN R([r.s EXCEPT !.conns = With(@, u, Conn0), !.cfq = Append(@, u)], r.o)
Disconnected(S, u) ==
  IF u \notin DOMAIN S.conns THEN R(S, <<>>)
  ELSE LET rest == Without(S.conns, u) IN Default([S EXCEPT !.conns = rest], rest, "disconnected", u, S.conns[u])

ServerEvent(S, e) ==
  CASE e.t = "ready" -> R([S EXCEPT !.ready = TRUE], <<Plain("ready")>>)
    [] e.t = "connect" -> Connected(S, e.u)
    [] e.t = "disconnect" -> Disconnected(S, e.u)
    [] e.t = "recv" -> Received(S, e.u, e.c)
    [] e.t = "srverr" -> R(S, <<CASE e.k = "Error" -> Error(S, "ConsumerError", e.u)
                                  [] e.k = "ConnectionError" -> Error(S, "ConnectionError", e.u)
                                  [] OTHER -> ErrorNoIdent("ServerError", "")>>)
    [] e.t = "srvdown" -> R([S EXCEPT !.lst = FALSE, !.cancel = TRUE], <<>>)

AppEvent(S, e) ==
  LET bc == FLOW(S.flow).events[e.e]
      D == DOMAIN S.conns
      call == <<Call(S.conns, D, "event", e.e, "", Conn0, e.tag)>> \o EffOut(e.s)
  IN R(S, call \o IF e.s.o = "fail" THEN <<>> ELSE Broadcasts(S.conns, D, "", bc, e.s, e.tag) \o Deferred(e.s, e.e, e.tag))

(* fields of a key: mandatory ones are taken over, optional ones only where the new key has them *)
Merge(old, new, opt) == [i \in 1..Len(old) |-> IF opt[i] /\ new[i] = "-" THEN old[i] ELSE new[i]]
NewKey(old, new, ow, opt) == IF ow \/ old = NoKey THEN new ELSE Merge(old, new, opt)
Ident(S, x) ==
  IF x.u \notin DOMAIN S.conns THEN R(S, <<ErrorNoIdent("ConsumerError", x.u)>>)
  ELSE IF x.w = "key" THEN R([S EXCEPT !.conns[x.u].key = NewKey(@, x.key, x.ow, FLOW(S.flow).selfopt)], <<>>)
  ELSE R([S EXCEPT !.conns[x.u].asg = NewKey(@, x.key, x.ow, FLOW(S.flow).asgopt)], <<>>)

Confirm(S, u) ==
  IF u \notin DOMAIN S.conns THEN R(S, <<ErrorNoIdent("ConsumerError", u)>>)
  ELSE LET S1 == [S EXCEPT !.conns[u].confirmed = TRUE]
           o == <<Send(u, "InternalServiceGroup.ConnectConfirmationBeacon", "0", "")>>
       IN R(S1, o \o IF u \in S.fault THEN <<Error(S1, "ServerError", u)>> ELSE <<>>)

(* ---- the environment ---- *)
Apply(S, x) ==
  IF x.t = "fault" THEN [S EXCEPT !.fault = Range(x.l)]
  ELSE IF x.t = "go" THEN [S EXCEPT !.busy = IF @ = "hold" THEN "go" ELSE @]
  ELSE IF x.t = "shutdown" THEN
    IF ~S.ready THEN (IF x.wait THEN [S EXCEPT !.waiters = @ \cup {x.n}] ELSE S)
    ELSE [S EXCEPT !.cmdq = IF S.sht THEN Append(@, x.n) ELSE @, !.waiters = IF x.wait THEN @ \cup {x.n} ELSE @]
  ELSE IF x.t = "listen" THEN [S EXCEPT !.endq = Append(@, x.k)]
  ELSE IF x.t = "event" THEN (IF S.ready /\ S.lst THEN [S EXCEPT !.evq = Append(@, x)] ELSE S)
  ELSE IF x.t = "ident" THEN (IF x.u \in S.seen /\ S.lst THEN [S EXCEPT !.idq = Append(@, [w |-> x.k, u |-> x.u, key |-> x.key, ow |-> x.ow])] ELSE S)
  ELSE IF S.lst THEN [S EXCEPT !.inq = Append(@, x)] ELSE S

(* ---- the producer ---- *)
Stopped(S) == [S EXCEPT !.inq = <<>>, !.evq = <<>>, !.idq = <<>>, !.cfq = <<>>]
Norm(r) == IF r.s.lst THEN r ELSE [r EXCEPT !.s = Stopped(@)]
Own(S) ==
  (IF S.lst /\ S.busy = "" /\ S.inq # <<>> THEN {Norm(ServerEvent([S EXCEPT !.inq = Tail(@)], Head(S.inq)))} ELSE {})
  \cup (IF S.lst /\ S.busy = "" /\ S.evq # <<>> THEN {AppEvent([S EXCEPT !.evq = Tail(@)], Head(S.evq))} ELSE {})
  \cup (IF S.lst /\ S.busy = "" /\ S.idq # <<>> THEN {Ident([S EXCEPT !.idq = Tail(@)], Head(S.idq))} ELSE {})
  \cup (IF S.lst /\ S.busy = "" /\ S.cfq # <<>> THEN {Confirm([S EXCEPT !.cfq = Tail(@)], Head(S.cfq))} ELSE {})
  \cup (IF S.lst /\ S.busy = "" /\ S.cancel THEN {R(Stopped([S EXCEPT !.lst = FALSE]), <<>>)} ELSE {})
  \cup (IF S.lsn /\ S.endq # <<>> THEN {R([S EXCEPT !.lsn = FALSE, !.cancel = TRUE, !.res = Head(S.endq)], <<>>)} ELSE {})
  \cup (IF S.lsn /\ S.cancel THEN {R([S EXCEPT !.lsn = FALSE], <<>>)} ELSE {})
  \cup (IF S.sht /\ (S.cancel \/ S.cmdq # <<>>) THEN
         {R([S EXCEPT !.sht = FALSE, !.cancel = TRUE, !.inq = IF S.lst THEN Append(@, [t |-> "srvdown"]) ELSE @, !.endq = Append(@, "ok")],
            <<[op |-> "srvdown"]>>)} ELSE {})
  \cup (IF ~S.lst /\ S.busy = "" /\ ~S.lsn /\ ~S.sht /\ ~S.fin THEN
         {R([S EXCEPT !.fin = TRUE], <<Plain("shutdown"), [op |-> "end", ok |-> S.res = "ok"]>>)} ELSE {})
  \cup (IF (S.fin \/ ~S.ready) /\ S.waiters # {} THEN {R([S EXCEPT !.waiters = {}], <<[op |-> "released", n |-> S.waiters]>>)} ELSE {})
  \cup (IF S.busy = "go" THEN {R([S EXCEPT !.busy = "", !.held = <<>>], S.held)} ELSE {})
(* what comes after a handler that takes its time waits for it *)
Wait(r) ==
  LET at == {i \in DOMAIN r.o : r.o[i].op = "hold"} IN
  IF at = {} THEN r
  ELSE LET i == CHOOSE i \in at : \A j \in at : i <= j
       IN R([r.s EXCEPT !.busy = "hold", !.held = SubSeq(r.o, i + 1, Len(r.o))], SubSeq(r.o, 1, i - 1))
Steps(S) == {Wait(r) : r \in Own(S)}
Quiet(S) == Steps(S) = {}
=============================================================================
