----------------------------- MODULE SystemCore -----------------------------
(* A producer and its consumers at the two ends of a network: the component   *)
(* specifications, joined by first-in first-out channels of packages, and     *)
(* what users rely on of the whole (G: the contract's own books, kept from    *)
(* the scripts of the calls and the order in which the producer is told, not  *)
(* from what the components answer).                                          *)
(*                                                                            *)
(* A step of the network gives one process something and lets it come to rest. *)
(* The number a package carries is the name of what it answers: key, hash,     *)
(* call:<tag>, or "0".                                                        *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, SequencesExt, Functions

CONSTANTS FLOW(_)      \* the workflow by name; with "!ts": as a TypeScript consumer names conclusions

PR == INSTANCE ProducerCore
PT == INSTANCE TsProducerCore WITH AnyOrder <- FALSE
CR == INSTANCE ConsumerCore
CT == INSTANCE TsConsumerCore WITH AnyOrder <- FALSE

Sv(n) == "InternalServiceGroup." \o n
NoScript == [o |-> "ok", c |-> "", b |-> <<>>, k |-> <<>>, a |-> <<>>, x |-> "", d |-> FALSE, g |-> FALSE]
Upd(f, u, v) == [x \in DOMAIN f \cup {u} |-> IF x = u THEN v ELSE f[x]]

(* ---- bags, as functions to counts ---- *)
Times(s, x) == Cardinality({i \in DOMAIN s : s[i] = x})
BagOf(s) == [x \in Range(s) |-> Times(s, x)]
At(b, x) == IF x \in DOMAIN b THEN b[x] ELSE 0
AddBag(b, s) == [x \in DOMAIN b \cup Range(s) |-> At(b, x) + Times(s, x)]
Within(a, b) == \A x \in DOMAIN a : a[x] <= At(b, x)
RECURSIVE Unbag(_)
Unbag(b) == IF DOMAIN b = {} THEN <<>>
            ELSE LET x == CHOOSE x \in DOMAIN b : TRUE IN [i \in 1..b[x] |-> x] \o Unbag([y \in DOMAIN b \ {x} |-> b[y]])

(* ---- the producer ---- *)
PInit(c) == IF c.prod = "rust" THEN PR!S0(c.flow, "Ignore", "EmitErrorAndDisconnect", c.cfg) ELSE PT!S0(c.flow, "Ignore", "EmitErrorAndDisconnect", c.cfg)
PSteps(c, S) == IF c.prod = "rust" THEN PR!Steps(S) ELSE PT!Steps(S)
PApply(c, S, x) == IF c.prod = "rust" THEN PR!Apply(S, x) ELSE PT!Apply(S, x)
(* one message to many, as many messages *)
Each(o) == IF o.op = "bcast" THEN LET l == SetToSeq(o.to) IN [i \in DOMAIN l |-> PR!Send(l[i], o.m, "0", o.tag)] ELSE <<o>>
RECURSIVE Drain(_, _, _)
Drain(c, S, o) ==
  LET st == PSteps(c, S) IN
  IF st = {} THEN [s |-> S, o |-> o]
  ELSE LET r == CHOOSE r \in st : TRUE IN Drain(c, r.s, o \o FlattenSeq([i \in DOMAIN r.o |-> Each(r.o[i])]))
PRun(c, S, x) == TLCEval(Drain(c, PApply(c, S, x), <<>>))

(* ---- a consumer: everything it may have done when it comes to rest ---- *)
Kind(c, u) == c.cons[u].kind
CFlow(c, u) == IF Kind(c, u) = "ts" THEN c.flow \o "!ts" ELSE c.flow
CInit(c, u) == IF Kind(c, u) = "rust" THEN CR!S0(CFlow(c, u), 0, 1000000, FALSE) ELSE CT!S0(CFlow(c, u))
CSteps(c, u, S) == IF Kind(c, u) = "rust" THEN CR!Steps(S) ELSE CT!Steps(S)
CApply(c, u, S, x) == IF Kind(c, u) = "rust" THEN CR!Apply(S, x) ELSE CT!Apply(S, x)
RECURSIVE Close(_, _, _)
Close(c, u, front) ==
  LET nxt == TLCEval(UNION {LET st == CSteps(c, u, r.s) IN
                            IF st = {} THEN {r} ELSE {[s |-> t.s, o |-> AddBag(r.o, t.o)] : t \in st} : r \in front})
  IN IF nxt = front THEN front ELSE Close(c, u, nxt)
RECURSIVE ApplyAll(_, _, _, _)
ApplyAll(c, u, S, xs) == IF xs = <<>> THEN S ELSE ApplyAll(c, u, CApply(c, u, S, Head(xs)), Tail(xs))
CRun(c, u, S, xs) == TLCEval(Close(c, u, {[s |-> ApplyAll(c, u, S, xs), o |-> [x \in {} |-> 0]]}))
CStim(c, u, w) ==
  IF Kind(c, u) = "rust" THEN
    CASE w = "open" -> <<[t |-> "cli", k |-> "connected"]>>
      [] w = "leave" -> <<[t |-> "cli", k |-> "disconnected"], [t |-> "close", k |-> "ok"]>>
      [] w = "quit" -> <<[t |-> "shutdown", id |-> "quit", kept |-> FALSE]>>
  ELSE CASE w = "open" -> <<[t |-> "connect"]>>
         [] w = "leave" -> <<[t |-> "disconnect"]>>
         [] w = "quit" -> <<[t |-> "destroy"]>>
CCall(c, u, m, tag) ==
  IF Kind(c, u) = "rust" THEN [t |-> "call", id |-> tag, m |-> m, tag |-> tag, kept |-> FALSE] ELSE [t |-> "call", id |-> tag, m |-> m, tag |-> tag, again |-> FALSE]

(* ---- the whole ---- *)
W0(c) ==
  LET us == DOMAIN c.cons IN
  [p |-> PRun(c, PInit(c), [t |-> "ready"]).s,
   c |-> [u \in us |-> CInit(c, u)],
   link |-> [u \in us |-> "no"],                  \* no, up, kicked (the producer has closed it), closed
   up |-> [u \in us |-> <<>>], down |-> [u \in us |-> <<>>],
   known |-> {}, keyof |-> [u \in us |-> ""],     \* whom the producer has been told of
   calls |-> [t \in {} |-> 0], handled |-> [t \in {} |-> 0], res |-> [t \in {} |-> 0],
   owe |-> [u \in us |-> [x \in {} |-> 0]], got |-> [u \in us |-> [x \in {} |-> 0]], ready |-> {},
   due |-> [q \in {} |-> 0]]                      \* what the requests that are being handled tell the others

(* packages on their way *)
Pkg(tok) == [t |-> "pkg", tok |-> tok]
UpPkg(c, W, u, o) ==
  LET tok(kind, m, q, tag, key, h, s) == Pkg([t |-> "M", kind |-> kind, m |-> m, q |-> q, tag |-> tag, key |-> key, h |-> h, s |-> s])
  IN CASE o.who = "key" -> tok("key", FLOW(c.flow).selfkey, "key", "", c.cons[u].key, "", NoScript)
       [] o.who = "hash" -> tok("hash", Sv("HashRequest"), "hash", "", <<>>, c.cons[u].h, NoScript)
       [] OTHER -> LET tag == SubSeq(o.who, 6, Len(o.who)) IN tok("app", o.m, o.who, tag, <<>>, "", W.calls[tag].s)
DownPkg(o) == Pkg([t |-> "M", m |-> o.m, ref |-> o.q, tag |-> o.tag, err |-> o.m \in {Sv("HashResponse"), Sv("BeaconConfirmation")} /\ o.tag = "err"])
Bye == [t |-> "disconnect"]

(* ---- the contract's books ---- *)
Key1(c, u) == c.cons[u].key[1]
To(W, u, r) ==
  CASE r.t = "all" -> W.known
    [] r.t = "except" -> W.known \ {IF u = "" THEN r.l[1] ELSE u}
    [] r.t = "exclude" -> W.known \ Range(r.l)
    [] r.t = "keyed" -> {x \in W.known : W.keyof[x] = r.l[1]}
    [] r.t = "none" -> {}
    [] OTHER -> Range(r.l)
Due(W, u, bc, s, tag) ==
  LET n == IF Len(bc) < Len(s.b) THEN Len(bc) ELSE Len(s.b)
      for(x) == SelectSeq([i \in 1..n |-> [i |-> i, m |-> bc[i].m, tag |-> tag \o "#" \o ToString(i - 1)]], LAMBDA y : x \in To(W, u, s.b[y.i]))
      l(x) == LET f == for(x) IN [i \in DOMAIN f |-> [m |-> f[i].m, tag |-> f[i].tag]]
  IN [x \in DOMAIN W.owe |-> l(x)]
Book(W, d) == [W EXCEPT !.owe = [x \in DOMAIN @ |-> IF x \in W.known THEN AddBag(@[x], d[x]) ELSE @[x]]]
Owe(W, u, bc, s, tag) == Book(W, Due(W, u, bc, s, tag))
EventBc(c, e) == IF e \in DOMAIN FLOW(c.flow).events THEN FLOW(c.flow).events[e] ELSE <<>>
Act(c, m, s) == LET a == FLOW(c.flow).requests[m].acts IN a[IF "_" \in DOMAIN a THEN "_" ELSE s.c]
(* the producer is told x *)
Told(c, W, u, x) ==
  CASE x.t = "connect" -> LET A == [W EXCEPT !.known = @ \cup {u}] IN Owe(A, u, EventBc(c, "connected"), c.cfg["connected"].s, c.cfg["connected"].tag)
    [] x.t = "disconnect" -> LET A == [W EXCEPT !.known = @ \ {u}] IN Owe(A, u, EventBc(c, "disconnected"), c.cfg["disconnected"].s, c.cfg["disconnected"].tag)
    [] x.t = "pkg" ->
         IF x.tok.kind = "key" THEN [W EXCEPT !.keyof[u] = Key1(c, u)]
         ELSE W
RECURSIVE ToldAll(_, _, _, _)
ToldAll(c, W, u, xs) == IF xs = <<>> THEN W ELSE ToldAll(c, Told(c, W, u, Head(xs)), u, Tail(xs))
(* what the caller must be given *)
Want(c, u, m, s, tag) ==
  IF m \in Range(FLOW(c.flow).beacons) THEN [k |-> IF Kind(c, u) = "ts" THEN "response" ELSE "ok", m |-> "", tag |-> ""]
  ELSE LET f == FLOW(c.flow).requests[m]
           l == FLOW(CFlow(c, u)).list[m]
           ans == IF s.o = "err" THEN f.err ELSE Act(c, m, s).resp
           i == CHOOSE i \in DOMAIN l : l[i].m = ans
       IN [k |-> l[i].c, m |-> ans, tag |-> tag \o ":" \o (IF s.o = "err" THEN "err" ELSE IF "_" \in DOMAIN f.acts THEN "_" ELSE s.c)]

(* ---- what the producer has put out, in order ---- *)
Count(f, t) == Upd(f, t, (IF t \in DOMAIN f THEN f[t] ELSE 0) + 1)
Out1(c, W, o) ==
  CASE o.op = "send" ->
         LET A == IF W.link[o.u] = "up" /\ o.u \in W.known THEN [W EXCEPT !.down[o.u] = Append(@, DownPkg(o))] ELSE W IN
         IF o.u \in W.known /\ o.q \in DOMAIN W.due THEN [Book(A, W.due[o.q]) EXCEPT !.due = [y \in DOMAIN @ \ {o.q} |-> @[y]]] ELSE A   \* the reply goes first
    [] o.op = "disc" -> IF W.link[o.u] = "up" /\ o.u \in W.known THEN      \* nobody can close what is not there yet
                           [W EXCEPT !.link[o.u] = "kicked", !.down[o.u] = Append(@, Bye), !.up[o.u] = <<Bye>>] ELSE W
    [] o.op = "call" /\ o.k \in {"request", "beacon", "event"} ->
         LET A == [W EXCEPT !.handled = Count(@, o.tag)] IN         \* what a handled request tells the others
         IF o.k = "request" /\ o.tag \in DOMAIN W.calls /\ W.calls[o.tag].s.o = "ok"
         THEN [A EXCEPT !.due = Upd(@, "call:" \o o.tag, Due(A, W.calls[o.tag].u, Act(c, W.calls[o.tag].m, W.calls[o.tag].s).bc, W.calls[o.tag].s, o.tag))] ELSE A
    [] OTHER -> W
RECURSIVE POut(_, _, _)
POut(c, W, os) == IF os = <<>> THEN W ELSE POut(c, Out1(c, W, Head(os)), Tail(os))
(* what a consumer has put out *)
Ready(c, u, o) == o.op = "ev" /\ o.k = IF Kind(c, u) = "ts" THEN "ready" ELSE "connected"
COut1(c, W, u, o) ==
  CASE o.op = "send" -> IF W.link[u] = "up" THEN [W EXCEPT !.up[u] = Append(@, UpPkg(c, W, u, o))] ELSE W
    [] o.op = "ctl" -> IF W.link[u] = "up" THEN [W EXCEPT !.link[u] = "closed", !.up[u] = Append(@, Bye), !.down[u] = <<>>] ELSE [W EXCEPT !.link[u] = "closed", !.down[u] = <<>>]
    [] o.op = "bcast" -> [W EXCEPT !.got[u] = AddBag(@, <<[m |-> o.m, tag |-> o.tag]>>)]
    [] o.op = "res" -> [W EXCEPT !.res = Upd(@, o.id, IF o.id \in DOMAIN @ THEN [@[o.id] EXCEPT !.n = @ + 1] ELSE [k |-> o.k, m |-> o.m, tag |-> o.tag, n |-> 1])]
    [] o.op = "ev" -> IF Ready(c, u, o) THEN [W EXCEPT !.ready = @ \cup {u}] ELSE W
    [] OTHER -> W
RECURSIVE COut(_, _, _, _)
COut(c, W, u, os) == IF os = <<>> THEN W ELSE COut(c, COut1(c, W, u, Head(os)), u, Tail(os))

(* ---- the steps: x = [a, u, n, m, tag, s] ---- *)
Leading(q) == IF q = <<>> \/ Head(q).t # "pkg" THEN 0
              ELSE LET stop == {i \in DOMAIN q : q[i].t # "pkg"} IN IF stop = {} THEN Len(q) ELSE (CHOOSE i \in stop : \A k \in stop : i <= k) - 1
Chunk(q, n) == IF Leading(q) = 0 THEN 1 ELSE IF n <= Leading(q) THEN n ELSE Leading(q)
First(q, n) == SubSeq(q, 1, n)
Rest_(q, n) == SubSeq(q, n + 1, Len(q))
Toks(items) == [i \in DOMAIN items |-> items[i].tok]
CanDo(c, W, x) ==
  CASE x.a = "open" -> W.link[x.u] = "no"
    [] x.a = "up" -> W.up[x.u] # <<>>
    [] x.a = "down" -> W.down[x.u] # <<>>
    [] x.a = "call" -> x.u \in W.ready /\ W.link[x.u] \in {"up", "kicked"} /\ x.s.x # x.u
    [] x.a \in {"leave", "quit"} -> W.link[x.u] \in {"up", "kicked"}
    [] x.a = "event" -> TRUE
    [] x.a = "go" -> c.prod = "ts" /\ \E j \in DOMAIN W.p.jobs : W.p.jobs[j].st = "gate" /\ W.p.jobs[j].u = x.u /\ W.p.jobs[j].h = x.m
    [] OTHER -> FALSE
AtProducer(x) == x.a \in {"up", "event", "go"}
(* before the process moves: what the network and the books do *)
Before(c, W, x) ==
  CASE x.a = "open" -> [W EXCEPT !.link[x.u] = "up", !.up[x.u] = <<[t |-> "connect"]>>]
    [] x.a = "up" -> LET n == Chunk(W.up[x.u], x.n) IN ToldAll(c, [W EXCEPT !.up[x.u] = Rest_(@, n)], x.u, First(W.up[x.u], n))
    [] x.a = "down" -> LET n == Chunk(W.down[x.u], x.n) IN
                       [W EXCEPT !.down[x.u] = Rest_(@, n), !.link[x.u] = IF Head(W.down[x.u]).t = "pkg" THEN @ ELSE "closed"]
    [] x.a = "call" -> [W EXCEPT !.calls = Upd(@, x.tag, [u |-> x.u, m |-> x.m, s |-> x.s])]
    [] x.a = "leave" -> [W EXCEPT !.link[x.u] = "closed", !.up[x.u] = IF W.link[x.u] = "up" THEN Append(@, Bye) ELSE @, !.down[x.u] = <<>>]
    [] x.a = "event" -> Owe(W, "", EventBc(c, x.m), x.s, x.tag)
    [] OTHER -> W
PStim(W, x) ==
  CASE x.a = "up" -> LET q == W.up[x.u] IN IF Head(q).t = "pkg" THEN [t |-> "recv", u |-> x.u, c |-> Toks(First(q, Chunk(q, x.n)))] ELSE [t |-> Head(q).t, u |-> x.u]
    [] x.a = "event" -> [t |-> "event", e |-> x.m, tag |-> x.tag, s |-> x.s]
    [] x.a = "go" -> [t |-> "go", u |-> x.u, h |-> x.m]
CStims(c, W, x) ==
  CASE x.a = "down" -> LET q == W.down[x.u] IN IF Head(q).t = "pkg" THEN <<[t |-> "msg", c |-> Toks(First(q, Chunk(q, x.n)))]>> ELSE CStim(c, x.u, "leave")
    [] x.a = "call" -> <<CCall(c, x.u, x.m, x.tag)>>
    [] OTHER -> CStim(c, x.u, x.a)
(* a Rust consumer opens its connection itself *)
COf(c, W, x) == IF x.a = "open" /\ Kind(c, x.u) = "rust" THEN CRun(c, x.u, W.c[x.u], <<>>) ELSE {[s |-> W.c[x.u], o |-> [y \in {} |-> 0]]}
(* all a consumer may do on x: [s, o] with o a bag *)
CResults(c, W, x) == UNION {{[s |-> r.s, o |-> [y \in DOMAIN r.o \cup DOMAIN r0.o |-> At(r.o, y) + At(r0.o, y)]] : r \in CRun(c, x.u, r0.s, CStims(c, W, x))} : r0 \in COf(c, W, x)}

(* ---- what users rely on ---- *)
Failed(k) == SubSeq(k, 1, 1) = "!"
AnswersRight(c, W) ==
  \A t \in DOMAIN W.res :
    LET r == W.res[t] q == W.calls[t] IN
    /\ r.n = 1
    /\ IF Failed(r.k) THEN W.link[q.u] = "closed"
       ELSE [k |-> r.k, m |-> r.m, tag |-> r.tag] = Want(c, q.u, q.m, q.s, t) /\ t \in DOMAIN W.handled
HandledOnce(W) == \A t \in DOMAIN W.handled : W.handled[t] = 1
NobodyElse(W) == \A u \in DOMAIN W.got : Within(W.got[u], W.owe[u])
OnlyMatching(c, W) == \A u \in W.ready : c.cons[u].h = "ok"
AtRest(c, W) == /\ \A u \in DOMAIN W.up : W.up[u] = <<>> /\ W.down[u] = <<>>
                /\ c.prod = "ts" => \A j \in DOMAIN W.p.jobs : W.p.jobs[j].st # "gate"
(* when nothing is on its way any more *)
Complete(c, W) ==
  AtRest(c, W) =>
    /\ \A u \in DOMAIN W.link : W.link[u] = "up" => c.cons[u].h = "ok" /\ u \in W.ready /\ W.got[u] = W.owe[u]
    /\ \A t \in DOMAIN W.calls : t \in DOMAIN W.res /\ (W.link[W.calls[t].u] = "up" => ~Failed(W.res[t].k))
    /\ W.known = {u \in DOMAIN W.link : W.link[u] = "up"}
Contract(c, W) == AnswersRight(c, W) /\ HandledOnce(W) /\ NobodyElse(W) /\ OnlyMatching(c, W) /\ Complete(c, W)
=============================================================================
