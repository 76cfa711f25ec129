------------------------------- MODULE Middleware -------------------------------
(***************************************************************************)
(* The packing middleware of the generated TypeScript code.  A middleware  *)
(* stands between a message and its package: it is asked once for every    *)
(* package written (encode) and once for every package read (decode), with *)
(* the body, the id of the message, its sequence number and the uuid the   *)
(* caller gave, and what it answers is what goes on: the body on the wire  *)
(* (its length is the length field), or the body that is decoded.  Where   *)
(* it refuses, nothing is packed (pack throws), or the one package is      *)
(* dropped with an error.  Without a middleware the body is left alone.    *)
(*                                                                         *)
(* The middlewares of this model put a mark on the body (1: and shift its  *)
(* bytes by the sequence number, so that the body grows; 2: and keep the   *)
(* body in a table under id and sequence, so that two bytes remain) or     *)
(* leave nothing of it (3: a table again).  They refuse what another one   *)
(* has written.  0 is no middleware.                                       *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt

Kinds == JsonDeserialize(IOEnv.MW_KINDS)    \* << [b |-> body as bytes, id |-> message id] >>
CONSTANTS MaxSteps, MaxUnread
VARIABLES mw,      \* the middleware installed
          st,      \* the packages written so far: [k |-> kind, m |-> written under, q |-> sequence]
          fed,     \* bytes handed to the reader
          done,    \* packages consumed
          hist     \* what was done
vars == <<mw, st, fed, done, hist>>

HEADER == 26
Enc(m, b, q) == CASE m = 0 -> b
                  [] m = 1 -> <<165, 241, 238>> \o [i \in 1..Len(b) |-> (b[i] + q) % 256]
                  [] m = 2 -> <<165, 242>>
                  [] m = 3 -> <<>>
WireLen(x) == HEADER + Len(Enc(x.m, Kinds[x.k].b, x.q))
RECURSIVE EndOf(_, _)
EndOf(p, i) == IF i = 0 THEN 0 ELSE EndOf(p, i - 1) + WireLen(p[i])
Total == EndOf(st, Len(st))
Complete(n) == LET s == {i \in done..Len(st) : EndOf(st, i) <= n} IN CHOOSE i \in s : \A j \in s : j <= i
NoBody(x) == Kinds[x.k].b = <<>>
(* what a reader makes of a package under middleware m *)
Readable(x, m) == x.m = m \/ (m = 0 /\ x.m = 3 /\ NoBody(x))
(* a message without fields may or may not look at its body *)
Open(x, m) == m = 0 /\ x.m \in {1, 2} /\ NoBody(x)
Refused(from, to) == {i \in (from + 1)..to : ~Readable(st[i], mw)}
Delivered(from, to) == SelectSeq([i \in 1..(to - from) |-> from + i], LAMBDA i : Readable(st[i], mw))
Stops(n) == LET c == Complete(n)  r == Refused(done, c)
            IN IF r = {} THEN {c} ELSE LET f == CHOOSE i \in r : \A j \in r : i <= j IN f..c

Q(i) == ((i * 37) % 256) + 1000        \* the sequence number of the i-th pack
(* ---- actions ---- *)
Switch(m) == /\ m # mw /\ mw' = m /\ UNCHANGED <<st, fed, done>>
Pack(k, q, no) == /\ (no => mw # 0)
                  /\ st' = IF no THEN st ELSE Append(st, [k |-> k, m |-> mw, q |-> q])
                  /\ UNCHANGED <<mw, fed, done>>
Feed(n, stop) == /\ stop \in Stops(fed + n)
                 /\ fed' = fed + n /\ done' = stop /\ UNCHANGED <<mw, st>>

(* the calls the middleware gets *)
EncodeCalls(k, q, u) == IF mw = 0 THEN <<>> ELSE <<[d |-> "enc", b |-> Kinds[k].b, id |-> Kinds[k].id, q |-> q, u |-> u]>>
DecodeCalls(from, to, u) == IF mw = 0 THEN <<>>
  ELSE [i \in 1..(to - from) |-> LET x == st[from + i] IN [d |-> "dec", b |-> Enc(x.m, Kinds[x.k].b, x.q), id |-> Kinds[x.k].id, q |-> x.q, u |-> u]]

(* ---- generation ---- *)
Init == mw = 0 /\ st = <<>> /\ fed = 0 /\ done = 0 /\ hist = <<>>
Us == {"", "u"}
Packs == Cardinality({i \in DOMAIN hist : hist[i].a = "pack"})
FeedSizes == LET left == Total - fed
                 first == EndOf(st, done + 1) - fed
             IN IF left = 0 THEN {0} ELSE {left, first, first - 1, IF HEADER < first THEN HEADER ELSE 1, left - 1} \cap (1..left)
GenStep ==
  \/ \E m \in 0..3 : Switch(m) /\ (IF hist = <<>> THEN TRUE ELSE hist[Len(hist)].a # "switch")
                     /\ hist' = Append(hist, [a |-> "switch", m |-> m])
  \/ \E k \in DOMAIN Kinds, u \in Us, no \in BOOLEAN :
       /\ Len(st) - done < MaxUnread
       /\ Pack(k, Q(Packs + 1), no)
       /\ hist' = Append(hist, [a |-> "pack", k |-> k, u |-> u, q |-> Q(Packs + 1), no |-> no])
  \/ /\ Len(st) > done
     /\ \A i \in (done + 1)..Len(st) : ~Open(st[i], mw)
     /\ \E n \in FeedSizes, u \in Us :
          /\ Feed(n, Complete(fed + n))
          /\ hist' = Append(hist, [a |-> "feed", n |-> n, u |-> u])
Next == Len(hist) < MaxSteps /\ GenStep
Spec == Init /\ [][Next]_vars
(* one history for every way the packages lie before the reader, and for the last two things done *)
Last2 == SubSeq(hist, IF Len(hist) < 2 THEN 1 ELSE Len(hist) - 1, Len(hist))
Shape == <<mw, [i \in 1..(Len(st) - done) |-> <<st[done + i].k, st[done + i].m>>], fed - EndOf(st, done),
           [i \in DOMAIN Last2 |-> LET x == Last2[i] IN CASE x.a = "pack" -> <<"p", x.k, x.u, x.no>> [] x.a = "feed" -> <<"f", x.n, x.u>> [] OTHER -> <<"s", x.m>>]>>
Emit == IF hist = <<>> THEN TRUE ELSE (hist[Len(hist)].a = "feed" => PrintT(ToJson([h |-> hist])))
WalkEmit == Len(hist) = MaxSteps => PrintT(ToJson([h |-> hist]))

(* ---- properties of the specification ---- *)
Within == done <= Len(st) /\ EndOf(st, done) <= fed /\ fed <= Total
(* where one middleware is used throughout, every package is delivered *)
AllThrough == (\A i \in DOMAIN st : st[i].m = mw) => Refused(0, Len(st)) = {}
(* a package is never read by another middleware *)
NoMix == \A i \in DOMAIN st : Readable(st[i], mw) => (st[i].m = mw \/ NoBody(st[i]))

=================================================================================
