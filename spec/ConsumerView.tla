---------------------------- MODULE ConsumerView ----------------------------
(* What each property looks at, and in which of the independently observed    *)
(* streams an output stands.                                                  *)
EXTENDS Naturals, Sequences, TLC, SequencesExt

StreamOf(o) == CASE o.op \in {"ev", "bcast"} -> "ev"
                 [] o.op = "send" -> "send"
                 [] o.op = "res" -> "res" \o o.id
                 [] o.op = "released" -> "rel" \o o.id
                 [] OTHER -> "life"
IsEv(o, K) == o.op = "ev" /\ o.k \in K
IsSend(o, W) == o.op = "send" /\ o.who \in W
Hand == {"key", "hash"}
Keep(p, o) ==
  CASE p = "C01" -> o.op \in {"bcast", "open"} \/ IsSend(o, Hand) \/ IsEv(o, {"connected", "error", "shutdown"})
    [] p = "C02" -> o.op \in {"res", "mass"} \/ (o.op = "send" /\ o.who \notin Hand) \/ IsEv(o, {"shutdown", "error"})
    [] p = "C03" -> o.op = "bcast" \/ IsEv(o, {"error", "shutdown"})
    [] p = "C04" -> o.op \in {"open", "ctl", "released"} \/ IsEv(o, {"connected", "disconnected", "shutdown", "reconnect"}) \/ IsSend(o, Hand)
                    \/ (o.op = "res" /\ o.k = "!gone")
    [] OTHER -> TRUE
ViewAll(p, os) == SelectSeq(os, LAMBDA o : Keep(p, o))
=============================================================================
