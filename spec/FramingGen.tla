------------------------------ MODULE FramingGen ------------------------------
(* All chunkings of all short streams: the behaviours of the reader's specification, emitted for replay. *)
EXTENDS FramingCore

(* the cuts worth making *)
Cuts(p) == UNION { LET s == EndOf(p, i - 1)  n == LenOf(p, i) IN
                   { s + x : x \in { y \in {0, 1, 4, 13, 18, 25, 26, 27, n \div 2, n - 1, n} : y <= n } } : i \in 1..Len(p) }

Init ==
  /\ pk \in UNION { [1..n -> 1..Len(Kinds)] : n \in 1..MaxPackages }
  /\ ~Bad => \A i \in 1..Len(pk) : Good(pk, i)
  /\ Bad => \E i \in 1..Len(pk) : ~Good(pk, i)
  /\ fed = 0 /\ done = 0 /\ out = << >> /\ errs = 0 /\ hist = << >>

(* a call with nothing new is part of the behaviour too (at most one in a row while data is missing) *)
Next ==
  \E c \in Cuts(pk) :
    /\ fed < Total(pk)
    /\ Len(hist) < MaxChunks
    /\ c >= fed
    /\ c = fed => IF hist = << >> THEN TRUE ELSE hist[Len(hist)] # 0
    /\ Len(hist) = MaxChunks - 1 => c = Total(pk)
    /\ \E stop \in Stops(pk, done, c) : Chunk(c - fed, stop)
Spec == Init /\ [][Next]_vars

Emit == (fed = Total(pk) /\ fed > 0 /\ (Bad => done = Complete(pk, fed))) => PrintT(ToJson([p |-> pk, h |-> hist]))
=============================================================================
