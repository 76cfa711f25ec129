------------------------------- MODULE FramingCore -------------------------------
(***************************************************************************)
(* The stream reader: a byte stream made of packages arrives in chunks cut *)
(* anywhere; the reader delivers the good packages and drops the others.   *)
(*                                                                         *)
(* A package is known by its length and by whether the reader has to       *)
(* deliver it ("good") or to refuse it (foreign signature, unknown id,     *)
(* undecodable body).  Positions are byte offsets into the stream.         *)
(*                                                                         *)
(* One call of the reader (Chunk) must consume every complete package up   *)
(* to the first refused one and that one too; it may go on behind it.      *)
(* Without refused packages its effect is therefore fully determined.      *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt

Kinds == JsonDeserialize(IOEnv.FR_KINDS)     \* << [n |-> length, k |-> "good"|"sig"|"id"|"body"] >>
CONSTANTS MaxPackages, MaxChunks, Bad        \* Bad: whether refused packages take part

VARIABLES pk,      \* the packages of the stream: indexes into Kinds
          fed,     \* bytes handed to the reader
          done,    \* packages consumed
          out,     \* positions of the packages delivered, in order of delivery
          errs,    \* calls that reported an error
          hist     \* sizes of the chunks
vars == << pk, fed, done, out, errs, hist >>

HEADER == 26
LenOf(p, i) == Kinds[p[i]].n
EndOf(p, i) == FoldLeft(LAMBDA acc, k : acc + Kinds[k].n, 0, SubSeq(p, 1, i))
Total(p) == EndOf(p, Len(p))
(* the packages complete within n bytes: walk until one ends behind them *)
Complete(p, n) == FoldLeft(LAMBDA acc, k : IF acc[2] = FALSE \/ acc[3] + Kinds[k].n > n THEN <<acc[1], FALSE, acc[3]>>
                                          ELSE <<acc[1] + 1, TRUE, acc[3] + Kinds[k].n>>, <<0, TRUE, 0>>, p)[1]
Good(p, i) == Kinds[p[i]].k = "good"
Refused(p, from, to) == { i \in (from + 1)..to : ~Good(p, i) }
GoodSeq(p, from, to) == SelectSeq([i \in 1..(to - from) |-> from + i], LAMBDA i : Good(p, i))

(* where one call may stop, having been fed n bytes with d packages consumed before *)
Stops(p, d, n) ==
  LET c == Complete(p, n)
      r == Refused(p, d, c)
  IN IF r = {} THEN {c} ELSE LET first == CHOOSE i \in r : \A j \in r : i <= j IN first..c

Chunk(n, stop) ==
  /\ stop \in Stops(pk, done, fed + n)
  /\ fed' = fed + n
  /\ done' = stop
  /\ out' = out \o GoodSeq(pk, done, stop)
  /\ errs' = errs + (IF Refused(pk, done, stop) = {} THEN 0 ELSE 1)
  /\ hist' = Append(hist, n)
  /\ pk' = pk

----------------------------------------------------------------------------
(* F01, F02: exactly the packages that are complete, once each, in order *)
ExactlyComplete == ~Bad => out = [i \in 1..Complete(pk, fed) |-> i]
(* F03 *)
OnlyGoodInOrder == out = GoodSeq(pk, 0, done)
NothingLost == done <= Complete(pk, fed)
               /\ (Refused(pk, 0, Complete(pk, fed)) = {} => done = Complete(pk, fed))
Progress == \A x \in {done} : Refused(pk, 0, x) # {} => errs > 0
=============================================================================
