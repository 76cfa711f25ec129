------------------------------- MODULE WireLarge -------------------------------
(* The wire format with large contents: strings, array items and arrays whose sizes lie around the bounds of the    *)
(* number types that could hold them (2^8, 2^15, 2^16), and above.  The codec is the one of Wire.tla.               *)
EXTENDS Wire, Integers

Sizes == JsonDeserialize(IOEnv.WIRE_LARGE).sizes      \* bytes of one text
Counts == JsonDeserialize(IOEnv.WIRE_LARGE).counts    \* items of an array of structs, enums or texts
Widths == JsonDeserialize(IOEnv.WIRE_LARGE).widths    \* bytes of an array of scalars

Text(n) == [i \in 1..n |-> 97 + (i % 26)] \o <<195, 169, 226, 130, 172, 240, 159, 152, 128>>
RECURSIVE HoldsText(_), Huge(_, _)
HoldsText(f) == f.t = "str" \/ (f.t = "" /\ \E i \in DOMAIN Types[f.r].f : ~Types[f.r].f[i].opt /\ HoldsText(Types[f.r].f[i]))
BaseOf(f) == Base(TLCEval(FVals(f, 0)))
BareBase(f) == Base(TLCEval(TVals(f, 0)))
(* a bare value of the type of f with a text of n bytes somewhere in it *)
Huge(f, n) ==
  IF f.t = "str" THEN Text(n)
  ELSE LET D == Types[f.r]
           at == CHOOSE i \in DOMAIN D.f : (~D.f[i].opt /\ HoldsText(D.f[i])) /\ \A j \in 1..(i - 1) : D.f[j].opt \/ ~HoldsText(D.f[j])
           g == D.f[at]
           x == IF g.rep THEN <<Huge(g, n)>> ELSE Huge(g, n)
       IN IF D.k = "enum" THEN <<at - 1, x>> ELSE [i \in DOMAIN D.f |-> IF i = at THEN x ELSE BaseOf(D.f[i])]
Opt(f, v) == IF f.opt THEN <<v>> ELSE v
(* the values of field f worth trying *)
HugeVals(f) ==
  LET b == TLCEval(BareBase(f)) IN
  (IF ~HoldsText(f) THEN <<>> ELSE
   IF f.rep THEN [i \in DOMAIN Sizes |-> Opt(f, <<b, Huge(f, Sizes[i]), b>>)] ELSE [i \in DOMAIN Sizes |-> Opt(f, Huge(f, Sizes[i]))])
  \o (IF ~f.rep THEN <<>> ELSE
      IF f.t # "" /\ f.t # "str"
      THEN [i \in DOMAIN Widths |-> Opt(f, LET k == PrimSize[f.t]  n == Widths[i] \div k + (IF Widths[i] % k = 0 THEN 0 ELSE 1)
                                               one == IF f.t = "bool" THEN <<1>> ELSE IF f.t \in {"f32", "f64"} THEN b ELSE Count(k)
                                               two == IF f.t \in {"bool", "f32", "f64"} THEN Zeros(k) ELSE Ones(k)
                                           IN [j \in 1..n |-> IF j % 251 = 7 THEN two ELSE one])]
      ELSE [i \in DOMAIN Counts |-> Opt(f, [j \in 1..Counts[i] |-> b])])
LVals(D) ==
  IF D.k = "enum" THEN Flat([i \in DOMAIN D.f |-> LET vs == HugeVals(D.f[i]) IN [j \in DOMAIN vs |-> <<i - 1, vs[j]>>]])
  ELSE LET base == TLCEval([i \in DOMAIN D.f |-> BaseOf(D.f[i])])
       IN Flat([i \in DOMAIN D.f |-> LET vs == TLCEval(HugeVals(D.f[i])) IN [j \in DOMAIN vs |-> [base EXCEPT ![i] = vs[j]]]])
LCount == TLCEval([t \in 1..NT |-> Len(LVals(Types[t]))])
LInit == ti \in 1..NT /\ ci = 0
LNext == ti' = ti /\ ci < LCount[ti] /\ ci' = ci + 1
LSpec == LInit /\ [][LNext]_vars
LEmit == IF ci = 0 THEN TRUE ELSE LET v == TLCEval(LVals(T)[ci])
                       b == TLCEval(Enc(T, v)) IN
                   PrintT(ToJson([t |-> T.n, c |-> 100000 + ci, v |-> v, seq |-> Seqn, h |-> Header(T, Seqn, Len(b)), b |-> b,
                                  sh |-> <<>>, dm |-> <<>>, rs |-> <<>>]))
=============================================================================
