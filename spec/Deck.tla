--------------------------------- MODULE Deck ----------------------------------
(* The input deck.  A deck is a sequence of characters (codes); its lines are  *)
(* read one after another into a table of entries.                             *)
(*   line   = blank* [ key blank+ value blank* ] [ '#' anything ]              *)
(*   blank  = space | tab            key, value = [A-Za-z0-9+-_.]+             *)
(* Keys are compared without regard to case; no key may occur twice.  Entries  *)
(* the program has no use for are allowed.                                     *)
EXTENDS Fp, Integers, Sequences, FiniteSets

VARIABLES entries,    \* key in lower case -> value (codes)
          trouble     \* numbers of the lines that are malformed or repeat a key

LF == 10
Blank == {9, 32}
Hash == 35
Digit == 48..57
Token == Digit \cup (65..90) \cup (97..122) \cup {43, 45, 95, 46}

Least(S) == CHOOSE i \in S : \A j \in S : i <= j
\* First position from i on with a character not in set C (Len + 1 if there is none)
Past(l, i, C) == Least({j \in i..Len(l)+1 : j = Len(l) + 1 \/ l[j] \notin C})
PastNot(l, i, C) == Least({j \in i..Len(l)+1 : j = Len(l) + 1 \/ l[j] \in C})

RECURSIVE LinesFrom(_, _)
LinesFrom(d, i) == IF i > Len(d) THEN <<>>
                   ELSE LET e == PastNot(d, i, {LF}) IN <<SubSeq(d, i, e - 1)>> \o LinesFrom(d, e + 1)
Lines(d) == LinesFrom(d, 1)

\* What a line says: kind "none", "entry" or "bad".
Parse(line) ==
    LET l == SubSeq(line, 1, PastNot(line, 1, {Hash}) - 1)
        k == Past(l, 1, Blank)
        b == Past(l, k, Token)
        v == Past(l, b, Blank)
        e == Past(l, v, Token)
    IN IF k > Len(l) THEN [kind |-> "none", key |-> "", value |-> <<>>]
       ELSE IF b > k /\ v > b /\ e > v /\ Past(l, e, Blank) = Len(l) + 1
       THEN [kind |-> "entry", key |-> LowerS(Chars(SubSeq(l, k, b - 1))), value |-> SubSeq(l, v, e - 1)]
       ELSE [kind |-> "bad", key |-> "", value |-> <<>>]

NothingRead == entries = [k \in {} |-> <<>>] /\ trouble = {}
ReadLine(n, line) ==
    LET s == Parse(line) IN
    CASE s.kind = "none" -> UNCHANGED <<entries, trouble>>
      [] s.kind = "bad" \/ s.key \in DOMAIN entries -> trouble' = trouble \cup {n} /\ UNCHANGED entries
      [] OTHER -> entries' = [k \in DOMAIN entries \cup {s.key} |-> IF k = s.key THEN s.value ELSE entries[k]] /\ UNCHANGED trouble

\* ---- values ----------------------------------------------------------------------
Sign == {43, 45}
Unsigned(v) == IF Len(v) > 0 /\ v[1] \in Sign THEN SubSeq(v, 2, Len(v)) ELSE v
AllDigits(v) == Len(v) > 0 /\ \A i \in 1..Len(v) : v[i] \in Digit
Smallest == "-2147483648"
Largest == "2147483647"
IntOf(v) == BAdd(Chars(v), "0")
IsInt(v) == AllDigits(Unsigned(v)) /\ ~BLt(IntOf(v), Smallest) /\ ~BLt(Largest, IntOf(v))

IsReal(v) ==
    LET u == Unsigned(v)
        e == PastNot(u, 1, {69, 101})
        m == SubSeq(u, 1, e - 1)
        x == SubSeq(u, e + 1, Len(u))
        p == PastNot(m, 1, {46})
        w == SubSeq(m, 1, p - 1)
        f == SubSeq(m, p + 1, Len(m))
    IN /\ \A i \in 1..Len(w) : w[i] \in Digit
       /\ \A i \in 1..Len(f) : f[i] \in Digit
       /\ Len(w) + Len(f) > 0
       /\ e <= Len(u) => AllDigits(Unsigned(x))
       /\ FFinite(FDec(Chars(v)))
RealOf(v) == FDec(Chars(v))

IsBool(v) == LowerS(Chars(v)) \in {"true", "false"}
BoolOf(v) == LowerS(Chars(v)) = "true"

\* ---- what the program needs ----------------------------------------------------------
Ints == {"snorder", "itermax", "maxcellsperstep", "intraanglep", "interanglep", "ngroups", "dd_itermax"}
Reals == {"errmax", "sigmat1", "sigmas1", "sigmat2", "sigmas2", "dd_errmax"}
Bools == {"outputfile", "sourceiteration"}
Options == [mpitype |-> {"TychoTwoSided", "CapsaicinTwoSided"},
            sweeptype |-> {"OriginalTycho1", "OriginalTycho2", "TraverseGraph", "PBJ", "PBJOuter", "PBJSI", "Schur", "SchurOuter", "SchurKrylov"},
            gausselim |-> {"Original", "NoPivot", "CramerGlu", "CramerIntel"}]
Needed == Ints \cup Reals \cup Bools \cup DOMAIN Options \cup {"outputfilename"}
AtLeast(i, n) == ~BLt(i, BInt(n))
InRange(k, i) == CASE k = "snorder" -> i \in {BInt(2 * n) : n \in 1..15}
                   [] k \in {"itermax", "dd_itermax"} -> AtLeast(i, 0)
                   [] k \in {"maxcellsperstep", "ngroups"} -> AtLeast(i, 1)
                   [] k = "intraanglep" -> i \in {BInt(n) : n \in 0..4}
                   [] k = "interanglep" -> i \in {BInt(n) : n \in 0..2}
GoodValue(k, v) == CASE k \in Ints -> IsInt(v) /\ InRange(k, IntOf(v))
                     [] k \in Reals -> IsReal(v)
                     [] k \in Bools -> IsBool(v)
                     [] k \in DOMAIN Options -> Chars(v) \in Options[k]
                     [] k = "outputfilename" -> TRUE
Acceptable == trouble = {} /\ \A k \in Needed : k \in DOMAIN entries /\ GoodValue(k, entries[k])
\* The values read, for a deck that is acceptable.
Value(k) == LET v == entries[k] IN CASE k \in Ints -> IntOf(v) [] k \in Reals -> RealOf(v) [] k \in Bools -> BoolOf(v) [] OTHER -> Chars(v)
Values == [k \in Needed |-> Value(k)]
================================================================================
