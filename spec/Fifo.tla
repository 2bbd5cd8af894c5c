-------------------------------- MODULE Fifo --------------------------------
(***************************************************************************)
(* A FIFO of bytes (C23).  Long contents are written as runs <<v, n>>: n   *)
(* consecutive bytes v, v + 1, ... modulo 251.                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt

Mod == 251
Touches(a, b) == b[1] = (a[1] + a[2]) % Mod
(* canonical form: adjacent runs are joined, there are no empty ones *)
Norm(rs) == FoldLeft(LAMBDA acc, r :
    LET n == Len(acc)
    IN IF r[2] = 0 THEN acc
       ELSE IF n > 0 /\ Touches(acc[n], r)
       THEN [acc EXCEPT ![n] = <<@[1], @[2] + r[2]>>]
       ELSE Append(acc, r), <<>>, rs)
Total(rs) == FoldLeft(LAMBDA acc, r : acc + r[2], 0, rs)
(* all but the first n bytes, and only the first n bytes *)
RECURSIVE DropBytes(_, _), TakeBytes(_, _)
DropBytes(rs, n) ==
    IF rs = <<>> \/ n = 0 THEN rs
    ELSE LET r == Head(rs)
         IN IF r[2] <= n THEN DropBytes(Tail(rs), n - r[2])
            ELSE <<<<(r[1] + n) % Mod, r[2] - n>>>> \o Tail(rs)
TakeBytes(rs, n) ==
    IF rs = <<>> \/ n = 0 THEN <<>>
    ELSE LET r == Head(rs)
         IN IF r[2] <= n THEN <<r>> \o TakeBytes(Tail(rs), n - r[2])
            ELSE <<<<r[1], n>>>>
=============================================================================
