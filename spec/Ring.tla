-------------------------------- MODULE Ring --------------------------------
(***************************************************************************)
(* The ring buffer (C23): a buffer with a power of two as its size, that   *)
(* grows when needed.  The law says that every step is one of a FIFO.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, TLC, Json

CONSTANTS MinSize, MaxSize, Limit, Depth, Rule

VARIABLES st, path
vars == <<st, path>>

A == [k \in 1..(MaxSize + 1) |-> <<"push", k - 1>>]
     \o [k \in 1..(MaxSize + 1) |-> <<"pull", k - 1>>]
     \o <<<<"failpush", 1>>, <<"failpush", MaxSize>>, <<"flush">>, <<"clear">>>>
ASSUME PrintT("ALPHABET " \o ToJson(A))
ASSUME PrintT("STARTS [[]]")

Empty == [buf |-> <<>>, size |-> 0, start |-> 0, used |-> 0]
Mask(s, v) == IF s.size = 0 THEN v ELSE v % s.size
At(s, i) == s.buf[Mask(s, s.start + i) + 1]
Content(s) == [i \in 1..s.used |-> At(s, i - 1)]

RECURSIVE Power2(_, _)
Power2(n, p) == IF p >= n THEN p ELSE Power2(n, 2 * p)
Needed(s, n) == Power2(IF s.used + n < MinSize THEN MinSize ELSE s.used + n, 1)
Fits(s, n) == s.size - s.used >= n
Grow(s, n) ==
    IF Fits(s, n) THEN s
    ELSE LET m == Needed(s, n)
             c == Content(s)
         IN [s EXCEPT !.size = m,
                      !.start = IF Rule = "keepstart" THEN @ ELSE 0,
                      !.buf = [i \in 1..m |-> IF i <= s.used THEN c[i]
                                              ELSE -1]]
(* the pushed bytes are told apart by their values *)
Bytes(n) == [i \in 1..n |-> 100 + i]
Put(s, b) ==
    [s EXCEPT !.used = @ + Len(b),
              !.buf = [i \in 1..s.size |->
                 LET d == ((i - 1 - s.start - s.used) + (2 * s.size)) % s.size
                 IN IF d < Len(b)
                       /\ (Rule # "nowrap" \/ i > s.start) THEN b[d + 1]
                    ELSE s.buf[i]]]
Least(a, b) == IF a <= b THEN a ELSE b

(* the bytes that were there before get other values, so that the number of *)
(* states stays small                                                       *)
Apply(s, o) ==
    CASE o[1] = "push" -> IF o[2] = 0 THEN s
                          ELSE Put(Grow(s, o[2]), Bytes(o[2]))
      [] o[1] = "failpush" -> IF Fits(s, o[2]) THEN Put(s, Bytes(o[2])) ELSE s
      [] o[1] = "pull" -> LET n == Least(o[2], s.used)
                          IN [s EXCEPT !.start = Mask(s, @ + n),
                                       !.used = @ - n]
      [] o[1] = "flush" -> [s EXCEPT !.start = 0, !.used = 0]
      [] o[1] = "clear" -> Empty
Rename(s) == [s EXCEPT !.buf = [i \in 1..s.size |->
                LET d == ((i - 1 - s.start) + s.size) % s.size
                IN IF d < s.used THEN d ELSE -1]]

Init == st = Empty /\ path = <<1>>
Next == /\ Len(path) <= Depth
        /\ \E k \in 1..Len(A) :
             /\ A[k][1] = "push" => st.used + A[k][2] <= Limit
             /\ st' = Rename(Apply(st, A[k]))
             /\ path' = Append(path, k)
Spec == Init /\ [][Next]_vars
View == st

Op == A[path'[Len(path')]]
Abstract(c, o) ==
    CASE o[1] = "push" -> c \o Bytes(o[2])
      [] o[1] = "failpush" -> IF Fits(st, o[2]) THEN c \o Bytes(o[2]) ELSE c
      [] o[1] = "pull" -> SubSeq(c, o[2] + 1, Len(c))
      [] OTHER -> <<>>
Law == LET r == Apply(st, Op) IN Content(r) = Abstract(Content(st), Op)
Laws == [][Law]_vars
Ok == /\ st.used <= st.size /\ (st.size > 0 => st.start < st.size)
      /\ Len(st.buf) = st.size
EmitPath == PrintT("PATH " \o ToJson(path))
=============================================================================
