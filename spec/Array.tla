------------------------------- MODULE Array --------------------------------
(***************************************************************************)
(* The dynamic array (C30): a buffer of capacity Len(st.buf), of which the *)
(* first st.len elements are in use.  The law says that every step is one  *)
(* of a sequence; what is behind its end does not matter.                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, TLC, Json

CONSTANTS MaxLen, Depth, Rule

VARIABLES st, path
vars == <<st, path>>

(* -1: memory that was never written *)
Junk == -1
A == <<<<"push">>, <<"failpush">>, <<"pop">>>>
     \o [k \in 1..(MaxLen + 1) |-> <<"resize", k - 1>>]
     \o [k \in 1..MaxLen |-> <<"failresize", k>>]
Caps == <<1, 2, 3, 4>>
Starts == [i \in 1..4 |-> <<<<"anew", Caps[i]>>>>]
ASSUME PrintT("ALPHABET " \o ToJson(A))
ASSUME PrintT("STARTS " \o ToJson(Starts))

RECURSIVE Power2(_, _)
Power2(n, p) == IF p >= n THEN p ELSE Power2(n, 2 * p)
Grown(b, n) == [i \in 1..n |-> IF i <= Len(b) THEN b[i] ELSE Junk]
Content(s) == SubSeq(s.buf, 1, s.len)
(* values tell the positions apart *)
Val(s) == s.len + 1

Apply(s, o) ==
    LET full == s.len >= Len(s.buf)
        put(b) == [s EXCEPT !.buf = [b EXCEPT ![s.len + 1] = Val(s)],
                            !.len = @ + 1]
    IN CASE o[1] = "push" \/ (o[1] = "failpush" /\ ~full) ->
              put(IF full /\ Rule = "lost"
                  THEN [i \in 1..(2 * Len(s.buf)) |-> Junk]
                  ELSE IF full THEN Grown(s.buf, 2 * Len(s.buf)) ELSE s.buf)
         [] o[1] = "failpush" -> s
         [] o[1] = "pop" -> IF s.len = 0 THEN s ELSE [s EXCEPT !.len = @ - 1]
         [] o[1] = "failresize" /\ o[2] > Len(s.buf) ->
              IF Rule = "early" THEN [s EXCEPT !.len = Len(s.buf)] ELSE s
         [] OTHER ->
              LET grow == o[2] > Len(s.buf)
                  b == IF grow THEN Grown(s.buf, Power2(o[2], 1)) ELSE s.buf
              IN [len |-> o[2],
                  buf |-> [i \in 1..Len(b) |->
                             IF i > s.len /\ i <= o[2]
                                /\ (Rule # "growzero" \/ grow)
                             THEN 0 ELSE b[i]]]

Init == /\ \E i \in 1..Len(Caps) :
              /\ st = [len |-> 0, buf |-> [j \in 1..Caps[i] |-> Junk]]
              /\ path = <<i>>
Next == /\ Len(path) <= Depth
        /\ \E k \in 1..Len(A) :
              /\ A[k][1] = "push" => st.len < MaxLen
              /\ st' = Apply(st, A[k])
              /\ path' = Append(path, k)
Spec == Init /\ [][Next]_vars
View == st

(* what the operations mean for a sequence; a failure changes nothing *)
Op == A[path'[Len(path')]]
Resized(c, n) == [i \in 1..n |-> IF i <= Len(c) THEN c[i] ELSE 0]
Laws == [][LET c == Content(st)
               d == Content(st')
           IN CASE Op[1] = "push" -> d = Append(c, Val(st))
                [] Op[1] = "failpush" -> d \in {c, Append(c, Val(st))}
                [] Op[1] = "pop" -> d = IF c = <<>> THEN c ELSE Front(c)
                [] Op[1] = "resize" -> d = Resized(c, Op[2])
                [] Op[1] = "failresize" -> d \in {c, Resized(c, Op[2])}]_vars
Ok == /\ st.len <= Len(st.buf)
      /\ \A i \in 1..st.len : st.buf[i] # Junk
EmitPath == PrintT("PATH " \o ToJson(path))
=============================================================================
