------------------------------ MODULE Symbols -------------------------------
(***************************************************************************)
(* The symbol table (C21): a symbol is a character or, negative, the       *)
(* number of a sequence of characters.  known: the sequences by number, in *)
(* the order in which they got numbers.                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json

MaxLen == 10
IsChar(c) == c >= 0
SeqOf(known, s) == IF s >= 0 THEN <<s>>
                   ELSE IF s \in DOMAIN known THEN known[s] ELSE <<0>>
(* the sequence that is meant by appending c to s; <<>> if there is none *)
Extended(known, s, c) ==
    LET q == SeqOf(known, s)
    IN IF ~IsChar(c) \/ Len(q) >= MaxLen THEN <<>> ELSE Append(q, c)
IdsOf(known, q) == {i \in DOMAIN known : known[i] = q}
(* may r be the result, if f says whether an allocation failed? *)
Result(known, s, c, r, f) ==
    LET q == Extended(known, s, c)
    IN \/ q = <<>> /\ r = s
       \/ q # <<>> /\ IdsOf(known, q) # {} /\ r \in IdsOf(known, q)
       \/ q # <<>> /\ IdsOf(known, q) = {} /\ r < 0 /\ r \notin DOMAIN known
       \/ q # <<>> /\ IdsOf(known, q) = {} /\ f /\ r = s
(* what is known then *)
(* (the number that was asked about can be the one that is given out next) *)
Learnt(known, s, c, r, f) ==
    LET q == Extended(known, s, c)
    IN IF q = <<>> \/ (r = s /\ (f \/ s >= 0 \/ s \in DOMAIN known))
          \/ IdsOf(known, q) # {} THEN known
       ELSE known @@ (r :> q)

(* equal sequences have equal symbols and different ones different symbols *)
Interned(known) == \A i, j \in DOMAIN known : known[i] = known[j] => i = j
=============================================================================
