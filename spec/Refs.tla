-------------------------------- MODULE Refs --------------------------------
(***************************************************************************)
(* References (C25): objects with counters, as they are implemented, and   *)
(* what the counters are for: an object lives as long as the application   *)
(* has a reference or a living terminal is on it, and no longer.  Creating *)
(* a terminal can fail; then nothing has happened.                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxRefs, Depth, Rule
VARIABLES st, path
vars == <<st, path>>

Screens == {0, 1}
Vtes == {4, 5}
Others == {8, 10}       \* a symbol table and a PTY
Objects == Screens \cup Vtes \cup Others

A == <<<<"snew", 0>>, <<"snew", 1>>, <<"tnew", 8>>, <<"pnew", 10>>>>
     \o <<<<"vnew", 4, 0>>, <<"vnew", 4, 1>>, <<"vnew", 5, 0>>,
          <<"vnew", 5, 4>>>>
     \o <<<<"failnew", 4, 0>>, <<"failnew", 5, 4>>>>
     \o <<<<"ref", 0>>, <<"ref", 1>>, <<"ref", 4>>, <<"ref", 5>>,
          <<"ref", 8>>, <<"ref", 10>>>>
     \o <<<<"unref", 0>>, <<"unref", 1>>, <<"unref", 4>>, <<"unref", 5>>,
          <<"unref", 8>>, <<"unref", 10>>>>
     \o <<<<"close", 10>>>>
ASSUME PrintT("ALPHABET " \o ToJson(A))
ASSUME PrintT("STARTS [[]]")

(* rc: the counter, 0 once the object is freed; app: what the application   *)
(* holds; on: the screen of a terminal                                      *)
Start == [rc |-> [o \in Objects |-> 0], app |-> [o \in Objects |-> 0],
          on |-> [v \in Vtes |-> -1]]

Drop(rc, o) == [rc EXCEPT ![o] = @ - 1]
ScreenOf(s, x) == IF x \in Vtes THEN s.on[x] ELSE x
Enabled(s, o) ==
    CASE o[1] \in {"snew", "tnew", "pnew"} -> s.rc[o[2]] = 0
      [] o[1] \in {"vnew", "failnew"} -> s.rc[o[2]] = 0 /\ s.rc[o[3]] > 0
      [] o[1] = "ref" -> s.app[o[2]] \in 1..(MaxRefs - 1)
      [] o[1] \in {"unref", "close"} -> s.app[o[2]] > 0
Apply(s, o) ==
    LET x == o[2]
    IN CASE o[1] \in {"snew", "tnew", "pnew"} ->
              [s EXCEPT !.rc[x] = 1, !.app[x] = 1]
         [] o[1] = "vnew" ->
              LET r == ScreenOf(s, o[3])
              IN [s EXCEPT !.rc = [@ EXCEPT ![x] = 1,
                                            ![r] = IF Rule = "noref" THEN @
                                                   ELSE @ + 1],
                           !.app[x] = 1, !.on[x] = r]
         [] o[1] = "failnew" ->
              LET r == ScreenOf(s, o[3])
              IN IF Rule = "failref" THEN [s EXCEPT !.rc[r] = @ + 1] ELSE s
         [] o[1] = "ref" -> [s EXCEPT !.rc[x] = @ + 1, !.app[x] = @ + 1]
         [] o[1] = "close" -> s     \* closed, but there
         [] o[1] = "unref" ->
              LET t == [s EXCEPT !.rc[x] = @ - 1, !.app[x] = @ - 1]
              IN IF t.rc[x] > 0 \/ x \notin Vtes THEN t
                 ELSE IF Rule = "nodrop" THEN [t EXCEPT !.on[x] = -1]
                 ELSE [t EXCEPT !.rc[s.on[x]] = @ - 1, !.on[x] = -1]

Init == st = Start /\ path = <<1>>
Next == /\ Len(path) <= Depth
        /\ \E k \in 1..Len(A) : /\ Enabled(st, A[k])
                                /\ st' = Apply(st, A[k])
                                /\ path' = Append(path, k)
Spec == Init /\ [][Next]_vars
View == st

Needed(s, x) == \/ s.app[x] > 0
                \/ \E v \in Vtes : s.app[v] > 0 /\ s.on[v] = x
Ok == \A x \in Objects : (st.rc[x] > 0) = Needed(st, x)
EmitPath == PrintT("PATH " \o ToJson(path))
=============================================================================
