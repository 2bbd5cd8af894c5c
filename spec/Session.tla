------------------------------ MODULE Session -------------------------------
(***************************************************************************)
(* A child on a terminal, and what the application does with it (C31).     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

None == [refs |-> 0, open |-> FALSE, child |-> FALSE, made |-> FALSE,
         w |-> 0, h |-> 0, got |-> {}, may |-> {}]
NoDev == 0 - 19
Hup == 1
Winch == 28
(* those that a terminal can send *)
Sendable == {2, 3, 20}

Stop == 20
(* A child that hangs up goes on (SIGCONT): that takes back a request to stop
   that it did not see yet. *)
Hang(s) == IF s.open /\ s.child
           THEN [s EXCEPT !.open = FALSE, !.w = 0, !.h = 0,
                          !.got = (@ \ {Stop}) \cup {Hup},
                          !.may = @ \cup (s.got \cap {Stop})]
           ELSE [s EXCEPT !.open = FALSE, !.w = 0, !.h = 0]
Act(s, o) ==
    CASE o[1] = "open" -> [None EXCEPT !.refs = 1, !.open = TRUE,
                                       !.child = TRUE, !.made = TRUE,
                                       !.w = o[3], !.h = o[4]]
      [] s.refs = 0 /\ o[1] \notin {"q", "exit"} -> s
      [] o[1] = "resize" ->
           IF ~s.open THEN s
           ELSE [s EXCEPT !.w = o[3], !.h = o[4],
                          !.got = IF <<s.w, s.h>> # <<o[3], o[4]>>
                                  THEN @ \cup {Winch} ELSE @]
      [] o[1] = "sig" ->
           IF s.open /\ o[3] \in Sendable
           THEN [s EXCEPT !.got = @ \cup {o[3]}] ELSE s
      [] o[1] = "close" -> Hang(s)
      [] o[1] = "ref" -> [s EXCEPT !.refs = @ + 1]
      [] o[1] = "unref" -> LET x == [s EXCEPT !.refs = @ - 1]
                           IN IF x.refs = 0 THEN Hang(x) ELSE x
      [] o[1] = "q" -> IF s.child THEN [s EXCEPT !.got = {}, !.may = {}] ELSE s
      [] o[1] = "exit" -> [s EXCEPT !.child = FALSE, !.got = {}, !.may = {}]
      [] OTHER -> s
(* results of the operations *)
Code(s, o) ==
    CASE o[1] \in {"resize", "sig", "idle"} /\ ~s.open -> NoDev
      [] o[1] = "sig" -> IF o[3] \in Sendable THEN 0 ELSE 0 - 22
      [] o[1] = "idle" -> IF s.child THEN 0 ELSE 0 - 5
      [] o[1] = "exit" -> 7
      [] OTHER -> 0
=============================================================================
