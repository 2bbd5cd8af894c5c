------------------------------- MODULE Child --------------------------------
(***************************************************************************)
(* How shl_pty_open() makes a child (C31): parent and child run in         *)
(* parallel, any system call can fail (or, on the pipe between them, be    *)
(* interrupted), and the parent learns through the pipe how it went.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json

CONSTANTS Rule

VARIABLES p, c, fault
vars == <<p, c, fault>>

Before == <<"sigprocmask", "grantpt", "unlockpt", "ptsname", "open", "setsid",
            "ctty", "close", "tcgetattr", "tcsetattr", "winsize", "dup0",
            "dup1", "dup2", "closeslave">>
Steps == IF Rule = "early" THEN <<"send">> \o Before \o <<"end">>
         ELSE Before \o <<"send", "end">>
SetUp == ToSet(Before)
CanFail == {"posix_openpt", "pipe2", "fork"}
           \cup (SetUp \ {"close", "closeslave"})
Interrupted == {"recv", "send"}
ASSUME PrintT("FAULTS " \o ToJson(SetToSeq(CanFail)))

Fails(k) == fault = <<"fail", k>>
(* p.at: what the parent does next; p.r: 1 opened, -1 error
   c.at: index into Steps, 0: there is no child, or one of these *)
User == 100
Dead == 101
Init == /\ p = [at |-> "posix_openpt", r |-> 0, fd |-> {}, intr |-> 0]
        /\ c = [at |-> 0, fd |-> {}, std |-> {}, did |-> {}, sent |-> 0,
                intr |-> 0, on |-> "no"]
        /\ fault \in {<<"none", "">>} \cup ({"fail"} \X CanFail)
                     \cup ({"intr"} \X Interrupted)

Error == [p EXCEPT !.r = -1, !.at = "done",
                   !.fd = IF Rule = "leak" THEN @ ELSE {}]
Parent ==
    /\ p.at # "done" /\ fault' = fault
    /\ CASE p.at = "posix_openpt" ->
              /\ p' = IF Fails(p.at) THEN Error
                      ELSE [p EXCEPT !.at = "pipe2", !.fd = {"m"}]
              /\ c' = c
         [] p.at = "pipe2" ->
              /\ p' = IF Fails(p.at) THEN Error
                      ELSE [p EXCEPT !.at = "fork", !.fd = {"m", "in", "out"}]
              /\ c' = c
         [] p.at = "fork" ->
              IF Fails(p.at) THEN p' = Error /\ c' = c
              ELSE /\ p' = [p EXCEPT !.at = "close"]
                   /\ c' = [c EXCEPT !.at = 1, !.on = "yes", !.fd = p.fd,
                                     !.std = {0, 1, 2}]
         [] p.at = "close" ->
              /\ p' = [p EXCEPT !.at = "recv",
                                !.fd = IF Rule = "keep" THEN @ ELSE @ \ {"out"}]
              /\ c' = c
         [] p.at = "recv" ->
              IF fault = <<"intr", "recv">> /\ p.intr = 0
              THEN /\ p' = IF Rule = "intr" THEN Error ELSE [p EXCEPT !.intr = 1]
                   /\ c' = c
              ELSE \/ /\ c.sent = 1
                      /\ p' = [p EXCEPT !.at = "done", !.r = 1, !.fd = {"m"}]
                      /\ c' = c
                   (* nobody is left who could write *)
                   \/ /\ c.sent = 0 /\ "out" \notin p.fd \cup c.fd
                      /\ p' = Error /\ c' = c

Dies == [c EXCEPT !.at = Dead, !.fd = {}, !.std = {}]
ChildStep ==
    /\ c.at \notin {0, Dead, User} /\ p' = p /\ fault' = fault
    /\ LET k == Steps[c.at]
           next == [c EXCEPT !.at = @ + 1, !.did = @ \cup {k}]
       IN c' =
          CASE Fails(k) /\ k # "send" ->
                 IF Rule = "return" THEN [c EXCEPT !.at = User] ELSE Dies
            [] k = "open" -> [next EXCEPT !.fd = @ \cup {"s"}]
            [] k = "close" -> [next EXCEPT !.fd = @ \ {"in", "m"}]
            [] k \in {"dup0", "dup1", "dup2"} ->
                 [next EXCEPT !.std = @ \ {CASE k = "dup0" -> 0
                                             [] k = "dup1" -> 1
                                             [] OTHER -> 2}]
            [] k = "closeslave" -> [next EXCEPT !.fd = @ \ {"s"}]
            [] k = "send" ->
                 IF fault = <<"intr", "send">> /\ c.intr = 0
                 THEN [c EXCEPT !.intr = 1]
                 ELSE [next EXCEPT !.sent = 1]
            [] k = "end" -> [next EXCEPT !.at = User, !.fd = @ \ {"out"}]
            [] OTHER -> next
Next == Parent \/ ChildStep
Spec == Init /\ [][Next]_vars
Live == Spec /\ WF_vars(Parent) /\ WF_vars(ChildStep)

(* c.std: the descriptors that are not on the terminal yet *)
Ready == SetUp \subseteq c.did /\ c.std = {}
Ok == /\ p.r = 1 => p.fd = {"m"} /\ Ready
      /\ p.r = -1 => p.fd = {}
      (* the child never runs on half a terminal, nor if opening failed *)
      /\ c.at = User => Ready /\ c.fd = {} /\ p.r # -1
      /\ p.r = -1 => c.at \in {0, Dead}
Returns == <>(p.r # 0)
Truth == [](p.at = "done" => (p.r = 1) = (fault[1] # "fail"))
=============================================================================
