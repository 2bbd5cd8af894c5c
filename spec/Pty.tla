-------------------------------- MODULE Pty ---------------------------------
(***************************************************************************)
(* A PTY on a bridge (C24): the queue for output, the dispatcher with its  *)
(* system calls one by one, the event loop, and a kernel with edge         *)
(* triggered events that tells as little as it may: there is an event only *)
(* when something becomes possible that was not, and when a registration   *)
(* is made or renewed.  Bytes are counted; lostin and lostout are those    *)
(* that were taken from one side and never arrived at the other.           *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json

CONSTANTS Cap,      \* of the kernel's buffers
          Depth, Rule,
          Faults    \* how many transfers may be interrupted or partial
VARIABLES st, path
vars == <<st, path>>

(* what the world does, what the application does, one more system call *)
World == <<<<"cw", 1>>, <<"cw", 2>>, <<"cr", 1>>, <<"cr", 2>>, <<"hup">>,
           <<"reopen">>>>
App == <<<<"write", 1>>, <<"write", 3>>, <<"disp">>, <<"call">>>>
Steps == <<<<"sys">>, <<"part">>, <<"intr">>>>
A == World \o App \o Steps
ASSUME PrintT("ALPHABET " \o ToJson(A))
ASSUME PrintT("STARTS [[]]")

(* read takes at most that many, out is never larger than twice Cap *)
Buf == 2
Start == [inq |-> 0, room |-> 0, hup |-> FALSE, ready |-> FALSE,
          out |-> 0, pc |-> "idle", r |-> "ok", w |-> "ok", owed |-> FALSE,
          faults |-> Faults, lost |-> 0]

Pollable(s) == s.inq > 0 \/ s.room > 0 \/ s.hup
Least(a, b) == IF a <= b THEN a ELSE b

(* after pty_read and pty_write *)
Finish(s) ==
    LET again == CASE Rule = "noarm" -> FALSE
                   [] Rule = "readonly" -> s.r = "again"
                   [] OTHER -> s.r = "again" \/ (s.r = "ok" /\ s.w = "again")
    IN [s EXCEPT !.pc = IF again THEN "arm" ELSE "idle"]
ReadDone(s, r) == [s EXCEPT !.r = r, !.pc = "w1", !.w = "ok"]

ReadN(s, n) ==
    LET x == [s EXCEPT !.inq = @ - n]
    IN IF s.pc = "r1" THEN [x EXCEPT !.pc = "r2"]
       ELSE ReadDone(x, IF Rule = "oneread" THEN "ok" ELSE "again")
WriteN(s, n) ==
    LET x == [s EXCEPT !.room = @ - n,
                       !.out = IF Rule = "pullall" THEN 0 ELSE @ - n,
                       !.lost = IF Rule = "pullall" THEN @ + s.out - n ELSE @]
    IN IF s.pc = "w1" THEN [x EXCEPT !.pc = "w2"]
       ELSE Finish([x EXCEPT !.w = IF x.out > 0 /\ Rule # "onewrite"
                                   THEN "again" ELSE "ok"])
(* one more system call; k is the most that it transfers *)
Sys(s, k) ==
    CASE s.pc \in {"r1", "r2"} ->
           IF s.inq = 0 THEN ReadDone(s, IF s.hup THEN "error" ELSE "ok")
           ELSE ReadN(s, Least(k, Least(s.inq, Buf)))
      [] s.pc \in {"w1", "w2"} ->
           IF s.out = 0 THEN Finish([s EXCEPT !.w = "ok"])
           ELSE IF s.hup THEN Finish([s EXCEPT !.w = "error"])
           ELSE IF s.room = 0
           THEN Finish([s EXCEPT !.w = "ok"])
           ELSE WriteN(s, Least(k, Least(s.out, s.room)))
      [] s.pc = "arm" ->
           [s EXCEPT !.pc = "idle",
                     !.ready = IF Rule = "badctl" THEN @ ELSE Pollable(s)]
Intr(s) ==
    LET a == IF Rule = "intrdone" THEN "ok" ELSE "again"
    IN IF s.pc \in {"r1", "r2"} THEN ReadDone(s, a)
       ELSE Finish([s EXCEPT !.w = a])

Enabled(s, o) ==
    CASE o[1] = "cw" -> ~s.hup /\ s.inq + o[2] <= Cap
      [] o[1] = "cr" -> ~s.hup /\ s.room + o[2] <= Cap
      [] o[1] = "hup" -> ~s.hup
      [] o[1] = "reopen" -> s.hup
      [] o[1] = "write" -> s.pc = "idle" /\ s.out + o[2] <= Cap + 1
      [] o[1] = "disp" -> s.pc = "idle" /\ s.ready
      [] o[1] = "call" -> s.pc = "idle" /\ s.owed
      [] o[1] = "sys" -> s.pc # "idle"
      [] o[1] = "part" -> /\ s.faults > 0
                          /\ \/ s.pc \in {"r1", "r2"} /\ s.inq > 1
                             \/ /\ s.pc \in {"w1", "w2"} /\ ~s.hup
                                /\ s.out > 1 /\ s.room > 1
      [] o[1] = "intr" -> /\ s.faults > 0
                          /\ \/ s.pc \in {"r1", "r2"}
                             \/ s.pc \in {"w1", "w2"} /\ s.out > 0
Apply(s, o) ==
    CASE o[1] = "cw" -> [s EXCEPT !.inq = @ + o[2],
                                  !.ready = @ \/ s.inq = 0]
      [] o[1] = "cr" -> [s EXCEPT !.room = @ + o[2],
                                  !.ready = @ \/ s.room = 0]
      [] o[1] = "hup" -> [s EXCEPT !.hup = TRUE, !.ready = TRUE]
      [] o[1] = "reopen" -> [s EXCEPT !.hup = FALSE,
                                      !.ready = @ \/ s.inq > 0 \/ s.room > 0]
      [] o[1] = "write" -> [s EXCEPT !.out = @ + o[2], !.owed = TRUE]
      [] o[1] = "disp" -> IF Pollable(s)
                          THEN [s EXCEPT !.ready = FALSE, !.pc = "r1"]
                          ELSE [s EXCEPT !.ready = FALSE]
      [] o[1] = "call" -> [s EXCEPT !.owed = FALSE, !.pc = "r1"]
      [] o[1] = "sys" -> Sys(s, 2 * Cap)
      [] o[1] = "part" -> [Sys(s, 1) EXCEPT !.faults = @ - 1]
      [] o[1] = "intr" -> [Intr(s) EXCEPT !.faults = @ - 1]

Init == st = Start /\ path = <<1>>
Next == /\ Len(path) <= Depth
        /\ \E k \in 1..Len(A) : /\ Enabled(st, A[k])
                                /\ st' = Apply(st, A[k])
                                /\ path' = Append(path, k)
Spec == Init /\ [][Next]_vars
View == st

(***************************************************************************)
(* What the property says of a state between two operations                *)
(***************************************************************************)
Stalled(inq, out, room, hup, coming) ==
    ~coming /\ (inq > 0 \/ (out > 0 /\ room > 0 /\ ~hup))
NoStall == st.pc = "idle" =>
    ~Stalled(st.inq, st.out, st.room, st.hup, st.ready \/ st.owed)
Ok == NoStall /\ st.lost = 0 /\ st.inq >= 0 /\ st.out >= 0 /\ st.room >= 0
EmitPath == PrintT("PATH " \o ToJson(path))

(***************************************************************************)
(* With an event loop that goes on, everything is transferred in the end:  *)
(* the world and the application do only so much, path counts it           *)
(***************************************************************************)
Loop == \E o \in {<<"disp">>, <<"call">>, <<"sys">>} :
            Enabled(st, o) /\ st' = Apply(st, o) /\ UNCHANGED path
Other == /\ Len(path) <= Depth /\ path' = Append(path, 0)
         /\ \E k \in 1..Len(A) :
              /\ A[k][1] \notin {"disp", "call", "sys"}
              /\ Enabled(st, A[k]) /\ st' = Apply(st, A[k])
Live == Init /\ [][Loop \/ Other]_vars /\ WF_vars(Loop)
Transferred == <>[](/\ st.inq = 0
                    /\ st.out = 0 \/ st.room = 0 \/ st.hup)
LiveView == <<st, Len(path)>>
=============================================================================
