----------------------------- MODULE PtyTrace -------------------------------
(***************************************************************************)
(* Recorded histories of PTYs on a bridge (C24): which system calls were   *)
(* made is up to the code.  What it read has to be what it handed over,    *)
(* what it wrote what was queued, and it may never stall (see Pty).        *)
(***************************************************************************)
EXTENDS Fifo, FiniteSets, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES t, i, w, bad
vars == <<t, i, w, bad>>

Count == 4
(* inq, room, hup: the kernel's; reg, ready, et, mi, mo: the event registry;*)
(* tohand: read and not handed over; queue: queued and not written;         *)
(* sent, asked: all bytes so far, modulo Mod                                *)
New == [open |-> FALSE, refs |-> 0, inq |-> 0, room |-> 0, hup |-> FALSE,
        reg |-> FALSE, ready |-> FALSE, et |-> FALSE, mi |-> FALSE,
        mo |-> FALSE, sent |-> 0, asked |-> 0, tohand |-> <<>>,
        queue |-> <<>>, owed |-> FALSE, d |-> {}]
World == [p \in 1..Count |-> New]
Init == t \in 1..Len(Traces) /\ i = 0 /\ w = World /\ bad = FALSE

Bit(n) == n = 1
Readable(s) == s.inq > 0 \/ s.hup
Writable(s) == s.room > 0 \/ s.hup
Pollable(s) == (s.mi /\ Readable(s)) \/ (s.mo /\ Writable(s)) \/ s.hup
Edge(s, in, out) == [s EXCEPT !.ready = @ \/ (s.reg /\ ((in /\ s.mi)
                                                        \/ (out /\ s.mo)))]
Plus(a, b) == (a + b) % Mod
Note(s, x, y) == IF y THEN [s EXCEPT !.d = @ \cup {x}] ELSE s
Fail(s, e, x) == Note(s, "kernel", e # x)

(* one event of PTY s *)
Event(s, e) ==
    CASE e[1] = "open" -> [New EXCEPT !.open = TRUE, !.refs = 1,
                                      !.d = s.d \cup
                                            (IF e[3] = 1 THEN {} ELSE {"open"})]
      [] e[1] = "cw" ->
           LET x == [s EXCEPT !.inq = @ + e[3], !.sent = Plus(@, e[3])]
           IN IF s.inq = 0 THEN Edge(x, TRUE, FALSE) ELSE x
      [] e[1] = "cr" ->
           LET x == [s EXCEPT !.room = @ + e[3]]
           IN IF s.room = 0 THEN Edge(x, FALSE, TRUE) ELSE x
      [] e[1] = "hup" -> [s EXCEPT !.hup = TRUE, !.ready = @ \/ s.reg]
      [] e[1] = "reopen" ->
           Edge([s EXCEPT !.hup = FALSE], s.inq > 0, s.room > 0)
      [] e[1] = "read" ->
           IF e[4] < 0 THEN s
           ELSE [s EXCEPT !.inq = @ - e[4],
                          !.tohand = Norm(Append(@,
                             <<(s.sent - s.inq) % Mod, e[4]>>))]
      [] e[1] = "in" ->
           LET n == Total(e[4])
               x == Note(s, "input", Norm(e[4]) # TakeBytes(s.tohand, n)
                                     \/ n = 0 \/ e[3] # 1)
           IN [x EXCEPT !.tohand = DropBytes(@, n)]
      [] e[1] = "queue" ->
           IF e[4] = 0
           THEN [s EXCEPT !.queue = Norm(Append(@, <<s.asked, e[3]>>)),
                          !.asked = Plus(@, e[3]),
                          !.owed = TRUE]
           ELSE s
      [] e[1] = "write" ->
           IF e[5] < 0 THEN s
           ELSE LET x == Note(s, "output", Norm(e[4]) #
                                           TakeBytes(s.queue, e[5]))
                IN [x EXCEPT !.queue = DropBytes(@, e[5]), !.room = @ - e[5]]
      [] e[1] = "ctl" ->
           IF e[7] < 0 THEN s
           ELSE IF e[3] = "del" THEN [s EXCEPT !.reg = FALSE, !.ready = FALSE]
           ELSE LET x == [s EXCEPT !.reg = TRUE, !.mi = Bit(e[4]),
                                   !.mo = Bit(e[5]), !.et = Bit(e[6])]
                IN [x EXCEPT !.ready = Pollable(x)]
      [] e[1] = "close" -> [s EXCEPT !.open = FALSE, !.reg = FALSE,
                                     !.ready = FALSE]
      [] e[1] = "leakfd" -> Note(s, "leak", TRUE)
      [] OTHER -> Note(s, "events", TRUE)
Waited(s, p, e) ==
    IF p \in {e[2][k] + 1 : k \in 1..Len(e[2])}
    THEN [s EXCEPT !.ready = ~s.et /\ Pollable(s)]
    ELSE IF s.ready /\ ~Pollable(s) THEN [s EXCEPT !.ready = FALSE] ELSE s
Apply(x, e) ==
    IF e[1] = "wait" THEN [p \in 1..Count |-> Waited(x[p], p, e)]
    ELSE IF e[1] \in {"badctl", "badwait"}
    THEN [p \in 1..Count |-> Note(x[p], "bridge", TRUE)]
    ELSE [x EXCEPT ![e[2] + 1] = Event(@, e)]

Before(x, e) ==
    LET p == e.o[2] + 1
    IN CASE e.o[1] \in {"call", "direct"} -> [x EXCEPT ![p].owed = FALSE]
         [] e.o[1] = "disp" ->
              (* the one that gets its turn *)
              LET g == {k \in 1..Len(e.v) : e.v[k][1] = "wait"
                                            /\ Len(e.v[k][2]) > 0}
              IN IF g = {} THEN x
                 ELSE LET q == e.v[CHOOSE k \in g : TRUE][2][1] + 1
                      IN [x EXCEPT ![q].owed = FALSE]
         [] e.o[1] = "ref" -> [x EXCEPT ![p].refs = IF @ > 0 THEN @ + 1 ELSE @]
         [] e.o[1] = "unref" -> [x EXCEPT ![p].refs = IF @ > 0 THEN @ - 1
                                                      ELSE @]
         [] OTHER -> x
After(x, e) ==
    LET p == e.o[2] + 1
    IN IF e.o[1] = "direct" /\ e.e = "again" THEN [x EXCEPT ![p].owed = TRUE]
       ELSE x
Run(x, e) == After(FoldLeft(Apply, Before(x, e), e.v), e)

Coming(s) == s.owed \/ s.ready \/ (~s.et /\ Pollable(s))
Stalled(s) == /\ s.open /\ s.reg /\ ~Coming(s)
              /\ \/ s.inq > 0
                 \/ Total(s.queue) > 0 /\ s.room > 0 /\ ~s.hup
Syserr(e, k) == \E j \in 1..Len(e.v) : e.v[j][1] \in k
                                       /\ e.v[j][Len(e.v[j])] \notin
                                          {"", "again", "intr"}
(* results of the calls *)
Result(x, y, e) ==
    LET s == x[e.o[2] + 1]
        ok == e.r = 0
        lost == e.r < 0 /\ e.f > 0
        gone == e.e = "nodev"
        op == e.o[1]
    IN CASE op = "open" -> ok \/ lost
         [] op \in {"bridge", "disp", "call"} -> ok
         [] s.refs = 0 -> TRUE
         [] op \in {"write", "direct", "add"} /\ ~s.open -> gone
         [] op = "write" -> ok \/ lost
         [] op = "direct" ->
              ok \/ (e.e = "again") \/ Syserr(e, {"read", "write"})
         [] op = "add" -> ok \/ Syserr(e, {"ctl"})
         [] OTHER -> TRUE
(* a transfer of nothing, or an operation that does something else *)
Silent == {"at", "fail", "echo"}
Diffs(x, y, e) ==
    UNION {y[p].d : p \in 1..Count}
    \cup (IF ~Result(x, y, e) THEN {"result"} ELSE {})
    \cup (IF \E p \in 1..Count : y[p].tohand # <<>> THEN {"withheld"} ELSE {})
    \cup (IF \E p \in 1..Count : Stalled(y[p]) THEN {"stall"} ELSE {})
    \cup (IF e.c > 1000 THEN {"endless"} ELSE {})
    (* after registering there are events for what is possible *)
    \cup (IF e.o[1] = "add" /\ e.r = 0 /\ x[e.o[2] + 1].open
             /\ ~y[e.o[2] + 1].reg THEN {"registration"} ELSE {})
    \cup (IF e.o[1] = "remove" /\ y[e.o[2] + 1].reg THEN {"registration"}
          ELSE {})
    \cup (IF e.o[1] = "close" /\ y[e.o[2] + 1].open THEN {"close"} ELSE {})
    \cup (IF \E p \in 1..Count : y[p].refs = 0 /\ y[p].open
          THEN {"lifetime"} ELSE {})
    \cup (IF \E p \in 1..Count : LET s == y[p] k == e.s[p] IN
             s.refs > 0 /\ (k[5] # (IF s.open THEN 1 ELSE 0) \/ k[6] # 1)
          THEN {"state"} ELSE {})
    \cup (IF \E p \in 1..Count : LET s == y[p] k == e.s[p] IN
             s.open /\ <<k[1], k[2], Bit(k[3])>> # <<s.inq, s.room, s.reg>>
          THEN {"kernel"} ELSE {})
End(y) == (IF Traces[t].left # 0 THEN {"leak"} ELSE {})
          \cup (IF Traces[t].fds # Traces[t].fds0 THEN {"fdleak"} ELSE {})
          \cup (IF \E k \in 1..Len(Traces[t].end) :
                      Traces[t].end[k][1] = "leakfd" THEN {"leak"} ELSE {})
Next ==
    /\ ~bad /\ i < Len(Traces[t].steps) /\ t' = t /\ i' = i + 1
    /\ LET e == Traces[t].steps[i + 1]
           silent == e.o[1] \in Silent
           x == IF silent THEN w ELSE TLCEval(Run(w, e))
           d == (IF silent THEN {} ELSE Diffs(w, x, e))
                \cup (IF i + 1 = Len(Traces[t].steps) THEN End(x) ELSE {})
       IN /\ w' = x /\ bad' = (d # {})
          /\ d # {} => PrintT("MISMATCH " \o ToJson(
                [id |-> Traces[t].id, step |-> i, op |-> e.o, diffs |-> d,
                 detail |-> [spec |-> x, real |-> e]]))
Spec == Init /\ [][Next]_vars
=============================================================================
