------------------------------ MODULE AgeTrace ------------------------------
(***************************************************************************)
(* Recorded drawings: what the renderer of Age.tla, with one buffer and    *)
(* with two, would show is compared with the full picture of each drawing. *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils, FiniteSets

CONSTANTS Lines, Columns, Values, MaxAge, Buffers, Rule
VARIABLES cells, cage, lage, sage, cnt, reset, bufs, last
A == INSTANCE Age

Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)

VARIABLES t, i, one, two, bad
tvars == <<t, i, one, two, bad>>

(* the cells of all rows, one after the other *)
Picture(e) == [p \in 1..(e.c[3] * e.c[4]) |->
                 e.k[(p - 1) \div e.c[3] + 1][2][((p - 1) % e.c[3]) + 1]]
AgesOf(e) == [p \in 1..(e.c[3] * e.c[4]) |->
                e.g[(p - 1) \div e.c[3] + 1][((p - 1) % e.c[3]) + 1]]

Init == /\ t \in 1..Len(Traces) /\ i = 0 /\ bad = FALSE
        /\ one = <<>> /\ two = <<>>
        /\ cells = 0 /\ cage = 0 /\ lage = 0 /\ sage = 0 /\ cnt = 0
        /\ reset = 0 /\ bufs = 0 /\ last = 0

(* new buffers for another size *)
Fit(bs, n, size, pic) ==
    IF bs = <<>> \/ bs.size # size
    THEN [size |-> size, k |-> 1, b |-> [j \in 1..n |-> A!Blank(pic, 0)]]
    ELSE bs
Show(bs, pic, e) ==
    [bs EXCEPT !.b = A!Drawn(bs.b, bs.k, pic, AgesOf(e), e.a)]
Flip(bs) == [bs EXCEPT !.k = (bs.k % Len(bs.b)) + 1]

Next ==
    /\ ~bad /\ i < Len(Traces[t].steps)
    /\ t' = t /\ i' = i + 1
    /\ LET e == Traces[t].steps[i + 1]
           pic == TLCEval(Picture(e))
           size == <<e.c[3], e.c[4]>>
           x1 == TLCEval(Show(Fit(one, 1, size, pic), pic, e))
           x2 == TLCEval(Show(Fit(two, 2, size, pic), pic, e))
           d == (IF x1.b[x1.k].pix # pic THEN {"stale"} ELSE {})
                \cup (IF x2.b[x2.k].pix # pic THEN {"stale2"} ELSE {})
           Where(x) == {p \in DOMAIN pic : x.b[x.k].pix[p] # pic[p]}
       IN IF "a" \notin DOMAIN e THEN UNCHANGED <<one, two, bad>>
          ELSE /\ one' = x1 /\ two' = Flip(x2)
               /\ bad' = (d # {})
               /\ d # {} => PrintT("MISMATCH " \o ToJson(
                     [id |-> Traces[t].id, step |-> i, op |-> e.o, diffs |-> d,
                      detail |-> [cells1 |-> Where(x1), cells2 |-> Where(x2),
                                  width |-> e.c[3]]]))
    /\ UNCHANGED <<cells, cage, lage, sage, cnt, reset, bufs, last>>
Spec == Init /\ [][Next]_<<tvars, cells, cage, lage, sage, cnt, reset, bufs,
                           last>>
=============================================================================
