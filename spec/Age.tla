-------------------------------- MODULE Age ---------------------------------
(***************************************************************************)
(* Ageing (C13).  A renderer keeps one or two buffers with the age of the  *)
(* last drawing into each; it skips the cells that say they did not change *)
(* since then.  This module defines that renderer, for the model of the    *)
(* ageing protocol below and for AgeTrace, which lets the same renderer    *)
(* look at recorded drawings of the real screen.                           *)
(***************************************************************************)
EXTENDS Integers, Sequences

Skip(age, fbage) == age # 0 /\ age <= fbage

(* a buffer is [pix, age]; pictures and ages are functions on the same set *)
Blank(pic, nothing) == [pix |-> [p \in DOMAIN pic |-> nothing], age |-> 0]
Paint(b, pic, ages) ==
    [p \in DOMAIN pic |-> IF Skip(ages[p], b.age) THEN b.pix[p] ELSE pic[p]]

(* bufs: the buffers, k: the one that is drawn into; an age of zero means  *)
(* that all ages are void                                                  *)
Drawn(bufs, k, pic, ages, ret) ==
    [i \in DOMAIN bufs |->
       [pix |-> IF i = k THEN Paint(bufs[i], pic, ages) ELSE bufs[i].pix,
        age |-> IF ret = 0 THEN 0
                ELSE IF i = k THEN ret ELSE bufs[i].age]]

-----------------------------------------------------------------------------
(***************************************************************************)
(* The protocol: a counter that wraps, ages of cells, lines and the screen *)
(***************************************************************************)
CONSTANTS Lines, Columns, Values, MaxAge, Buffers,
          Rule      (* "good", or a rule to be broken *)

VARIABLES cells,    \* line -> column -> value
          cage,     \* line -> column -> age
          lage,     \* line -> age
          sage, cnt, reset, bufs, last
vars == <<cells, cage, lage, sage, cnt, reset, bufs, last>>

Max(a, b) == IF a >= b THEN a ELSE b
Pos == Lines \X Columns
Picture == [p \in Pos |-> cells[p[1]][p[2]]]
Reported == [p \in Pos |->
    IF reset /\ Rule # "noreset" THEN 0
    ELSE Max(cage[p[1]][p[2]], Max(lage[p[1]], sage))]

Init ==
    /\ cells = [l \in Lines |-> [c \in Columns |-> 0]]
    /\ cage = [l \in Lines |-> [c \in Columns |-> 1]]
    /\ lage = [l \in Lines |-> 1]
    /\ sage = 1 /\ cnt = 1 /\ reset = FALSE /\ last = 0
    /\ bufs = [i \in 1..Buffers |-> [pix |-> [p \in Pos |-> -1], age |-> 0]]

(* every operation that changes something starts with this *)
Wrap == cnt = MaxAge
NextCnt == IF Rule = "noinc" THEN cnt ELSE IF Wrap THEN 1 ELSE cnt + 1
Count == /\ cnt' = NextCnt
         /\ reset' = (reset \/ (Wrap /\ Rule # "noinc"))
         /\ last' = 0 /\ UNCHANGED bufs

Nothing == Count /\ UNCHANGED <<cells, cage, lage, sage>>
SetCell(l, c, v) ==
    /\ Count
    /\ cells' = [cells EXCEPT ![l][c] = v]
    /\ cage' = [cage EXCEPT ![l][c] = NextCnt]
    /\ UNCHANGED <<lage, sage>>
(* cells move within a line, with their ages *)
ShiftLine(l) ==
    LET Sh(f, new) == [c \in Columns |-> IF c = 1 THEN new ELSE f[c - 1]]
    IN /\ Count
       /\ cells' = [cells EXCEPT ![l] = Sh(@, 0)]
       /\ cage' = [cage EXCEPT ![l] = Sh(@, NextCnt)]
       /\ lage' = IF Rule = "noline" THEN lage
                  ELSE [lage EXCEPT ![l] = NextCnt]
       /\ UNCHANGED sage
(* lines move, with their ages *)
Exchange(l, m) ==
    /\ l # m /\ Count
    /\ cells' = [cells EXCEPT ![l] = cells[m], ![m] = cells[l]]
    /\ cage' = [cage EXCEPT ![l] = cage[m], ![m] = cage[l]]
    /\ lage' = [lage EXCEPT ![l] = lage[m], ![m] = lage[l]]
    /\ sage' = IF Rule = "noscreen" THEN sage ELSE NextCnt
Draw(k) ==
    LET ret == IF reset /\ Rule # "noreset" THEN 0 ELSE cnt
    IN /\ bufs' = Drawn(bufs, k, Picture, Reported, ret)
       /\ reset' = FALSE /\ last' = k
       /\ UNCHANGED <<cells, cage, lage, sage, cnt>>

Next == \/ Nothing
        \/ \E l \in Lines, c \in Columns, v \in Values : SetCell(l, c, v)
        \/ \E l \in Lines : ShiftLine(l)
        \/ \E l, m \in Lines : Exchange(l, m)
        \/ \E k \in 1..Buffers : Draw(k)
Spec == Init /\ [][Next]_vars

NeverStale == last # 0 => bufs[last].pix = Picture
=============================================================================
