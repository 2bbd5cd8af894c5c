------------------------------- MODULE Chunks -------------------------------
(***************************************************************************)
(* C01 on recorded traces: the traces of a group feed the same bytes to    *)
(* the terminal, in pieces of different sizes.  Whatever the bytes do, all *)
(* traces of a group have to end with the same observable state, and with  *)
(* the same output and callbacks in the same order.  This does not use the *)
(* specification of the terminal.                                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils, SequencesExt, FiniteSets

(* one line per group: a sequence of traces *)
Groups == ndJsonDeserialize(IOEnv.TRACE_FILE)

VARIABLES g, done
vars == <<g, done>>

Join(x, y) ==
    LET n == Len(x)
    IN IF x = <<>> THEN y ELSE IF y = <<>> THEN x
       ELSE IF x[n][1] = "w" /\ y[1][1] = "w"
       THEN SubSeq(x, 1, n - 1) \o <<<<"w", x[n][2] \o y[1][2]>>>> \o Tail(y)
       ELSE x \o y

(* the rows at the end *)
Rows(tr) ==
    FoldLeft(LAMBDA old, e :
        LET base == IF Len(old) = e.c[4] THEN old
                    ELSE [y \in 1..e.c[4] |-> <<>>]
        IN FoldLeft(LAMBDA acc, k : [acc EXCEPT ![k[1]] = k[2]], base, e.k),
        <<>>, tr.steps)
Outcome(tr) ==
    LET l == tr.steps[Len(tr.steps)]
    IN [c |-> l.c, v |-> l.v,
        e |-> FoldLeft(LAMBDA acc, s : Join(acc, s.e), <<>>, tr.steps),
        k |-> LET r == Rows(tr)
              IN [y \in 1..Len(r) |-> [x \in 1..Len(r[y]) |->
                                         tr.cells[r[y][x]]]]]

Init == g \in 1..Len(Groups) /\ done = FALSE
Next ==
    /\ ~done /\ done' = TRUE /\ g' = g
    /\ LET os == TLCEval([i \in 1..Len(Groups[g]) |->
                            TLCEval(Outcome(Groups[g][i]))])
           bad == {i \in 2..Len(os) : os[i] # os[1]}
       IN bad # {} => PrintT("MISMATCH " \o ToJson(
            LET i == CHOOSE i \in bad : TRUE
            IN [id |-> Groups[g][i].id,
                diffs |-> {f \in DOMAIN os[1] : os[1][f] # os[i][f]},
                detail |-> <<[f \in {"c", "v", "e"} |-> os[1][f]],
                             [f \in {"c", "v", "e"} |-> os[i][f]]>>]))
Spec == Init /\ [][Next]_vars
=============================================================================
