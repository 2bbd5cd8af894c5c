------------------------------- MODULE Trace -------------------------------
(***************************************************************************)
(* Validation of recorded traces against the specification.                *)
(*                                                                         *)
(* The file (environment variable TRACE_FILE) has one recorded trace per   *)
(* line, see harness/term.c.  Each step of this specification applies one  *)
(* recorded operation to the specified state and compares everything that  *)
(* was observed of the real objects with it.  Traces that differ are       *)
(* reported and stop there; all the others are followed to their end.      *)
(***************************************************************************)
EXTENDS Ops, Json, IOUtils, FiniteSets

Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)

VARIABLES t, i, st, ob, bad
vars == <<t, i, st, ob, bad>>
View == <<t, i>>

Init == /\ t \in 1..Len(Traces)
        /\ i = 0
        /\ st = NoSession
        /\ ob = <<>>
        /\ bad = FALSE

(* the rows that were observed after the step *)
Observed(old, e) ==
    LET w == e.c[3]
        h == e.c[4]
        base == IF Len(old) = h THEN old ELSE [y \in 1..h |-> <<>>]
    IN FoldLeft(LAMBDA acc, k : [acc EXCEPT ![k[1]] = k[2]], base, e.k)

CellMatch(c, e) == IF e = <<>> THEN c[1] = 0 /\ c[2] = 1 /\ c[4] = 0 ELSE c = e

BadRows(s, o, cells) ==
    {y \in 1..s.h : \/ Len(o[y]) # s.w
                    \/ \E x \in 1..s.w :
                         ~CellMatch(cells[o[y][x]], ViewCell(s, y - 1, x - 1))}

(* what identifies a glyph: its text and those attributes that change its
   shape.  Cells with the same identifier have to look the same, and what
   looks the same has the same identifier; there are several for no text. *)
Glyph(c) == <<c[1], c[4], c[3][9], c[3][10], c[3][11], c[3][12], c[3][14]>>
IdsOk(tr) ==
    LET n == Len(tr.cells)
        card(S) == Cardinality(S)
        text == {k \in 1..n : tr.cells[k][4] > 0}
        pairs(S) == {<<tr.ids[k], Glyph(tr.cells[k])>> : k \in S}
    IN /\ card(pairs(1..n)) = card({tr.ids[k] : k \in 1..n})
       /\ card(pairs(text)) = card({Glyph(tr.cells[k]) : k \in text})

(* the copied text, if there is one *)
Text(e) == IF "t" \in DOMAIN e THEN <<e.t>> ELSE <<>>

(* names of what differs *)
Diffs(x, r, e, o, cells) ==
    LET s == x.s
        d1 == IF e.c[1] = s.cx /\ e.c[2] = s.cy THEN {} ELSE {"cursor"}
        d2 == IF e.c[3] = s.w /\ e.c[4] = s.h THEN {} ELSE {"size"}
        d3 == IF e.c[5] = ScrFlags(s) THEN {} ELSE {"sflags"}
        d4 == IF e.c[6] = Len(s.sb) /\ e.c[7] = SbPosNum(s) THEN {}
              ELSE {"sb"}
        d5 == IF ~x.vte THEN {}
              ELSE (IF e.v[1] = ModeSum(x.v.fl) THEN {} ELSE {"vflags"})
                   \cup (IF e.v[2] = x.v.mm /\ e.v[3] = x.v.me THEN {}
                         ELSE {"mouse"})
        d6 == IF x.vte /\ "d" \in DOMAIN e /\ e.d # DefAttr(x.v)
              THEN {"defattr"} ELSE {}
        d7 == IF e.e = x.out THEN {} ELSE {"events"}
        d8 == IF e.r = r THEN {} ELSE {"result"}
        d9 == IF "bad" \in DOMAIN e THEN {"draw"} ELSE {}
        d10 == IF Text(e) = (IF e.o[1] = "selcopy" /\ e.r >= 0
                             THEN <<SelCopy(s).t>> ELSE <<>>)
               THEN {} ELSE {"copy"}
        d11 == IF d2 = {} /\ BadRows(s, o, cells) # {} THEN {"view"} ELSE {}
    IN d1 \cup d2 \cup d3 \cup d4 \cup d5 \cup d6 \cup d7 \cup d8 \cup d9
       \cup d10 \cup d11

(* some details of what differs, for the report *)
Detail(x, r, e, o, cells, d) ==
    LET s == x.s
        y == CHOOSE yy \in BadRows(s, o, cells) :
                \A k \in BadRows(s, o, cells) : yy <= k
    IN [spec |-> <<s.cx, s.cy, s.w, s.h, ScrFlags(s), Len(s.sb), SbPosNum(s)>>,
        real |-> e.c,
        vspec |-> <<ModeSum(x.v.fl), x.v.mm, x.v.me>>, vreal |-> e.v,
        espec |-> x.out, ereal |-> e.e, rspec |-> r, rreal |-> e.r,
        t |-> IF "copy" \in d THEN <<SelCopy(s).t, Text(e)>> ELSE <<>>,
        row |-> IF "view" \in d THEN y ELSE 0,
        \* could it be seen from any position in the scrollback?
        some |-> "view" \notin d \/ Len(s.sb) > 200
                 \/ \E p \in {0} \cup (s.lid - Len(s.sb) + 1)..s.lid :
                       BadRows([s EXCEPT !.pos = p], o, cells) = {},
        rowspec |-> IF "view" \in d THEN ViewRow(s, y - 1) ELSE <<>>,
        rowreal |-> IF "view" \in d
                    THEN [k \in 1..Len(o[y]) |-> cells[o[y][k]]] ELSE <<>>]

Step ==
    LET tr == Traces[t]
        e == tr.steps[i + 1]
        a == TLCEval(Apply(st, e.o))
        o == TLCEval(Observed(ob, e))
        d == TLCEval(Diffs(a.st, a.r, e, o, tr.cells)
                     \cup (IF i + 1 < Len(tr.steps) \/ IdsOk(tr) THEN {}
                           ELSE {"ids"}))
    IN /\ i' = i + 1
       /\ t' = t
       /\ st' = [a.st EXCEPT !.out = <<>>]
       /\ ob' = o
       /\ bad' = (d # {})
       /\ d # {} => PrintT("MISMATCH " \o ToJson(
                       [id |-> tr.id, step |-> i, op |-> e.o, diffs |-> d,
                        detail |-> Detail(a.st, a.r, e, o, tr.cells, d)]))

Next == ~bad /\ i < Len(Traces[t].steps) /\ Step
Spec == Init /\ [][Next]_vars
=============================================================================
