---------------------------- MODULE SymbolTrace -----------------------------
(* recorded histories of the symbol table, and the encoder of UTF-8 *)
EXTENDS Symbols, Utf8, Widths, SequencesExt, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES t, i, has, known, bad
vars == <<t, i, has, known, bad>>
Init == /\ t \in 1..Len(Traces) /\ i = 0 /\ has = FALSE /\ known = <<>>
        /\ bad = FALSE

Encoded(c) == IF c < 0 THEN <<>> ELSE Utf8Encode(c)
Good(e) ==
    LET o == e.o IN
    CASE o[1] = "snew" -> e.r = 0 \/ (e.r < 0 /\ e.f > 0)
      [] o[1] = "sfree" -> TRUE
      [] o[1] = "app" -> IF has THEN Result(known, o[2], o[3], e.r, e.f > 0)
                         ELSE e.r = o[2]
      [] o[1] = "get" -> e.q = SeqOf(known, o[2]) \/ ~has
      [] o[1] = "width" ->
            e.r = IF has THEN Width(SeqOf(known, o[2])[1]) ELSE 0
      [] o[1] = "make" -> e.r = IF IsChar(o[2]) THEN o[2] ELSE 0
      [] o[1] = "enc" -> e.q = Encoded(o[2])
      [] o[1] = "encall" ->
            LET x == FoldLeft(LAMBDA acc, c : acc \o Encoded(c), <<>>, Tail(o))
            IN IF e.f > 0 THEN e.q \in {x, <<>>}
               ELSE e.q = x /\ ((e.r = 1) = (x # <<>>))
After(e) ==
    CASE e.o[1] = "app" /\ has -> Learnt(known, e.o[2], e.o[3], e.r,
                                          e.f > 0)
      [] e.o[1] \in {"snew", "sfree"} -> <<>>
      [] OTHER -> known
Next ==
    /\ ~bad /\ i < Len(Traces[t].steps) /\ t' = t /\ i' = i + 1
    /\ LET e == Traces[t].steps[i + 1]
           (* scripts can prepare something that has no effect by itself *)
           silent == e.o[1] \in {"fail", "elem"}
           ok == TLCEval(silent \/ Good(e))
           d == (IF ok THEN {} ELSE {e.o[1]})
                \cup (IF i + 1 = Len(Traces[t].steps) /\ Traces[t].left # 0
                      THEN {"leak"} ELSE {})
       IN /\ bad' = (d # {})
          /\ known' = (IF ok THEN TLCEval(After(e)) ELSE known)
          /\ has' = (IF e.o[1] = "snew" THEN e.r = 0
                     ELSE IF e.o[1] = "sfree" THEN FALSE ELSE has)
          /\ d # {} => PrintT("MISMATCH " \o ToJson(
                [id |-> Traces[t].id, step |-> i, op |-> e.o, diffs |-> d,
                 detail |-> [r |-> e.r, f |-> e.f,
                    q |-> IF "q" \in DOMAIN e THEN e.q ELSE <<>>,
                    spec |-> IF e.o[1] = "app"
                             THEN Extended(known, e.o[2], e.o[3])
                             ELSE IF e.o[1] = "get" THEN SeqOf(known, e.o[2])
                             ELSE <<>>]]))
Spec == Init /\ [][Next]_vars
=============================================================================
