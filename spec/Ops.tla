-------------------------------- MODULE Ops --------------------------------
(***************************************************************************)
(* The operations of the public interface, by the names that scripts and   *)
(* traces use.  Apply(st, o) is [st |-> new state, r |-> result]; the      *)
(* events of the operation are in st.out, so it has to start out empty.    *)
(***************************************************************************)
EXTENDS Vte

NoSession == [s |-> ScrInit(1, 1), v |-> VteBare, out |-> <<>>, vte |-> FALSE]

ScreenOp(s, o) ==
    LET a == IF Len(o) > 1 THEN o[2] ELSE 0
        b == IF Len(o) > 2 THEN o[3] ELSE 0
        k == o[1]
    IN CASE k = "resize" -> IF a = 0 \/ b = 0 THEN s ELSE Resize(s, a, b)
         [] k = "margins" -> SetMargins(s, a, b)
         [] k = "maxsb" -> SetMaxSb(s, a)
         [] k = "clearsb" -> ClearSb(s)
         [] k = "sbup" -> SbUp(s, a)
         [] k = "sbdown" -> SbDown(s, a)
         [] k = "sbpgup" -> SbPageUp(s, a)
         [] k = "sbpgdown" -> SbPageDown(s, a)
         [] k = "sbreset" -> SbReset(s)
         [] k = "defattr" -> SetDefAttr(s, a)
         [] k = "reset" -> ScrReset(s)
         [] k = "setflags" -> SetFlags(s, a)
         [] k = "resetflags" -> ResetFlags(s, a)
         [] k = "settab" -> SetTab(s)
         [] k = "rsttab" -> ResetTab(s)
         [] k = "rstall" -> ResetAllTabs(s)
         [] k = "write" -> Write(s, a, Width(a), b)
         [] k = "newline" -> Newline(s)
         [] k = "scrollup" -> ScrollUp(s, a)
         [] k = "scrolldown" -> ScrollDown(s, a)
         [] k = "moveto" -> MoveTo(s, a, b)
         [] k = "moveup" -> MoveUp(s, a, b # 0)
         [] k = "movedown" -> MoveDown(s, a, b # 0)
         [] k = "moveleft" -> MoveLeft(s, a)
         [] k = "moveright" -> MoveRight(s, a)
         [] k = "lineend" -> MoveLineEnd(s)
         [] k = "linehome" -> MoveLineHome(s)
         [] k = "tabr" -> TabRight(s, a)
         [] k = "tabl" -> TabLeft(s, a)
         [] k = "inslines" -> InsertLines(s, a)
         [] k = "dellines" -> DeleteLines(s, a)
         [] k = "inschars" -> InsertChars(s, a)
         [] k = "delchars" -> DeleteChars(s, a)
         [] k = "erasecur" -> EraseCursor(s)
         [] k = "erasechars" -> EraseChars(s, a)
         [] k = "ecte" -> EraseCursorToEnd(s, a # 0)
         [] k = "ehtc" -> EraseHomeToCursor(s, a # 0)
         [] k = "eline" -> EraseLine(s, a # 0)
         [] k = "estc" -> EraseScreenToCursor(s, a # 0)
         [] k = "ects" -> EraseCursorToScreen(s, a # 0)
         [] k = "escr" -> EraseScreen(s, a # 0)
         [] k = "selstart" -> SelStart(s, a, b)
         [] k = "seltarget" -> SelTarget(s, a, b)
         [] k = "selreset" -> SelReset(s)
         [] k \in {"selcopy", "draw"} -> s

(* triples from a flat sequence of numbers *)
Triples(l) == [i \in 1..(Len(l) \div 3) |->
                  <<l[3 * i - 2], l[3 * i - 1], l[3 * i]>>]

Bool(b) == IF b THEN 1 ELSE 0

Apply(st, o) ==
    LET k == o[1]
        ok(x) == [st |-> x, r |-> 0]
        res(p) == [st |-> p[2], r |-> Bool(p[1])]
    IN CASE k = "new" ->
              ok(LET s == ScrInit(o[2], o[3])
                     st1 == IF o[4] # 0 THEN VteInit(s)
                            ELSE [s |-> s, v |-> VteBare, out |-> <<>>]
                 IN [s |-> st1.s, out |-> <<>>, vte |-> o[4] # 0,
                     v |-> [st1.v EXCEPT !.osccb = o[5] # 0,
                                         !.mcb = o[6] # 0]])
         [] k = "in" -> ok(Input(st, o[2]))
         [] k = "key" -> res(Keyboard(st, o[2], o[3], o[4], o[5]))
         [] k = "mouse" -> res(Mouse(st, o[2], o[3], o[4], o[5], o[6], o[7],
                                     o[8]))
         [] k = "vreset" -> ok(VteReset(st))
         [] k = "vhard" -> ok(VteHardReset(st))
         [] k = "pal" -> ok(SetPalette(st, o[2]))
         [] k = "cpal" -> ok(SetCustomPalette(st, TLCEval(Triples(o[2]))))
         [] k = "bs" -> ok([st EXCEPT !.v.bs = o[2] # 0])
         [] k = "setosc" -> ok([st EXCEPT !.v.osccb = o[2] # 0])
         [] k = "setmcb" -> ok([st EXCEPT !.v.mcb = o[2] # 0])
         [] k = "lose" -> ok([st EXCEPT !.s.lose = o[2],
                                        !.s.loseall = o[3] # 0])
         [] k = "selcopy" -> [st |-> st, r |-> SelCopy(st.s).r]
         [] k = "resize" /\ (o[2] = 0 \/ o[3] = 0) -> [st |-> st, r |-> 0 - 22]
         [] OTHER -> ok([st EXCEPT !.s = ScreenOp(@, o)])
=============================================================================
