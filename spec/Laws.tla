-------------------------------- MODULE Laws --------------------------------
(***************************************************************************)
(* The properties, stated independently of how the operations are          *)
(* specified in Screen.tla and Vte.tla: each law relates the states before *)
(* and after an operation cell by cell and value by value.  MC.tla checks  *)
(* them on all transitions of small configurations.                        *)
(*                                                                         *)
(* st and b are the states before and after, s and a their screens.        *)
(***************************************************************************)
EXTENDS Ops

Same(s, a, except) == \A f \in DOMAIN s \ except : a[f] = s[f]
Buffer(s) == IF s.alt THEN "alts" ELSE "mains"
Cell(s, x, y) == Line(s, y)[x + 1]
Cols(s) == 0..(s.w - 1)
Rows(s) == 0..(s.h - 1)
ScrollFields(s) == {Buffer(s), "ss", "se"}
                   \cup (IF s.alt THEN {} ELSE {"sb", "lid", "pos"})

(* the content is that of s, moved up by n (down if negative) in the rows
   from t to l and filled with blanks *)
Moved(s, a, t, l, n) ==
    \A y \in Rows(s), x \in Cols(s) :
        Cell(a, x, y) = IF y < t \/ y > l THEN Cell(s, x, y)
                        ELSE IF y + n \in t..l THEN Cell(s, x, y + n)
                        ELSE Blank(s.da)
Pushed(s, n) == IF s.alt \/ s.sbmax = 0 THEN <<>>
                ELSE SubSeq(s.mains, s.mt + 1,
                            Min2(s.mt + n, s.mb + 1))
LastOf(l, n) == IF Len(l) <= n THEN l ELSE SubSeq(l, Len(l) - n + 1, Len(l))
Scrolled(s, a, n) ==
    /\ Moved(s, a, s.mt, s.mb, n)
    /\ n >= 0 => a.sb = LastOf(s.sb \o Pushed(s, n), s.sbmax)
    /\ n < 0 => a.sb = s.sb

-----------------------------------------------------------------------------
(* in every state *)
ScreenOk(s) ==
    /\ s.w > 0 /\ s.h > 0
    /\ Len(s.mains) = s.h /\ Len(s.alts) = s.h
    /\ \A y \in 1..s.h : Len(s.mains[y]) = s.w /\ Len(s.alts[y]) = s.w
    /\ s.cy \in 0..(s.h - 1) /\ s.cx \in 0..(s.w + 1)
    /\ 0 <= s.mt /\ s.mb < s.h
    /\ s.mt < s.mb \/ (s.h = 1 /\ s.mt = 0 /\ s.mb = 0)
    /\ Len(s.tabs) = s.w
    /\ Len(s.sb) <= s.sbmax
    /\ s.pos = 0 \/ SbHas(s, s.pos)
    /\ SbPosNum(s) \in 0..Len(s.sb)
    /\ s.sel => \A e \in {s.ss, s.se} :
          CASE e.k = "sb" -> SbHas(s, e.id)
            [] e.k = "scr" -> e.y >= 0
            [] OTHER -> TRUE

-----------------------------------------------------------------------------
(* C04 *)
LawPrint(s, ch, at, a) ==
    LET len == Width(ch)
        full == s.cx >= s.w
        wraps == full /\ s.wrap
        scr == wraps /\ s.cy = s.mb
        tx == IF ~full THEN s.cx ELSE IF wraps THEN 0 ELSE s.w - 1
        ty == IF wraps /\ s.cy # s.mb /\ s.cy # s.h - 1 THEN s.cy + 1
              ELSE s.cy
        Old(x, y) == IF ~scr \/ y \notin s.mt..s.mb THEN Cell(s, x, y)
                     ELSE IF y < s.mb THEN Cell(s, x, y + 1) ELSE Blank(s.da)
    IN IF len = 0 THEN a = s
       ELSE /\ Same(s, a, {Buffer(s), "cx", "cy"}
                          \cup (IF scr THEN ScrollFields(s) ELSE {}))
            /\ a.cx = tx + len /\ a.cy = ty
            /\ scr => a.sb = LastOf(s.sb \o Pushed(s, 1), s.sbmax)
            /\ \A y \in Rows(s), x \in Cols(s) :
                  Cell(a, x, y) =
                    IF y # ty \/ x < tx THEN Old(x, y)
                    ELSE IF x = tx THEN <<ch, len, at>>
                    ELSE IF x < tx + len THEN [Old(x, y) EXCEPT ![2] = 0]
                    ELSE IF s.ins THEN Old(x - len, y) ELSE Old(x, y)

(* C05 *)
AtMost(x, l) == IF x > l THEN l ELSE x
AtLeast(x, l) == IF x < l THEN l ELSE x
LawMove(s, o, a) ==
    LET k == o[1]
        n == IF Len(o) > 1 THEN o[2] ELSE 0
        top == IF s.cy >= s.mt THEN s.mt ELSE 0
        bot == IF s.cy <= s.mb THEN s.mb ELSE s.h - 1
        col == AtMost(s.cx, s.w - 1)
        to(x, y) == a.cx = x /\ a.cy = y
        over == CASE k = "moveup" -> n - (s.cy - top)
                  [] k = "movedown" -> n - (bot - s.cy)
                  [] OTHER -> 0
        scrolls == /\ k \in {"moveup", "movedown"} /\ Len(o) > 2 /\ o[3] # 0
                   /\ over > 0
                   /\ IF k = "moveup" THEN top = s.mt ELSE bot = s.mb
    IN /\ Same(s, a, {"cx", "cy"} \cup
                     (IF scrolls THEN ScrollFields(s) ELSE {}))
       /\ scrolls => Scrolled(s, a, IF k = "moveup" THEN 0 - over ELSE over)
       /\ CASE k = "moveto" ->
                 IF s.orig
                 THEN to(AtMost(n, s.w - 1), AtMost(s.mt + o[3], s.mb))
                 ELSE to(AtMost(n, s.w - 1), AtMost(o[3], s.h - 1))
            [] k = "moveup" -> to(s.cx, AtLeast(s.cy - n, top))
            [] k = "movedown" -> to(s.cx, AtMost(s.cy + n, bot))
            [] k = "moveleft" ->
                 to(IF n = 0 THEN s.cx ELSE AtLeast(col - n, 0), s.cy)
            [] k = "moveright" ->
                 to(IF n = 0 THEN s.cx ELSE AtMost(s.cx + n, s.w - 1), s.cy)
            [] k = "lineend" -> to(s.w - 1, s.cy)
            [] k = "linehome" -> to(0, s.cy)

(* C06 *)
LawScroll(s, o, a) ==
    LET k == o[1]
        n == IF Len(o) > 1 THEN o[2] ELSE 0
        col == AtMost(s.cx, s.w - 1)
        outside == s.cy \notin s.mt..s.mb
    IN CASE k \in {"scrollup", "scrolldown"} ->
              /\ Same(s, a, ScrollFields(s))
              /\ Scrolled(s, a, IF k = "scrollup" THEN n ELSE 0 - n)
         [] k \in {"inslines", "dellines"} ->
              IF n = 0 \/ outside THEN a = s
              ELSE /\ Same(s, a, {Buffer(s), "cx"}) /\ a.cx = 0
                   /\ Moved(s, a, s.cy, s.mb,
                            IF k = "dellines" THEN n ELSE 0 - n)
         [] k \in {"inschars", "delchars"} ->
              IF n = 0 THEN a = s
              ELSE /\ Same(s, a, {Buffer(s), "cx"}) /\ a.cx = col
                   /\ \A y \in Rows(s), x \in Cols(s) :
                        LET f == IF k = "inschars" THEN x - n ELSE x + n
                        IN Cell(a, x, y) =
                             IF y # s.cy \/ x < col THEN Cell(s, x, y)
                             ELSE IF f \in col..(s.w - 1) THEN Cell(s, f, y)
                             ELSE Blank(s.da)
         [] k = "newline" ->
              /\ a.cx = 0
              /\ IF s.cy = s.mb
                 THEN /\ a.cy = s.cy /\ Scrolled(s, a, 1)
                      /\ Same(s, a, ScrollFields(s) \cup {"cx"})
                 ELSE /\ Same(s, a, {"cx", "cy"})
                      /\ a.cy = AtMost(s.cy + 1, s.h - 1)

(* C07 *)
LawScrollback(s, o, a) ==
    LET k == o[1]
        n == IF Len(o) > 1 THEN o[2] ELSE 0
        page == IF k \in {"sbpgup", "sbpgdown"} THEN Min2(n, 1000000) * s.h
                ELSE n
        p == SbPosNum(s)
    IN /\ CASE k \in {"sbup", "sbpgup"} ->
                /\ Same(s, a, {"pos"}) /\ SbPosNum(a) = AtLeast(p - page, 0)
            [] k \in {"sbdown", "sbpgdown"} ->
                /\ Same(s, a, {"pos"})
                /\ SbPosNum(a) = AtMost(p + page, Len(s.sb))
            [] k = "sbreset" -> Same(s, a, {"pos"}) /\ a.pos = 0
            [] k = "clearsb" -> /\ Same(s, a, {"pos", "sb", "ss", "se"})
                                /\ a.sb = <<>> /\ a.pos = 0
            [] k = "maxsb" ->
                /\ Same(s, a, {"pos", "sb", "sbmax", "ss", "se"})
                /\ a.sb = LastOf(s.sb, n) /\ a.sbmax = n
                /\ a.pos = IF s.pos = 0 \/ a.sb = <<>> THEN 0
                           ELSE IF s.pos \in SbFirst(a)..a.lid THEN s.pos
                           ELSE SbFirst(a)
            [] OTHER -> \* anything else only adds lines, if it does anything
                /\ \E i \in 0..(s.h - s.mt) :
                     LET add == IF i = 0 THEN <<>>
                                ELSE SubSeq(s.mains, s.mt + 1, s.mt + i)
                     IN \/ a.sb = LastOf(s.sb \o add, s.sbmax)
                        \/ k = "resize" /\ Len(a.sb) <= a.sbmax
                /\ s.alt => a.sb = s.sb
       \* the view stays at its line
       /\ (s.fix /\ s.pos # 0 /\ SbHas(a, s.pos)
           /\ k \notin {"sbup", "sbdown", "sbpgup", "sbpgdown", "sbreset",
                        "clearsb", "reset"})
              => a.pos = s.pos

(* C08 *)
LawErase(s, o, a) ==
    LET k == o[1]
        col == AtMost(s.cx, s.w - 1)
        lin(x, y) == y * s.w + x
        cur == lin(col, s.cy)
        home == lin(0, s.cy)
        lend == lin(s.w - 1, s.cy)
        end == lin(s.w - 1, s.h - 1)
        prot == k \notin {"erasecur", "erasechars"} /\ o[2] # 0
        range == CASE k = "erasecur" -> cur..cur
                   [] k = "erasechars" -> cur..AtMost(cur + o[2] - 1, lend)
                   [] k = "ecte" -> cur..lend
                   [] k = "ehtc" -> home..cur
                   [] k = "eline" -> home..lend
                   [] k = "estc" -> 0..cur
                   [] k = "ects" -> cur..end
                   [] k = "escr" -> 0..end
    IN /\ Same(s, a, {Buffer(s)})
       /\ \A y \in Rows(s), x \in Cols(s) :
            Cell(a, x, y) =
              IF lin(x, y) \in range /\ ~(prot /\ Cell(s, x, y)[3][13] = 1)
              THEN Blank(s.da) ELSE Cell(s, x, y)

(* C09 *)
TabSet(s) == {x \in Cols(s) : s.tabs[x + 1]}
LawTab(s, o, a) ==
    LET k == o[1]
        t == TabSet(s)
        n == o[2]
    IN CASE k = "settab" ->
              Same(s, a, {"tabs"}) /\ TabSet(a) = t \cup ({s.cx} \cap Cols(s))
         [] k = "rsttab" -> Same(s, a, {"tabs"}) /\ TabSet(a) = t \ {s.cx}
         [] k = "rstall" -> Same(s, a, {"tabs"}) /\ TabSet(a) = {}
         [] k = "tabr" ->
              /\ Same(s, a, {"cx"})
              /\ LET c == {x \in t : Cardinality({z \in t : s.cx < z /\ z <= x})
                                     = n /\ x > s.cx}
                 IN a.cx = IF n = 0 THEN s.cx
                           ELSE IF c # {} THEN CHOOSE x \in c : TRUE
                           ELSE s.w - 1
         [] k = "tabl" ->
              /\ Same(s, a, {"cx"})
              /\ LET c == {x \in t : Cardinality({z \in t : x <= z /\ z < s.cx})
                                     = n /\ x < s.cx}
                 IN a.cx = IF n = 0 THEN s.cx
                           ELSE IF c # {} THEN CHOOSE x \in c : TRUE
                           ELSE 0

(* C10 *)
LawResize(s, w, h, a) ==
    IF w = s.w /\ h = s.h THEN a = s
    ELSE LET up == AtLeast(s.h - h, 0)
             was(l, x, y, at) == IF x < s.w /\ y < s.h THEN l[y + 1][x + 1]
                                 ELSE Blank(at)
             mat == IF s.alt THEN s.dam ELSE s.da
             mup == IF s.alt THEN 0 ELSE up
             aup == IF s.alt THEN up ELSE 0
         IN /\ a.w = w /\ a.h = h
            /\ a.mt = 0 /\ a.mb = h - 1
            /\ TabSet(a) = {x \in Cols(a) : x % 8 = 0}
            /\ \A y \in Rows(a), x \in Cols(a) :
                 /\ a.mains[y + 1][x + 1] = was(s.mains, x, y + mup, mat)
                 /\ a.alts[y + 1][x + 1] = was(s.alts, x, y + aup, s.da)
            /\ a.cx = AtMost(s.cx, w - 1)
            /\ a.cy = AtMost(AtLeast(s.cy - up, 0), h - 1)
            \* the lines shifted out are in the scrollback, at their new width
            /\ ~s.alt /\ s.sbmax > 0 =>
                 LET l == LastOf(s.sb \o [i \in 1..up |->
                                   ResizeLine(s.mains[i], w, mat)], s.sbmax)
                 IN a.sb = l
            /\ s.alt \/ up = 0 => a.sb = s.sb
            /\ Same(s, a, {"w", "h", "mt", "mb", "tabs", "mains", "alts", "cx",
                           "cy", "sb", "lid", "pos", "ss", "se"})

(* C11 *)
LawAlt(s, o, a) ==
    /\ s.alt /\ o[1] \notin {"resize", "maxsb", "clearsb", "vhard", "in"}
          => a.mains = s.mains /\ a.sb = s.sb
    /\ s.alt /\ a.alt /\ o[1] = "in"
          => a.mains = s.mains /\ a.sb = s.sb
    /\ ~s.alt /\ ~a.alt /\ o[1] # "resize" => a.alts = s.alts

(* C12: the text of the highlighted cells *)
AllRows(s) == (0 - Len(s.sb))..(s.h - 1)
RowCells(s, r) == IF r < 0 THEN s.sb[Len(s.sb) + 1 + r] ELSE Line(s, r)
RECURSIVE Trim(_)
Trim(t) == IF t # <<>> /\ t[Len(t)] = 0 THEN Trim(SubSeq(t, 1, Len(t) - 1))
           ELSE t
(* characters of the highlighted cells in a row *)
RowText(s, r) ==
    LET l == RowCells(s, r)
        n == Min2(Len(l), s.w)
        hl == SelectSeq([i \in 1..n |-> i], LAMBDA i :
                           Highlighted(s, r, i - 1)
                           \* trailing blanks of the line
                           /\ \E j \in i..n : l[j][1] # 0)
        cs == SelectSeq(hl, LAMBDA i : l[i][2] > 0)
    IN FoldLeft(LAMBDA acc, i :
                  acc \o (IF l[i][1] = 0 THEN <<32>> ELSE Utf8Encode(l[i][1])),
                <<>>, cs)
SelectedRows(s) ==
    {r \in AllRows(s) : \E x \in Cols(s) : Highlighted(s, r, x)}
LawCopy(s) ==
    LET rs == SelectedRows(s)
        a == IF SelLe(s, s.ss, s.se) THEN s.ss ELSE s.se
        \* a first row that is selected only beyond its text is left out
        skip == {r \in rs : r = SelRow(s, a) /\ a.x > TextLen(s, RowCells(s, r))}
        seq == SetToSortSeq(rs \ skip, LAMBDA p, q : p < q)
        t == FoldLeft(LAMBDA acc, r : acc \o RowText(s, r) \o <<10>>, <<>>, seq)
        c == SelCopy(s)
    IN s.sel /\ a.x < s.w =>
          /\ c.r = Len(c.t)
          /\ c.t = IF t = <<>> THEN <<>> ELSE SubSeq(t, 1, Len(t) - 1)
(* the line an end point is at, counted from the first line there ever was *)
AbsLine(s, e) == CASE e.k = "sb" -> e.id [] e.k = "scr" -> s.lid + 1 + e.y
                   [] OTHER -> 0 - 1
LawSelFollows(s, a) ==
    s.sel /\ a.sel /\ ~s.alt /\ ~a.alt /\ s.sbmax > 0 /\ s.h = a.h =>
      \A p \in {<<s.ss, a.ss>>, <<s.se, a.se>>} :
        LET e == p[1]
            f == p[2]
        IN \/ AbsLine(a, f) = AbsLine(s, e) /\ f.x = e.x
           \/ f.k = "top" /\ (e.k = "top" \/ AbsLine(s, e) < SbFirst(a))

(* end points that scrolling moves within the margins *)
LawSelScrolled(s, o, a) ==
    LET d == IF o[1] = "scrollup" THEN 0 - Min2(o[2], s.h)
             ELSE Min2(o[2], s.h)
        edge == IF d < 0 THEN <<0, s.mt>> ELSE <<s.w - 1, s.mb>>
    IN \A p \in {<<s.ss, a.ss>>, <<s.se, a.se>>} :
         LET e == p[1]
             f == p[2]
         IN IF ~s.sel \/ e.k # "scr" \/ e.y \notin s.mt..s.mb
            THEN f = e \/ (e.k = "sb" /\ e.id < SbFirst(a) /\ f.k = "top")
            ELSE IF e.y + d \in s.mt..s.mb
            THEN f.k = "scr" /\ f.y = e.y + d /\ f.x = e.x
            ELSE IF d < 0 /\ ~s.alt
            THEN f.k # "scr" /\ (f.k = "sb" => f.x = e.x)
            ELSE f.k = "scr" /\ <<f.x, f.y>> = edge
(* end points are where the view shows the given position *)
LawSelect(s, o, a) ==
    LET top == IF s.pos = 0 THEN 0 ELSE s.pos - s.lid - 1
        at(e) == /\ e.k # "top" /\ e.x = AtMost(o[2], s.w - 1)
                 /\ SelRow(a, e) = top + AtMost(o[3], s.h - 1)
    IN CASE o[1] = "selstart" -> /\ Same(s, a, {"sel", "ss", "se"})
                                 /\ a.sel /\ a.ss = a.se /\ at(a.ss)
         [] o[1] = "seltarget" -> /\ Same(s, a, {"se"})
                                  /\ IF s.sel THEN at(a.se) ELSE a = s
         [] o[1] = "selreset" -> Same(s, a, {"sel"}) /\ ~a.sel

(* modes of the screen *)
ModeFields == {"ins", "wrap", "orig", "inv", "hide", "fix", "alt"}
ModeBit(m) == CASE m = "ins" -> 0 [] m = "wrap" -> 1 [] m = "orig" -> 2
                [] m = "inv" -> 3 [] m = "hide" -> 4 [] m = "fix" -> 5
                [] m = "alt" -> 6
Modes(s) == {m \in ModeFields : s[m]}
LawFlags(s, o, a) ==
    LET named == {m \in ModeFields : (o[2] \div 2^ModeBit(m)) % 2 = 1}
        enters == o[1] = "setflags" /\ "alt" \in named \ Modes(s)
    IN /\ Modes(a) = IF o[1] = "setflags" THEN Modes(s) \cup named
                     ELSE Modes(s) \ named
       /\ Same(s, a, ModeFields \cup (IF enters THEN {"dam"} ELSE {}))
LawMargins(s, t, b, a) ==
    LET top == AtLeast(t, 1)
    IN /\ Same(s, a, {"mt", "mb"})
       /\ IF top < b /\ b <= s.h THEN a.mt = top - 1 /\ a.mb = b - 1
          ELSE a.mt = 0 /\ a.mb = s.h - 1
LawReset(s, a) ==
    /\ Same(s, a, ModeFields \cup {"mt", "mb", "tabs"})
    /\ Modes(a) = {} /\ a.mt = 0 /\ a.mb = s.h - 1
    /\ TabSet(a) = {x \in Cols(s) : x % 8 = 0}
(* a new screen is blank, and so is its other buffer *)
LawNew(w, h) ==
    LET s == ScrInit(w, h)
    IN /\ ScreenOk(s) /\ Modes(s) = {} /\ ~s.sel /\ s.pos = 0
       /\ s.w = w /\ s.h = h /\ s.mt = 0 /\ s.mb = h - 1
       /\ s.cx = 0 /\ s.cy = 0 /\ s.sb = <<>> /\ s.sbmax = 0
       /\ TabSet(s) = {x \in Cols(s) : x % 8 = 0}
       /\ \A y \in 1..h, x \in 1..w : /\ s.mains[y][x] = Blank(s.da)
                                      /\ s.alts[y][x] = Blank(s.da)
ASSUME \A w \in {1, 2, 9, 17}, h \in 1..3 : LawNew(w, h)

-----------------------------------------------------------------------------
(* the law of an operation, for the screen interface *)
MoveOps == {"moveto", "moveup", "movedown", "moveleft", "moveright",
            "lineend", "linehome"}
ScrollOps == {"scrollup", "scrolldown", "inslines", "dellines", "inschars",
              "delchars", "newline"}
EraseOps == {"erasecur", "erasechars", "ecte", "ehtc", "eline", "estc",
             "ects", "escr"}
TabOps == {"settab", "rsttab", "rstall", "tabr", "tabl"}
SbOps == {"sbup", "sbdown", "sbpgup", "sbpgdown", "sbreset", "clearsb",
          "maxsb"}

ScreenLaw(s, o, a) ==
    /\ ScreenOk(a)
    /\ CASE o[1] = "write" -> LawPrint(s, o[2], o[3], a)
         [] o[1] \in MoveOps -> LawMove(s, o, a)
         [] o[1] \in ScrollOps -> LawScroll(s, o, a)
         [] o[1] \in EraseOps -> LawErase(s, o, a)
         [] o[1] \in TabOps -> LawTab(s, o, a)
         [] o[1] = "resize" /\ o[2] > 0 /\ o[3] > 0 ->
               LawResize(s, o[2], o[3], a)
         [] o[1] \in {"setflags", "resetflags"} -> LawFlags(s, o, a)
         [] o[1] = "margins" -> LawMargins(s, o[2], o[3], a)
         [] o[1] = "reset" -> LawReset(s, a)
         [] o[1] \in {"selstart", "seltarget", "selreset"} ->
               LawSelect(s, o, a)
         [] o[1] = "defattr" -> Same(s, a, {"da"}) /\ a.da = o[2]
         [] o[1] \in {"selcopy", "draw"} -> a = s
         [] OTHER -> TRUE
    /\ o[1] \in {"scrollup", "scrolldown"} => LawSelScrolled(s, o, a)
    /\ o[1] \notin {"in", "vhard"} => LawScrollback(s, o, a)
    /\ LawAlt(s, o, a)
=============================================================================
