------------------------------- MODULE Screen -------------------------------
(***************************************************************************)
(* The screen of libtsm as a deterministic state machine.                  *)
(*                                                                         *)
(* A screen state is a record (see ScrInit).  Every public operation of    *)
(* the screen is an operator from a state (and arguments) to a state, so   *)
(* the same definitions are used by the exhaustive models (MC*.tla) and by *)
(* the trace validation against the implementation (Trace.tla).            *)
(*                                                                         *)
(* Coordinates are 0-based like in the implementation; sequences are       *)
(* 1-based, so row y is lines[y+1].                                        *)
(*                                                                         *)
(* A cell is <<char, width, attr>>.  A line has exactly as many cells as   *)
(* the screen had columns when the line was last on the screen.  Lines in  *)
(* the scrollback have consecutive ids, sb[Len(sb)] has the id lid.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, Utf8

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b

Blank(a) == <<0, 1, a>>
BlankLine(w, a) == [i \in 1..w |-> Blank(a)]
BlankLines(n, w, a) == [i \in 1..n |-> BlankLine(w, a)]
TabsDefault(w) == [i \in 1..w |-> (i - 1) % 8 = 0]

(* attr: <<fccode, bccode, fr, fg, fb, br, bg, bb,
           bold, italic, underline, inverse, protect, blink>> *)
AttrNew == <<0, 0, 255, 255, 255, 0, 0, 0, 0, 0, 0, 0, 0, 0>>

(* end points of the selection *)
SelTop == [k |-> "top", id |-> 0, x |-> 0, y |-> 0]
SelSb(id, x) == [k |-> "sb", id |-> id, x |-> x, y |-> 0]
SelScr(x, y) == [k |-> "scr", id |-> 0, x |-> x, y |-> y]

ScrInit(w, h) ==
    [w |-> w, h |-> h, mt |-> 0, mb |-> h - 1, cx |-> 0, cy |-> 0,
     ins |-> FALSE, wrap |-> FALSE, orig |-> FALSE, inv |-> FALSE,
     hide |-> FALSE, fix |-> FALSE, alt |-> FALSE,
     mains |-> BlankLines(h, w, AttrNew), alts |-> BlankLines(h, w, AttrNew),
     da |-> AttrNew, dam |-> AttrNew, tabs |-> TabsDefault(w),
     sb |-> <<>>, sbmax |-> 0, pos |-> 0, lid |-> 0,
     sel |-> FALSE, ss |-> SelScr(0, 0), se |-> SelScr(0, 0),
     lose |-> 0 - 1, loseall |-> FALSE]

Lines(s) == IF s.alt THEN s.alts ELSE s.mains
SetLines(s, l) == IF s.alt THEN [s EXCEPT !.alts = TLCEval(l)]
                           ELSE [s EXCEPT !.mains = TLCEval(l)]
SetLine(s, y, l) == IF s.alt THEN [s EXCEPT !.alts[y + 1] = TLCEval(l)]
                             ELSE [s EXCEPT !.mains[y + 1] = TLCEval(l)]
Line(s, y) == Lines(s)[y + 1]

MoveCur(s, x, y) == [s EXCEPT !.cx = x, !.cy = y]

ScrFlags(s) == (IF s.ins THEN 1 ELSE 0) + (IF s.wrap THEN 2 ELSE 0) +
               (IF s.orig THEN 4 ELSE 0) + (IF s.inv THEN 8 ELSE 0) +
               (IF s.hide THEN 16 ELSE 0) + (IF s.fix THEN 32 ELSE 0) +
               (IF s.alt THEN 64 ELSE 0)
HasBit(n, b) == (n \div b) % 2 = 1

-----------------------------------------------------------------------------
(* Scrollback *)

SbFirst(s) == s.lid - Len(s.sb) + 1
SbHas(s, id) == id >= SbFirst(s) /\ id <= s.lid
(* the line position that is reported *)
SbPosNum(s) == IF s.pos = 0 THEN Len(s.sb) ELSE s.pos - SbFirst(s)

(* end points on lines that are no longer there move to the top *)
SelForget(s, e) == IF e.k = "sb" /\ ~SbHas(s, e.id) THEN SelTop ELSE e
SelForgetAll(s) == IF s.sel THEN [s EXCEPT !.ss = SelForget(s, s.ss),
                                           !.se = SelForget(s, s.se)]
                            ELSE s

(* a line leaves the main screen; the view moves with the content only if
   its own line is dropped or the position is not fixed *)
SbPush(s, line) ==
    IF s.sbmax = 0 THEN s
    ELSE IF Len(s.sb) >= s.sbmax
    THEN SelForgetAll(
           [s EXCEPT !.sb = Append(Tail(@), line), !.lid = @ + 1,
                     !.pos = IF @ # 0 /\ (@ = SbFirst(s) \/ ~s.fix)
                             THEN @ + 1 ELSE @])
    ELSE [s EXCEPT !.sb = Append(@, line), !.lid = @ + 1]

(* If there is no memory for a new line, the old one is used again instead   *)
(* of entering the scrollback.  lose >= 0: so many lines enter it until     *)
(* that happens, once or to all of the following (C26).                     *)
Push(s, line) ==
    IF s.lose = 0 THEN [s EXCEPT !.lose = IF s.loseall THEN 0 ELSE 0 - 1]
    ELSE LET r == SbPush(s, line)
         IN IF s.lose > 0 THEN [r EXCEPT !.lose = @ - 1] ELSE r

SetMaxSb(s, max) ==
    LET drop == Max2(0, Len(s.sb) - max)
        nsb == SubSeq(s.sb, drop + 1, Len(s.sb))
        first == s.lid - Len(nsb) + 1
    IN SelForgetAll(
         [s EXCEPT !.sb = nsb, !.sbmax = max,
                   !.pos = IF @ = 0 \/ nsb = <<>> THEN 0 ELSE Max2(@, first)])

ClearSb(s) == SelForgetAll([s EXCEPT !.sb = <<>>, !.pos = 0])

SbUp(s, n) ==
    IF n = 0 \/ s.sb = <<>> THEN s
    ELSE LET cur == IF s.pos = 0 THEN s.lid + 1 ELSE s.pos
         IN [s EXCEPT !.pos = Max2(SbFirst(s), cur - n)]
SbDown(s, n) ==
    IF n = 0 \/ s.pos = 0 THEN s
    ELSE [s EXCEPT !.pos = IF @ + n > s.lid THEN 0 ELSE @ + n]
SbPageUp(s, n) == SbUp(s, Min2(n, 1000000) * s.h)
SbPageDown(s, n) == SbDown(s, Min2(n, 1000000) * s.h)
SbReset(s) == [s EXCEPT !.pos = 0]

-----------------------------------------------------------------------------
(* Scrolling *)

(* end points between the margins move with their line *)
SelIn(s, e) == e.k = "scr" /\ e.y >= s.mt /\ e.y <= s.mb
SelUp(s, e, n) ==
    IF ~SelIn(s, e) THEN e
    ELSE IF e.y - n >= s.mt THEN [e EXCEPT !.y = @ - n]
    ELSE IF s.alt THEN SelScr(0, s.mt)
    ELSE LET id == s.lid + 1 + (e.y - n - s.mt)
         IN IF SbHas(s, id) THEN SelSb(id, e.x) ELSE [SelTop EXCEPT !.x = e.x]
SelDown(s, e, n) ==
    IF ~SelIn(s, e) THEN e
    ELSE IF e.y + n <= s.mb THEN [e EXCEPT !.y = @ + n]
    ELSE SelScr(s.w - 1, s.mb)

(* the rows from a to b (0-based) move up by n, or down; blank rows follow *)
RowsUp(l, a, b, n, w, at) ==
    [i \in 1..Len(l) |->
        IF i < a + 1 \/ i > b + 1 THEN l[i]
        ELSE IF i + n <= b + 1 THEN l[i + n] ELSE BlankLine(w, at)]
RowsDown(l, a, b, n, w, at) ==
    [i \in 1..Len(l) |->
        IF i < a + 1 \/ i > b + 1 THEN l[i]
        ELSE IF i - n >= a + 1 THEN l[i - n] ELSE BlankLine(w, at)]

ScrollUp(s, num) ==
    IF num = 0 THEN s
    ELSE LET n == Min2(num, s.mb + 1 - s.mt)
             l == Lines(s)
             s1 == IF s.alt THEN s
                   ELSE FoldLeft(LAMBDA acc, ln : Push(acc, ln), s,
                                 SubSeq(l, s.mt + 1, s.mt + n))
             s2 == SetLines(s1, RowsUp(l, s.mt, s.mb, n, s.w, s.da))
         IN IF s.sel THEN [s2 EXCEPT !.ss = SelUp(s2, @, n),
                                     !.se = SelUp(s2, @, n)]
                     ELSE s2

ScrollDown(s, num) ==
    IF num = 0 THEN s
    ELSE LET n == Min2(num, s.mb + 1 - s.mt)
             s2 == SetLines(s, RowsDown(Lines(s), s.mt, s.mb, n, s.w, s.da))
         IN IF s.sel THEN [s2 EXCEPT !.ss = SelDown(s2, @, n),
                                     !.se = SelDown(s2, @, n)]
                     ELSE s2

-----------------------------------------------------------------------------
(* Size *)

ResizeLine(l, x, a) ==
    [i \in 1..x |-> IF i <= Len(l) THEN l[i] ELSE Blank(a)]
ResizeLines(l, x, y, a) ==
    [i \in 1..Max2(y, Len(l)) |->
        IF i <= Len(l) THEN ResizeLine(l[i], x, a) ELSE BlankLine(x, a)]

Resize(s, x, y) ==
    IF x = s.w /\ y = s.h THEN s
    ELSE LET ma == IF s.alt THEN s.dam ELSE s.da
             diff == Max2(0, s.h - y)
             s1 == [s EXCEPT !.mains = TLCEval(ResizeLines(@, x, y, ma)),
                             !.alts = TLCEval(ResizeLines(@, x, y, s.da)),
                             !.mt = 0, !.mb = s.h - 1, !.w = x,
                             !.tabs = TLCEval(TabsDefault(x)),
                             !.cx = Min2(@, x - 1)]
             s2 == ScrollUp(s1, diff)
             cy2 == IF diff = 0 THEN s.cy ELSE Max2(0, s.cy - diff)
         IN [s2 EXCEPT !.mains = SubSeq(@, 1, y), !.alts = SubSeq(@, 1, y),
                       !.h = y, !.mb = y - 1, !.cy = Min2(cy2, y - 1)]

SetMargins(s, top0, bottom) ==
    LET top == IF top0 = 0 THEN 1 ELSE top0
    IN IF bottom <= top \/ bottom > s.h
       THEN [s EXCEPT !.mt = 0, !.mb = s.h - 1]
       ELSE [s EXCEPT !.mt = top - 1, !.mb = bottom - 1]

SetDefAttr(s, a) == [s EXCEPT !.da = a]

ScrReset(s) ==
    [s EXCEPT !.ins = FALSE, !.wrap = FALSE, !.orig = FALSE, !.inv = FALSE,
              !.hide = FALSE, !.fix = FALSE, !.alt = FALSE,
              !.mt = 0, !.mb = s.h - 1, !.tabs = TLCEval(TabsDefault(s.w))]

SetFlags(s, f) ==
    [s EXCEPT !.ins = @ \/ HasBit(f, 1), !.wrap = @ \/ HasBit(f, 2),
              !.orig = @ \/ HasBit(f, 4), !.inv = @ \/ HasBit(f, 8),
              !.hide = @ \/ HasBit(f, 16), !.fix = @ \/ HasBit(f, 32),
              !.alt = @ \/ HasBit(f, 64),
              !.dam = IF HasBit(f, 64) /\ ~s.alt THEN s.da ELSE @]
ResetFlags(s, f) ==
    [s EXCEPT !.ins = @ /\ ~HasBit(f, 1), !.wrap = @ /\ ~HasBit(f, 2),
              !.orig = @ /\ ~HasBit(f, 4), !.inv = @ /\ ~HasBit(f, 8),
              !.hide = @ /\ ~HasBit(f, 16), !.fix = @ /\ ~HasBit(f, 32),
              !.alt = @ /\ ~HasBit(f, 64)]

-----------------------------------------------------------------------------
(* Cursor motion *)

MoveTo(s, x, y) ==
    LET last == IF s.orig THEN s.mb ELSE s.h - 1
        yy == IF s.orig THEN s.mt + y ELSE y
    IN MoveCur(s, Min2(x, s.w - 1), Min2(yy, last))

(* Up and down stop at the margin if they start in the scrolling region or
   before it, otherwise at the edge of the screen; only the margin scrolls. *)
MoveUp(s, num, scroll) ==
    LET inside == s.cy >= s.mt
        stop == IF inside THEN s.mt ELSE 0
        diff == s.cy - stop
    IN IF num = 0 THEN s
       ELSE IF num <= diff THEN MoveCur(s, s.cx, s.cy - num)
       ELSE LET s1 == IF scroll /\ stop = s.mt
                      THEN ScrollDown(s, num - diff) ELSE s
            IN MoveCur(s1, s.cx, stop)
MoveDown(s, num, scroll) ==
    LET inside == s.cy <= s.mb
        stop == IF inside THEN s.mb ELSE s.h - 1
        diff == stop - s.cy
    IN IF num = 0 THEN s
       ELSE IF num <= diff THEN MoveCur(s, s.cx, s.cy + num)
       ELSE LET s1 == IF scroll /\ stop = s.mb
                      THEN ScrollUp(s, num - diff) ELSE s
            IN MoveCur(s1, s.cx, stop)
MoveLeft(s, num) ==
    IF num = 0 THEN s
    ELSE MoveCur(s, Max2(0, Min2(s.cx, s.w - 1) - num), s.cy)
MoveRight(s, num) ==
    IF num = 0 THEN s
    ELSE MoveCur(s, Min2(s.w - 1, s.cx + Min2(num, s.w)), s.cy)
MoveLineEnd(s) == MoveCur(s, s.w - 1, s.cy)
MoveLineHome(s) == MoveCur(s, 0, s.cy)
Newline(s) == MoveLineHome(MoveDown(s, 1, TRUE))

-----------------------------------------------------------------------------
(* Tab stops: tabs[x+1] tells whether column x is a tab stop *)

SetTab(s) == IF s.cx >= s.w THEN s ELSE [s EXCEPT !.tabs[s.cx + 1] = TRUE]
ResetTab(s) == IF s.cx >= s.w THEN s ELSE [s EXCEPT !.tabs[s.cx + 1] = FALSE]
ResetAllTabs(s) == [s EXCEPT !.tabs = [i \in 1..s.w |-> FALSE]]

NextTab(s, x) ==
    LET c == {j \in x + 1 .. s.w - 1 : s.tabs[j + 1]}
    IN IF c = {} THEN s.w - 1 ELSE CHOOSE j \in c : \A k \in c : j <= k
PrevTab(s, x) ==
    LET c == {j \in 1 .. Min2(x, s.w) - 1 : s.tabs[j + 1]}
    IN IF c = {} THEN 0 ELSE CHOOSE j \in c : \A k \in c : j >= k

RECURSIVE NextTabN(_, _, _), PrevTabN(_, _, _)
NextTabN(s, x, n) ==
    IF n = 0 \/ x >= s.w - 1 THEN Min2(x, s.w - 1)
    ELSE NextTabN(s, NextTab(s, x), n - 1)
PrevTabN(s, x, n) ==
    IF n = 0 \/ x = 0 THEN x ELSE PrevTabN(s, PrevTab(s, x), n - 1)

TabRight(s, n) == IF n = 0 THEN s
                  ELSE MoveCur(s, NextTabN(s, s.cx, n), s.cy)
TabLeft(s, n) == IF n = 0 THEN s ELSE MoveCur(s, PrevTabN(s, s.cx, n), s.cy)

-----------------------------------------------------------------------------
(* Content *)

PutChar(l, x, ch, len, at, ins) ==
    LET w == Len(l)
        m == IF ins /\ x + len < w
             THEN [i \in 1..w |-> IF i > x + len THEN l[i - len] ELSE l[i]]
             ELSE l
    IN [i \in 1..w |->
            IF i = x + 1 THEN <<ch, len, at>>
            ELSE IF i > x + 1 /\ i <= x + len THEN [m[i] EXCEPT ![2] = 0]
            ELSE m[i]]

(* len is the width of ch *)
Write(s, ch, len, at) ==
    IF len = 0 THEN s
    ELSE LET last == IF s.cy <= s.mb THEN s.mb ELSE s.h - 1
             s1 == IF s.cx < s.w THEN s
                   ELSE IF s.wrap THEN MoveCur(s, 0, s.cy + 1)
                   ELSE MoveCur(s, s.w - 1, s.cy)
             s2 == IF s1.cy <= last THEN s1
                   ELSE LET s3 == MoveCur(s1, s1.cx, last)
                        IN IF last = s.mb THEN ScrollUp(s3, 1) ELSE s3
             s4 == SetLine(s2, s2.cy,
                           PutChar(Line(s2, s2.cy), s2.cx, ch, len, at, s.ins))
         IN MoveCur(s4, s2.cx + len, s2.cy)

InsertLines(s, num) ==
    IF num = 0 \/ s.cy < s.mt \/ s.cy > s.mb THEN s
    ELSE [SetLines(s, RowsDown(Lines(s), s.cy, s.mb,
                               Min2(num, s.mb - s.cy + 1), s.w, s.da))
          EXCEPT !.cx = 0]
DeleteLines(s, num) ==
    IF num = 0 \/ s.cy < s.mt \/ s.cy > s.mb THEN s
    ELSE [SetLines(s, RowsUp(Lines(s), s.cy, s.mb,
                             Min2(num, s.mb - s.cy + 1), s.w, s.da))
          EXCEPT !.cx = 0]

InsertChars(s, num) ==
    IF num = 0 THEN s
    ELSE LET x == Min2(s.cx, s.w - 1)
             n == Min2(num, s.w - x)
             l == Line(s, s.cy)
         IN [SetLine(s, s.cy,
                [i \in 1..s.w |-> IF i <= x THEN l[i]
                                  ELSE IF i <= x + n THEN Blank(s.da)
                                  ELSE l[i - n]])
             EXCEPT !.cx = x]
DeleteChars(s, num) ==
    IF num = 0 THEN s
    ELSE LET x == Min2(s.cx, s.w - 1)
             n == Min2(num, s.w - x)
             l == Line(s, s.cy)
         IN [SetLine(s, s.cy,
                [i \in 1..s.w |-> IF i <= x THEN l[i]
                                  ELSE IF i + n <= s.w THEN l[i + n]
                                  ELSE Blank(s.da)])
             EXCEPT !.cx = x]

(* the cells from (x1,y1) to (x2,y2) in reading order *)
EraseRegion(s, x1, y1, x2, y2, protect) ==
    LET l == Lines(s)
        In(x, y) == /\ y > y1 \/ (y = y1 /\ x >= x1)
                    /\ y < y2 \/ (y = y2 /\ x <= x2)
        Keep(c) == protect /\ c[3][13] = 1
    IN SetLines(s, [i \in 1..s.h |->
          IF i - 1 < y1 \/ i - 1 > y2 THEN l[i]
          ELSE [j \in 1..s.w |-> IF In(j - 1, i - 1) /\ ~Keep(l[i][j])
                                 THEN Blank(s.da) ELSE l[i][j]]])
CurX(s) == Min2(s.cx, s.w - 1)
EraseCursor(s) == EraseRegion(s, CurX(s), s.cy, CurX(s), s.cy, FALSE)
EraseChars(s, n) ==
    IF n = 0 THEN s
    ELSE EraseRegion(s, CurX(s), s.cy, Min2(CurX(s) + n - 1, s.w - 1), s.cy,
                     FALSE)
EraseCursorToEnd(s, p) == EraseRegion(s, CurX(s), s.cy, s.w - 1, s.cy, p)
EraseHomeToCursor(s, p) == EraseRegion(s, 0, s.cy, CurX(s), s.cy, p)
EraseLine(s, p) == EraseRegion(s, 0, s.cy, s.w - 1, s.cy, p)
EraseScreenToCursor(s, p) == EraseRegion(s, 0, 0, CurX(s), s.cy, p)
EraseCursorToScreen(s, p) ==
    EraseRegion(s, CurX(s), s.cy, s.w - 1, s.h - 1, p)
EraseScreen(s, p) == EraseRegion(s, 0, 0, s.w - 1, s.h - 1, p)

-----------------------------------------------------------------------------
(* Selection *)

(* position x,y of the current view *)
SelAt(s, x, y) ==
    IF s.pos = 0 THEN SelScr(x, y)
    ELSE IF s.pos + y <= s.lid THEN SelSb(s.pos + y, x)
    ELSE SelScr(x, y - (s.lid - s.pos + 1))
(* positions outside of the screen stand for the nearest cell *)
SelNear(s, x, y) == SelAt(s, Min2(x, s.w - 1), Min2(y, s.h - 1))
SelStart(s, x, y) == [s EXCEPT !.sel = TRUE, !.ss = SelNear(s, x, y),
                               !.se = SelNear(s, x, y)]
SelTarget(s, x, y) == IF s.sel THEN [s EXCEPT !.se = SelNear(s, x, y)] ELSE s
SelReset(s) == [s EXCEPT !.sel = FALSE]

(* one number line for all rows: the screen starts at 0, the scrollback is
   below it, and lines that are gone are below that *)
SelRow(s, e) == CASE e.k = "top" -> 0 - Len(s.sb) - 1
                  [] e.k = "sb" -> e.id - s.lid - 1
                  [] e.k = "scr" -> e.y
SelRowLine(s, r) == IF r < 0 THEN s.sb[Len(s.sb) + 1 + r] ELSE Line(s, r)

SelLe(s, a, b) == \/ SelRow(s, a) < SelRow(s, b)
                  \/ SelRow(s, a) = SelRow(s, b) /\ a.x <= b.x

(* columns of a line up to the last character *)
TextLen(s, l) ==
    LET c == {i \in 1..Min2(Len(l), s.w) : l[i][1] # 0}
    IN IF c = {} THEN 0 ELSE CHOOSE i \in c : \A k \in c : k <= i

(* cells from column x up to (excluding) column to *)
RECURSIVE CellText(_, _, _)
CellText(l, x, to) ==
    IF x >= to THEN <<>>
    ELSE LET c == l[x + 1]
         IN (IF c[2] = 0 THEN <<>>
             ELSE IF c[1] = 0 THEN <<32>> ELSE Utf8Encode(c[1]))
            \o CellText(l, x + 1, to)
LineText(s, l, x, to) ==
    IF x > TextLen(s, l) THEN <<>>
    ELSE CellText(l, x, Min2(to, TextLen(s, l))) \o <<10>>

RECURSIVE CopyRows(_, _, _, _, _, _)
CopyRows(s, r, x1, r2, x2, acc) ==
    IF r > r2 \/ r >= s.h THEN acc
    ELSE CopyRows(s, r + 1, 0, r2, x2,
                  acc \o LineText(s, SelRowLine(s, r), x1,
                                  IF r = r2 THEN x2 + 1 ELSE s.w))

(* <<return value, text>>; -2 is ENOENT *)
SelCopy(s) ==
    IF ~s.sel THEN [r |-> 0 - 2, t |-> <<>>]
    ELSE IF s.ss.k = "top" /\ s.se.k = "top" THEN [r |-> 0, t |-> <<>>]
    ELSE LET swap == ~SelLe(s, s.ss, s.se)
             a == IF swap THEN s.se ELSE s.ss
             b == IF swap THEN s.ss ELSE s.se
             r1 == IF a.k = "top" THEN 0 - Len(s.sb) ELSE SelRow(s, a)
             x1 == IF a.k = "top" THEN 0 ELSE a.x
             t == CopyRows(s, r1, x1, SelRow(s, b), b.x, <<>>)
             u == IF t = <<>> THEN t ELSE SubSeq(t, 1, Len(t) - 1)
         IN [r |-> Len(u), t |-> u]

-----------------------------------------------------------------------------
(* What a renderer sees *)

(* row r of the view is either a scrollback line or a line of the screen *)
ViewSbRows(s) == IF s.pos = 0 THEN 0 ELSE Min2(s.h, s.lid - s.pos + 1)
ViewRowNum(s, i) ==        \* in terms of SelRow
    IF i < ViewSbRows(s) THEN s.pos + i - s.lid - 1 ELSE i - ViewSbRows(s)

Flip(a) == [a EXCEPT ![12] = 1 - @]

(* a cell is highlighted if it is between the end points, including them *)
Highlighted(s, row, j) ==
    s.sel /\ LET swap == ~SelLe(s, s.ss, s.se)
                 a == IF swap THEN s.se ELSE s.ss
                 b == IF swap THEN s.ss ELSE s.se
             IN /\ SelRow(s, a) < row \/ (SelRow(s, a) = row /\ a.x <= j)
                /\ SelRow(s, b) > row \/ (SelRow(s, b) = row /\ b.x >= j)

(* cell j of view row i: <<char, width, attr, length of the drawn string>>;
   blank cells have no string, neither have spaces that are not underlined.
   <<>> stands for a cell beyond the end of a line, which is blank. *)
ViewCell(s, i, j) ==
    LET row == ViewRowNum(s, i)
        l == SelRowLine(s, row)
        flips == (IF row = s.cy /\ j = CurX(s) /\ ~s.hide THEN 1 ELSE 0) +
                 (IF s.inv THEN 1 ELSE 0) +
                 (IF Highlighted(s, row, j) THEN 1 ELSE 0)
    IN IF j + 1 > Len(l) THEN <<>>
       ELSE LET c == l[j + 1]
                a == IF flips % 2 = 1 THEN Flip(c[3]) ELSE c[3]
            IN IF c[1] = 0 \/ (c[1] = 32 /\ a[11] = 0)
               THEN <<0, c[2], a, 0>> ELSE <<c[1], c[2], a, 1>>
ViewRow(s, i) == [j \in 1..s.w |-> ViewCell(s, i, j - 1)]
=============================================================================
