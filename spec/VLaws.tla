------------------------------- MODULE VLaws -------------------------------
(***************************************************************************)
(* The properties of the terminal emulator, stated independently of        *)
(* Vte.tla: what a sequence of the input, a key or a mouse event means.    *)
(* st and b are the states before and after; g is a ghost, a value that is *)
(* determined by the history of the operations alone.                      *)
(***************************************************************************)
EXTENDS Laws

SameV(st, b, except) == \A f \in DOMAIN st.v \ except : b.v[f] = st.v[f]
HasPrefix(bs, pre) == Len(bs) >= Len(pre) /\ SubSeq(bs, 1, Len(pre)) = pre

(* all data sent to the client *)
Sent(out) == FoldLeft(LAMBDA acc, e : IF e[1] = "w" THEN acc \o e[2] ELSE acc,
                      <<>>, out)
(* a complete control sequence: [ok, pre, ps, f]; -1 is an absent parameter *)
RECURSIVE Numbers(_, _, _)
Numbers(bs, i, ps) ==
    IF i > Len(bs) THEN ps
    ELSE IF bs[i] = 59 THEN Numbers(bs, i + 1, Append(ps, 0 - 1))
    ELSE LET d == bs[i] - 48
             l == ps[Len(ps)]
         IN Numbers(bs, i + 1,
                    [ps EXCEPT ![Len(ps)] = IF l < 0 THEN d ELSE l * 10 + d])
Sequence(bs) ==
    LET n == Len(bs)
        pre == IF n > 3 /\ bs[3] \in 60..63 THEN bs[3] ELSE 0
        mid == SubSeq(bs, IF pre = 0 THEN 3 ELSE 4, n - 1)
    IN IF ~(HasPrefix(bs, <<27, 91>>) /\ n > 2 /\ bs[n] \in 64..126)
          \/ \E i \in 1..Len(mid) : mid[i] \notin (48..57) \cup {59}
       THEN [ok |-> FALSE, pre |-> 0, ps |-> <<0 - 1>>, f |-> 0]
       ELSE [ok |-> TRUE, pre |-> pre, ps |-> Numbers(mid, 1, <<0 - 1>>),
             f |-> bs[n]]
(* the i-th parameter, or its default *)
Par(q, i, d) == IF i <= Len(q.ps) /\ q.ps[i] > 0 THEN q.ps[i] ELSE d

(* the operation on the screen that an input stands for; <<>> if none *)
Meaning(bs) ==
    LET q == Sequence(bs)
        n == Par(q, 1, 1)
        p == Par(q, 1, 0)
        prot == IF q.pre = 63 THEN 1 ELSE 0
    IN CASE bs = <<27, 77>> -> <<"moveup", 1, 1>>
         [] bs = <<27, 68>> -> <<"movedown", 1, 1>>
         [] bs = <<27, 69>> -> <<"newline">>
         [] bs = <<27, 72>> -> <<"settab">>
         [] bs = <<8>> -> <<"moveleft", 1>>
         [] bs = <<9>> -> <<"tabr", 1>>
         [] bs = <<13>> -> <<"linehome">>
         [] q.ok /\ q.pre = 63 /\ q.f = 74 /\ p < 3 ->
              <<<<"ects", "estc", "escr">>[p + 1], prot>>
         [] q.ok /\ q.pre = 63 /\ q.f = 75 /\ p < 3 ->
              <<<<"ecte", "ehtc", "eline">>[p + 1], prot>>
         [] q.ok /\ q.pre = 0 ->
              CASE q.f = 65 -> <<"moveup", n, 0>>
                [] q.f = 66 -> <<"movedown", n, 0>>
                [] q.f = 67 -> <<"moveright", n>>
                [] q.f = 68 -> <<"moveleft", n>>
                [] q.f \in {72, 102} -> <<"moveto", Par(q, 2, 1) - 1, n - 1>>
                [] q.f = 64 -> <<"inschars", n>>
                [] q.f = 80 -> <<"delchars", n>>
                [] q.f = 76 -> <<"inslines", n>>
                [] q.f = 77 -> <<"dellines", n>>
                [] q.f = 83 -> <<"scrollup", n>>
                [] q.f = 84 -> <<"scrolldown", n>>
                [] q.f = 88 -> <<"erasechars", n>>
                [] q.f = 73 -> <<"tabr", n>>
                [] q.f = 90 -> <<"tabl", n>>
                [] q.f = 103 /\ p = 0 -> <<"rsttab">>
                [] q.f = 103 /\ p = 3 -> <<"rstall">>
                [] q.f = 74 /\ p < 3 ->
                     <<<<"ects", "estc", "escr">>[p + 1], 0>>
                [] q.f = 75 /\ p < 3 ->
                     <<<<"ecte", "ehtc", "eline">>[p + 1], 0>>
                [] OTHER -> <<>>
         [] OTHER -> <<>>

(* positioning that is not one operation of the screen *)
LawPosition(s, bs, a) ==
    LET q == Sequence(bs)
        n == Par(q, 1, 1)
        top == IF s.orig THEN s.mt ELSE 0
        bot == IF s.orig THEN s.mb ELSE s.h - 1
        at(x, y) == a.cx = x /\ a.cy = y /\ Same(s, a, {"cx", "cy"})
    IN q.ok /\ q.pre = 0 =>
       CASE q.f = 71 -> at(AtMost(n - 1, s.w - 1), s.cy)
         [] q.f = 100 -> at(AtMost(s.cx, s.w - 1), AtMost(top + n - 1, bot))
         [] q.f = 101 -> at(AtMost(s.cx, s.w - 1),
                            AtLeast(AtMost(s.cy + n, bot), top))
         [] q.f = 69 -> at(0, AtMost(s.cy + n, IF s.cy <= s.mb THEN s.mb
                                               ELSE s.h - 1))
         [] q.f = 70 -> at(0, AtLeast(s.cy - n, IF s.cy >= s.mt THEN s.mt
                                                ELSE 0))
         [] OTHER -> TRUE

(* in the ground state, a sequence means what it stands for *)
LawMeaning(st, bs, b) ==
    st.v.ps = "ground" =>
      /\ Meaning(bs) # <<>> => ScreenLaw(st.s, Meaning(bs), b.s)
      /\ LawPosition(st.s, bs, b.s)

-----------------------------------------------------------------------------
(* C14 *)

(* what a single parameter sets: pairs of a field and its value *)
SgrSets(p, d) ==
    LET fg(c) == {<<1, c>>}
        bg(c) == {<<2, c>>}
    IN CASE p <= 0 -> {<<k, 0>> : k \in {9, 10, 11, 12, 14}}
                      \cup fg(d[1]) \cup bg(d[2])
         [] p = 1 -> {<<9, 1>>} [] p = 22 -> {<<9, 0>>}
         [] p = 3 -> {<<10, 1>>} [] p = 23 -> {<<10, 0>>}
         [] p = 4 -> {<<11, 1>>} [] p = 24 -> {<<11, 0>>}
         [] p = 5 -> {<<14, 1>>} [] p = 25 -> {<<14, 0>>}
         [] p = 7 -> {<<12, 1>>} [] p = 27 -> {<<12, 0>>}
         [] p \in 30..37 -> fg(p - 30) [] p = 39 -> fg(d[1])
         [] p \in 40..47 -> bg(p - 40) [] p = 49 -> bg(d[2])
         [] p \in 90..97 -> fg(p - 90 + 8)
         [] p \in 100..107 -> bg(p - 100 + 8)
         [] OTHER -> {}

Fields(base) == IF base = 38 THEN <<1, 3, 4, 5>> ELSE <<2, 6, 7, 8>>

(* the 256 colours *)
Index256(n) ==
    IF n < 16 THEN {<<n, 0, 0, 0>>}
    ELSE IF n < 232
    THEN {<<0 - 1, Cube[r + 1], Cube[g + 1], Cube[bb + 1]>> :
            <<r, g, bb>> \in {x \in (0..5) \X (0..5) \X (0..5) :
                               16 + 36 * x[1] + 6 * x[2] + x[3] = n}}
    ELSE {<<0 - 1, 8 + 10 * (n - 232), 8 + 10 * (n - 232),
            8 + 10 * (n - 232)>>}

(* the colours of an attribute are those of its codes *)
ColourOk(v, a) ==
    LET p == Palette(v.pal, v.custom)
        f == IF a[1] \in 0..7 /\ a[9] = 1 THEN a[1] + 8
             ELSE IF a[1] > 17 THEN 16 ELSE a[1]
        k == IF a[2] > 17 THEN 17 ELSE a[2]
    IN /\ a[1] >= 0 => <<a[3], a[4], a[5]>> = p[f + 1]
       /\ a[2] >= 0 => <<a[6], a[7], a[8]>> = p[k + 1]

SgrIn(ps) == LET RECURSIVE J(_)
                 J(l) == IF l = <<>> THEN <<>>
                         ELSE IF Len(l) = 1
                         THEN (IF l[1] < 0 THEN <<>> ELSE Dec(l[1]))
                         ELSE (IF l[1] < 0 THEN <<>> ELSE Dec(l[1]))
                              \o <<59>> \o J(Tail(l))
             IN <<"in", <<27, 91>> \o J(ps) \o <<109>>>>

(* the first of the parts that a list of parameters consists of *)
SgrHead(ps) ==
    IF ps[1] \in {38, 48} /\ Len(ps) >= 3 /\ ps[2] = 5 /\ ps[3] >= 0 THEN 3
    ELSE IF ps[1] \in {38, 48} /\ Len(ps) >= 5 /\ ps[2] = 2
            /\ \A i \in 3..5 : ps[i] >= 0 THEN 5
    ELSE 1

LawSgr(st, o, b) ==
    LET q == Sequence(o[2])
        ps == SubSeq(q.ps, 1, Min2(16, Len(q.ps)))
        h == SgrHead(ps)
        a == st.v.ca
        c == b.v.ca
        d == DefAttr(st.v)
    IN o[1] = "in" /\ st.v.ps = "ground" /\ q.ok /\ q.pre = 0 /\ q.f = 109 =>
       /\ SameV(st, b, {"ca", "argc", "argv", "cf", "osc"})
       /\ Same(st.s, b.s, {"da"})
       /\ Has(st, "bce") => b.s.da = c
       /\ ~Has(st, "bce") => b.s.da = st.s.da
       /\ b.out = <<>>
       /\ ColourOk(b.v, c)
       /\ IF Len(ps) > h
          THEN LET x == Apply(st, SgrIn(SubSeq(ps, 1, h))).st
                   y == Apply(x, SgrIn(SubSeq(ps, h + 1, Len(ps)))).st
               \* alone, an absent parameter is a 0; in a list it is ignored
               IN (\A i \in 1..Len(ps) : ps[i] >= 0) => c = y.v.ca
          ELSE CASE h = 1 ->
                    LET s == IF ps[1] \in {38, 48} THEN {} ELSE SgrSets(ps[1], d)
                    IN /\ \A k \in (1..14) \ (3..8) :
                            IF \E x \in s : x[1] = k THEN <<k, c[k]>> \in s
                            ELSE c[k] = a[k]
                       \* direct colours stay, unless replaced
                       /\ c[1] < 0 => \A k \in 3..5 : c[k] = a[k]
                       /\ c[2] < 0 => \A k \in 6..8 : c[k] = a[k]
                 [] h = 3 /\ ps[3] > 255 -> TRUE
                 [] OTHER ->
                    LET f == Fields(ps[1])
                        old == Fields(86 - ps[1])
                        new == IF h = 3 THEN Index256(ps[3])
                               ELSE {<<0 - 1, ps[3] % 256, ps[4] % 256,
                                       ps[5] % 256>>}
                    IN /\ \A k \in 9..14 : c[k] = a[k]
                       /\ \A i \in 1..4 : c[old[i]] = a[old[i]]
                       /\ \E n \in new :
                            IF n[1] >= 0 THEN c[f[1]] = n[1]
                            ELSE \A i \in 1..4 : c[f[i]] = n[i]

(* a new terminal *)
LawVteNew(w, h) ==
    LET st == VteInit(ScrInit(w, h))
        c == DefAttr(st.v)
    IN /\ st.v.ca = c /\ st.s.da = c /\ st.v.pal = "" /\ st.v.ps = "ground"
       /\ st.s.cx = 0 /\ st.s.cy = 0 /\ st.out = <<>>
       /\ \A y \in Rows(st.s), x \in Cols(st.s) : Cell(st.s, x, y) = Blank(c)
ASSUME \A w \in {1, 3}, h \in 1..2 : LawVteNew(w, h)
(* on a screen with content, too *)
ASSUME LET t == Write(Write(ScrInit(3, 2), 88, 1, AttrNew), 89, 1,
                      [AttrNew EXCEPT ![13] = 1])
           b == VteInit(t)
       IN \A y \in Rows(t), x \in Cols(t) :
             Cell(b.s, x, y) = Blank(DefAttr(b.v))

LawPalette(st, o, b) ==
    o[1] \in {"pal", "cpal"} =>
        LET p == Palette(b.v.pal, b.v.custom)
            c == b.v.ca
        IN /\ <<c[3], c[4], c[5], c[6], c[7], c[8]>> = p[17] \o p[18]
           /\ c[1] = 16 /\ c[2] = 17 /\ \A k \in 9..14 : c[k] = 0
           /\ b.s.da = c
           /\ \A y \in Rows(b.s), x \in Cols(b.s) : Cell(b.s, x, y) = Blank(c)
           /\ Same(st.s, b.s, {Buffer(st.s), "da"})

(* what is printed has the attributes; c is the character *)
LawPrinted(st, c, b) ==
    st.v.ps = "ground" =>
        LawPrint(st.s, c, [i \in 1..14 |-> st.v.ca[i]], b.s)

-----------------------------------------------------------------------------
(* C15 *)

SavedNone(v) == [x |-> 0, y |-> 0, a |-> DefAttr(v), gl |-> 0, gr |-> 1,
                 wrap |-> TRUE, orig |-> FALSE]
SoftReset == <<27, 91, 33, 112>>
HardReset == <<27, 99>>
IsHard(o) == o[1] = "vhard" \/ (o[1] = "in" /\ o[2] = HardReset)
IsSoft(o) == \/ o[1] = "vreset"
             \/ o[1] = "in" /\ o[2] \in {SoftReset, <<27, 91, 62, 112>>}

InitialModes == {"tcem", "arm", "srm", "awm", "bce"}

Is(o, bs) == o[1] = "in" /\ o[2] = bs
(* 7 and 8 bit controls *)
LawControls(st, o, b) ==
    /\ Is(o, <<27, 32, 70>>) =>
         /\ b.v.fl = st.v.fl \ {"c1"} /\ b.s = st.s /\ b.out = <<>>
         /\ SameV(st, b, {"fl", "argc", "argv", "cf", "osc"})
    /\ Is(o, <<27, 32, 71>>) =>
         /\ b.v.fl = st.v.fl \cup {"c1"} /\ b.s = st.s /\ b.out = <<>>
         /\ SameV(st, b, {"fl", "argc", "argv", "cf", "osc"})
(* a conformance level is selected: everything is reset *)
LawLevel(st, o, b) ==
    \A lv \in 60..64, c \in 0..2 :
        Is(o, <<27, 91>> \o Dec(lv) \o (IF c = 0 THEN <<>> ELSE <<59>> \o Dec(c))
              \o <<34, 112>>) =>
          LET r == VteReset(st)
          IN /\ b.s = r.s /\ Sent(b.out) = <<>>
             /\ SameV(r, b, {"fl", "g", "argc", "argv", "cf", "osc"})
             /\ b.v.fl = InitialModes \cup
                    (CASE lv = 60 -> {} [] lv = 61 -> {"m7"}
                       [] OTHER -> IF c = 0 THEN {"m8"} ELSE {"m8", "c1"})
             /\ b.v.g = IF lv = 60 THEN r.v.g
                        ELSE <<"lower", "supplemental", "lower", "upper">>

DecModeOp(o, p, f) == Is(o, <<27, 91, 63>> \o Dec(p) \o <<f>>)
(* setting and resetting one mode: <<mode of the terminal, of the screen>> *)
ModeTable == {<<FALSE, 2, "kam", "">>, <<FALSE, 4, "irm", "ins">>,
              <<FALSE, 12, "srm", "">>, <<FALSE, 20, "lnm", "">>,
              <<TRUE, 1, "ckm", "">>, <<TRUE, 5, "scnm", "inv">>,
              <<TRUE, 6, "om", "orig">>, <<TRUE, 7, "awm", "wrap">>,
              <<TRUE, 8, "arm", "">>, <<TRUE, 25, "tcem", "hide">>,
              <<TRUE, 42, "nrcm", "">>}
ModeOp(o, dec, p, f) ==
    IF dec THEN DecModeOp(o, p, f) ELSE Is(o, <<27, 91>> \o Dec(p) \o <<f>>)
LawMode(st, o, b) ==
    /\ \A m \in ModeTable, on \in BOOLEAN :
         ModeOp(o, m[1], m[2], IF on THEN 104 ELSE 108) =>
           /\ b.v.fl = (IF on THEN st.v.fl \cup {m[3]} ELSE st.v.fl \ {m[3]})
           /\ Modes(b.s) =
                IF m[4] = "" THEN Modes(st.s)
                ELSE IF on # (m[4] = "hide") THEN Modes(st.s) \cup {m[4]}
                ELSE Modes(st.s) \ {m[4]}
           /\ Same(st.s, b.s, ModeFields) /\ b.out = <<>>
           /\ SameV(st, b, {"fl", "argc", "argv", "cf", "osc"})
    /\ \A p \in {47, 1047, 1049}, on \in BOOLEAN :
         DecModeOp(o, p, IF on THEN 104 ELSE 108) =>
           LET s == st.s
               a == b.s
           IN /\ Modes(a) = IF on THEN Modes(s) \cup {"alt"}
                            ELSE Modes(s) \ {"alt"}
              /\ Same(s, a, {"alt", "alts", "dam"}
                            \cup (IF p = 1049 /\ ~on THEN {"cx", "cy"} ELSE {}))
              /\ IF (p = 1049 /\ on) \/ (p = 1047 /\ ~on /\ s.alt)
                 THEN \A y \in 1..s.h, x \in 1..s.w :
                         a.alts[y][x] = Blank(s.da)
                 ELSE a.alts = s.alts
              /\ b.out = <<>>
              /\ SameV(st, b, {"argc", "argv", "cf", "osc"}
                              \cup (IF p = 1049 /\ on THEN {"ax", "ay"}
                                    ELSE {}))
IsLevel(o) == o[1] = "in" /\ Len(o[2]) > 4
              /\ o[2][Len(o[2]) - 1] = 34 /\ o[2][Len(o[2])] = 112

(* ghost: [sv, ax, ay], what was saved last *)
SavedGhost0(st) == [sv |-> SavedNone(st.v), ax |-> 0, ay |-> 0]
SavedGhost(g, st, o, b) ==
    IF IsHard(o) \/ IsSoft(o) \/ IsLevel(o)
    THEN SavedGhost0(b)
    ELSE IF Is(o, <<27, 55>>)
    THEN [g EXCEPT !.sv = [x |-> st.s.cx, y |-> st.s.cy, a |-> st.v.ca,
                           gl |-> st.v.gl, gr |-> st.v.gr,
                           wrap |-> Has(st, "awm"), orig |-> Has(st, "om")]]
    ELSE IF DecModeOp(o, 1048, 104) \/ DecModeOp(o, 1049, 104)
    THEN [g EXCEPT !.ax = st.s.cx, !.ay = st.s.cy]
    ELSE g

LawSaved(st, o, b, g) ==
    /\ LawControls(st, o, b)
    /\ LawLevel(st, o, b)
    /\ Is(o, <<27, 55>>) => st.s = b.s /\ b.out = <<>>
         /\ SameV(st, b, {"saved", "argc", "argv", "cf", "osc"})
    /\ Is(o, <<27, 56>>) =>
         /\ b.s.cx = AtMost(g.sv.x, st.s.w - 1)
         /\ b.s.cy = AtMost(g.sv.y, st.s.h - 1)
         /\ b.v.ca = ToRgb(st.v, g.sv.a)
         /\ b.v.gl = g.sv.gl /\ b.v.gr = g.sv.gr
         /\ Has(b, "awm") = g.sv.wrap /\ b.s.wrap = g.sv.wrap
         /\ Has(b, "om") = g.sv.orig /\ b.s.orig = g.sv.orig
         /\ b.v.fl \ {"awm", "om"} = st.v.fl \ {"awm", "om"}
         /\ b.out = <<>>
         /\ SameV(st, b, {"ca", "gl", "gr", "fl", "argc", "argv", "cf", "osc"})
         /\ Same(st.s, b.s, {"cx", "cy", "wrap", "orig", "da"})
    /\ DecModeOp(o, 1048, 108) \/ DecModeOp(o, 1049, 108) =>
         /\ b.s.cx = AtMost(g.ax, st.s.w - 1)
         /\ b.s.cy = AtMost(g.ay, st.s.h - 1)
    /\ IsSoft(o) \/ IsHard(o) =>
         /\ b.v.fl = InitialModes
         /\ b.v.g = <<"lower", "upper", "lower", "upper">>
         /\ b.v.gl = 0 /\ b.v.gr = 1 /\ b.v.glt = 0
         /\ b.v.mm = 0 /\ b.v.me = 0
         /\ b.v.ca = DefAttr(st.v) /\ b.s.da = DefAttr(st.v)
         /\ b.v.ps = "ground"
         /\ Sent(b.out) = <<>>
         /\ b.s.mt = 0 /\ b.s.mb = b.s.h - 1
         /\ TabSet(b.s) = {x \in Cols(b.s) : x % 8 = 0}
         /\ b.s.wrap /\ ~b.s.orig /\ ~b.s.ins /\ ~b.s.inv /\ ~b.s.hide
         /\ ~b.s.alt
         /\ b.s.w = st.s.w /\ b.s.h = st.s.h
    /\ IsSoft(o) => b.s.mains = st.s.mains /\ b.s.alts = st.s.alts
                    /\ b.s.sb = st.s.sb
    /\ IsHard(o) => /\ b.s.cx = 0 /\ b.s.cy = 0 /\ b.s.sb = <<>>
                    /\ \A y \in Rows(b.s), x \in Cols(b.s) :
                          b.s.mains[y + 1][x + 1] = Blank(DefAttr(st.v))

-----------------------------------------------------------------------------
(* C16: the ghost is the state of the character sets, [g, gl, gr, ss] *)

SetsGhost0 == [g |-> <<"lower", "upper", "lower", "upper">>, gl |-> 1,
               gr |-> 2, ss |-> 0]
SetsGhost(g, o) ==
    IF o[1] # "in" THEN g
    ELSE LET bs == o[2] IN
      CASE Len(bs) = 3 /\ bs[1] = 27 /\ bs[2] \in 40..43
           /\ bs[3] \in {66, 60, 48, 65} ->
             [g EXCEPT !.g[bs[2] - 39] =
                CASE bs[3] = 66 -> "lower" [] bs[3] = 60 -> "supplemental"
                  [] bs[3] = 48 -> "special" [] OTHER -> "upper"]
        [] bs = <<15>> -> [g EXCEPT !.gl = 1]
        [] bs = <<14>> -> [g EXCEPT !.gl = 2]
        [] bs = <<27, 110>> -> [g EXCEPT !.gl = 3]
        [] bs = <<27, 111>> -> [g EXCEPT !.gl = 4]
        [] bs = <<27, 126>> -> [g EXCEPT !.gr = 2]
        [] bs = <<27, 125>> -> [g EXCEPT !.gr = 3]
        [] bs = <<27, 124>> -> [g EXCEPT !.gr = 4]
        [] bs = <<27, 78>> -> [g EXCEPT !.ss = 3]
        [] bs = <<27, 79>> -> [g EXCEPT !.ss = 4]
        [] Len(bs) = 1 /\ bs[1] \in 33..126 -> [g EXCEPT !.ss = 0]
        [] OTHER -> g

(* the character that input bytes are shown as; c is what they stand for *)
Shown(g, c) ==
    CASE c \in 33..126 ->
           Charset(g.g[IF g.ss # 0 THEN g.ss ELSE g.gl], c - 32)
      [] c \in 161..254 -> Charset(g.g[g.gr], c - 160)
      [] OTHER -> c
(* the code point of well-formed UTF-8 for one character *)
CodePoint(bs) ==
    CASE Len(bs) = 1 -> bs[1]
      [] Len(bs) = 2 -> (bs[1] - 192) * 64 + bs[2] - 128
      [] Len(bs) = 3 -> (bs[1] - 224) * 4096 + (bs[2] - 128) * 64
                        + bs[3] - 128
      [] OTHER -> (bs[1] - 240) * 262144 + (bs[2] - 128) * 4096
                  + (bs[3] - 128) * 64 + bs[4] - 128
IsGraphic(bs) == \/ Len(bs) = 1 /\ bs[1] \in 32..127
                 \/ Len(bs) > 1 /\ bs[1] >= 194 /\ CodePoint(bs) >= 160
LawSets(st, o, b, g) ==
    /\ o[1] = "in" /\ IsGraphic(o[2]) =>
         LET c == Shown(g, CodePoint(o[2]))
         IN \* positions without a character show nothing
            LawPrint(st.s, c, [i \in 1..14 |-> st.v.ca[i]], b.s)
    /\ o[1] = "in" /\ ~IsGraphic(o[2]) => b.s = st.s

-----------------------------------------------------------------------------
(* C17 *)

DaReply == <<27, 91, 63, 54, 48, 59, 49, 59, 54, 59, 57, 59, 49, 53, 99>>
Da2Reply == <<27, 91, 62, 49, 59, 49, 59, 48, 99>>
(* what has to be sent for an input *)
ExpectedReply(st, bs) ==
    LET q == Sequence(bs)
        p == Par(q, 1, 0)
        x == AtMost(st.s.cx, st.s.w - 1) + 1
        y == IF st.s.orig THEN AtLeast(st.s.cy - st.s.mt, 0) + 1
             ELSE st.s.cy + 1
    IN CASE bs = <<5>> -> <<6>>
         [] bs \in {<<27, 90>>, <<194, 154>>} -> DaReply
         [] q.ok /\ q.f = 99 /\ q.pre = 0 /\ p = 0 /\ Len(q.ps) = 1 -> DaReply
         [] q.ok /\ q.f = 99 /\ q.pre = 62 /\ p = 0 /\ Len(q.ps) = 1 ->
              Da2Reply
         [] q.ok /\ q.f = 110 /\ q.pre \in {0, 63} /\ p = 5 ->
              <<27, 91, 48, 110>>
         [] q.ok /\ q.f = 110 /\ q.pre \in {0, 63} /\ p = 6 ->
              <<27, 91>> \o Dec(y) \o <<59>> \o Dec(x) \o <<82>>
         [] OTHER -> <<>>
LawReply(st, o, b) ==
    /\ o[1] = "in" /\ st.v.ps = "ground" => Sent(b.out) = ExpectedReply(st, o[2])
    /\ o[1] \notin {"in", "key", "mouse"} => Sent(b.out) = <<>>
    \* with local echo the terminal also shows what it sends
    /\ o[1] = "key" /\ st.v.ps = "ground" =>
         LET quiet == Apply([st EXCEPT !.v.fl = @ \cup {"srm"}], o).st
             bytes == Sent(quiet.out)
         IN IF Has(st, "srm") THEN b = quiet
            ELSE LET e == Input(st, bytes)
                 IN /\ Sent(b.out) = Sent(e.out) \o bytes
                    /\ b.s = e.s /\ b.v = e.v

-----------------------------------------------------------------------------
(* C18 *)

(* the keys by what they send: character keys of the keypad, ... *)
PadKeys == (65456..65465) \cup {65450, 65451, 65452, 65453, 65454, 65455,
                                65438, 65439, 65469}
IsSeq(bs) == \* ESC [ digits ; digits final, or ESC O final
    \/ Len(bs) = 3 /\ bs[1] = 27 /\ bs[2] = 79 /\ bs[3] \in 64..126
    \/ Len(bs) >= 3 /\ bs[1] = 27 /\ bs[2] = 91
       /\ bs[Len(bs)] \in 64..126
       /\ \A i \in 3..(Len(bs) - 1) : bs[i] \in (48..57) \cup {59}
LawKey(st, o, b) ==
    LET k == o[2]
        mods == o[4]
        alt == HasBit(mods, 8)
        ctrl == HasBit(mods, 4)
        shift == HasBit(mods, 1)
        uni == o[5]
        sent == Sent(b.out)
        r == Apply(st, o).r
        plain == Apply(st, [o EXCEPT ![4] = @ - 8])
        is(S) == k \in S
        ckm == Has(st, "ckm")
        app == Has(st, "kpam")
        cursor(c) == sent = IF ctrl THEN <<27, 91, 49, 59, 53, c>>
                            ELSE IF ckm THEN <<27, 79, c>>
                            ELSE <<27, 91, c>>
        edge(c) == sent = IF ckm THEN <<27, 79, c>> ELSE <<27, 91, c>>
        \* a key without character, and not a control character
        noctl == ~ctrl \/ (k > 65279 /\ o[3] = 0)
    IN o[1] = "key" =>
       /\ Has(st, "srm") => b.s = st.s /\ b.v = st.v
       /\ r = 0 => sent = <<>>
       /\ IF alt THEN sent = (IF Sent(plain.st.out) = <<>> /\ plain.r = 0
                              THEN <<>> ELSE <<27>> \o Sent(plain.st.out))
                     /\ r = plain.r
          ELSE
          /\ is(KeyUp) => cursor(65)
          /\ is(KeyDown) => cursor(66)
          /\ is(KeyRight) => cursor(67)
          /\ is(KeyLeft) => cursor(68)
          /\ is(KeyHome) => edge(72)
          /\ is(KeyEnd) => edge(70)
          \* in numeric mode the keypad sends its characters
          /\ is(PadKeys) /\ noctl =>
                IF app THEN Len(sent) = 3 /\ sent[1] = 27 /\ sent[2] = 79
                            /\ (is(65456..65465) =>
                                  sent[3] = 112 + k - 65456)
                            \* the letter is the character plus 64
                            /\ (k \in 65450..65455 \ {65452} =>
                                  sent[3] = (k - 65408) + 64)
                ELSE Len(sent) = 1 /\ (k \in 65450..65465 \ {65452} =>
                                         sent[1] = k - 65408)
          /\ is(65470..65489) => IsSeq(sent)
          \* different function keys send different sequences
          /\ is(65470..65479) => \A j \in (65470..65479) \ {k} :
                Sent(Apply(st, [o EXCEPT ![2] = j]).st.out) # sent
          /\ k = 65293 => sent = IF Has(st, "lnm") THEN <<13, 10>> ELSE <<13>>
          /\ k = 65288 => sent = IF st.v.bs THEN <<127>> ELSE <<8>>
          /\ k = 65307 => sent = <<27>>
          /\ k \in {65289, 65417} => sent = <<9>>
          /\ is({65365, 65434}) => sent = <<27, 91, 53, 126>>
          /\ is({65366, 65435}) => sent = <<27, 91, 54, 126>>
          /\ k = 65379 => sent = <<27, 91, 50, 126>>
          /\ k = 65535 => sent = <<27, 91, 51, 126>>
          /\ ctrl =>
               LET c == IF o[3] = 0 THEN k ELSE o[3]
               IN /\ c \in 65..93 => sent = <<c - 64>>
                  /\ c = 32 => sent = <<0>>
                  /\ c \in 50..55 =>
                       sent = <<IF c = 50 THEN 0 ELSE c - 24>>
                  /\ c = 56 => sent = <<127>>
          \* letters
          /\ k \in 97..122 /\ o[3] \in {0, k} =>
                IF ctrl THEN sent = <<k - 96>> ELSE sent = <<uni>> \/ uni # k
          \* plain characters come out in the encoding
          /\ k < 65000 /\ ~ctrl =>
                IF uni < 0 THEN sent = <<>> /\ r = 0
                ELSE IF Has(st, "m7")
                THEN sent = IF uni < 128 THEN <<uni>> ELSE <<63>>
                ELSE IF Has(st, "m8")
                THEN sent = IF uni < 256 THEN <<uni>> ELSE <<63>>
                ELSE IF Utf8Encodable(uni) THEN CodePoint(sent) = uni
                ELSE sent = <<>>

-----------------------------------------------------------------------------
(* C19: the ghost is the selected <<protocol, events>> *)

MouseGhost(g, o) ==
    IF IsHard(o) \/ IsSoft(o) THEN <<0, 0>>
    ELSE IF o[1] # "in" THEN g
    ELSE LET q == Sequence(o[2])
             on == q.f = 104
             one(x, p) ==
               CASE p = 9 -> <<IF on THEN 9 ELSE 0, IF on THEN 1002 ELSE 0>>
                 [] p \in {1006, 1016} -> <<IF on THEN p ELSE 0, x[2]>>
                 [] p \in {1002, 1003} ->
                      <<x[1], IF x[1] = 9 THEN 1002 ELSE IF on THEN p ELSE 0>>
                 [] OTHER -> x
         IN IF ~q.ok \/ q.pre # 63 \/ q.f \notin {104, 108} THEN g
            ELSE FoldLeft(LAMBDA x, p : one(x, p), g, q.ps)
(* what the terminal has to pass on *)
Tracking(g) == IF g[1] = 0 THEN 0 ELSE g[2]

LawMouse(st, o, b, g) ==
    LET cx == o[2]
        cy == o[3]
        btn == o[6]
        ev == o[7]
        mods == o[8]
        sent == Sent(b.out)
        r == Apply(st, o).r
        moved == ev = 4
        want == /\ g[1] = 9 \/ (g[1] # 0 /\ g[2] # 0)
                /\ moved => g[1] # 9 /\ g[2] = 1003
        again == moved /\ g[1] = 1006
                 /\ st.v.mlc = cx + 1 /\ st.v.mlr = cy + 1
        wheel == btn \in {4, 5}
        q == Sequence(<<27, 91>> \o SubSeq(sent, 4, Len(sent)))
    IN /\ o[1] = "mouse" =>
            /\ r = (IF want /\ ~again THEN 1 ELSE 0)
            /\ r = 0 => sent = <<>>
            /\ r = 1 /\ g[1] = 9 =>
                 /\ Len(sent) = 6 /\ HasPrefix(sent, <<27, 91, 77>>)
                 /\ sent[5] = AtMost(33 + cx, 255)
                 /\ sent[6] = AtMost(33 + cy, 255)
                 /\ ev = 2 => (sent[4] - 32) % 4 = 3
                 /\ ev = 1 /\ btn < 3 => (sent[4] - 32) % 4 = btn
                 /\ \A m \in {4, 8, 16} : ~wheel =>
                      HasBit(sent[4] - 32, m) = HasBit(mods, m)
            /\ r = 1 /\ g[1] \in {1006, 1016} =>
                 /\ HasPrefix(sent, <<27, 91, 60>>)
                 /\ q.ok /\ Len(q.ps) = 3
                 /\ q.f = IF ev = 2 THEN 109 ELSE 77
                 /\ q.ps[2] = IF g[1] = 1006 THEN cx + 1 ELSE o[4]
                 /\ q.ps[3] = IF g[1] = 1006 THEN cy + 1 ELSE o[5]
                 /\ IF moved THEN q.ps[1] = 35
                    ELSE /\ q.ps[1] % 4 = IF wheel THEN btn - 4 ELSE btn
                         /\ HasBit(q.ps[1], 64) = wheel
                         /\ \A m \in {4, 8, 16} :
                              HasBit(q.ps[1], m) = HasBit(mods, m)
       \* what can be seen of the state
       /\ LET g2 == MouseGhost(g, o)
              ms == SelectSeq(b.out, LAMBDA e : e[1] = "m")
          IN /\ b.v.mm = g2[1] /\ b.v.me = g2[2]
             \* the callback knows what is tracked now
             /\ st.v.mcb /\ Tracking(g2) # Tracking(g) => ms # <<>>
             /\ ~st.v.mcb => ms = <<>>
             /\ ms # <<>> => LET m == ms[Len(ms)]
                              IN /\ m[2] = Tracking(g2)
                                 /\ m[2] # 0 => m[3] = IF g2[1] = 1016 THEN 1
                                                       ELSE 0

-----------------------------------------------------------------------------
(* C20: the ghost is <<in a string, its bytes>> *)

OscGhost0 == <<FALSE, <<>>>>
OscAdd(t, c) == IF Len(t) + Len(c) <= 127 THEN t \o c ELSE t
OscGhost(g, o) ==
    IF o[1] # "in" THEN g
    ELSE LET bs == o[2] IN
      IF bs \in {<<27, 93>>, <<194, 157>>} THEN <<TRUE, <<>>>>
      ELSE IF ~g[1] THEN g
      ELSE IF bs \in {<<7>>, <<24>>, <<26>>, <<194, 156>>} \/ bs[1] = 27
      THEN OscGhost0
      ELSE IF bs[1] < 32 THEN g
      ELSE IF bs[1] < 128
      THEN <<TRUE, FoldLeft(LAMBDA t, c : OscAdd(t, <<c>>), g[2], bs)>>
      ELSE IF bs[1] = 255 THEN <<TRUE, OscAdd(g[2], <<239, 191, 189>>)>>
      ELSE <<TRUE, OscAdd(g[2], bs)>>
LawOsc(st, o, b, g) ==
    LET g2 == OscGhost(g, o)
        ends == g[1] /\ o[1] = "in" /\ (~g2[1] \/ o[2] \in {<<27, 93>>,
                                                            <<194, 157>>})
        got == SelectSeq(b.out, LAMBDA e : e[1] = "o")
    IN /\ got = IF ends /\ st.v.osccb THEN <<<<"o", g[2]>>>> ELSE <<>>
       /\ Len(g2[2]) <= 127
       /\ g[1] /\ g2[1] => b.s = st.s

-----------------------------------------------------------------------------
(* C02: decoding, stated for a whole string of bytes bs *)

LeadNeed(b) == CASE b \in 194..223 -> 1 [] b \in 224..239 -> 2
                 [] b \in 240..247 -> 3 [] OTHER -> 0
Cont(b) == b \in 128..191
(* number of continuation bytes after position i, at most n *)
ContRun(bs, i, n) ==
    LET ok(k) == \A j \in 1..k : i + j <= Len(bs) /\ Cont(bs[i + j])
    IN CHOOSE k \in 0..n : ok(k) /\ (k = n \/ ~ok(k + 1))
WellFormedAt(bs, i, n) ==
    /\ ContRun(bs, i, n) = n
    /\ LET c == CodePoint(SubSeq(bs, i, i + n))
       IN /\ n = 2 => c >= 2048 /\ c \notin 55296..57343
          /\ n = 3 => c >= 65536 /\ c <= 1114111
TooSmall(bs, i, n) == /\ i < Len(bs) /\ Cont(bs[i + 1])
                      /\ \/ bs[i] = 224 /\ bs[i + 1] < 160
                         \/ bs[i] = 240 /\ bs[i + 1] < 144
(* what the byte at position i contributes *)
DecodedAt(bs, i) ==
    LET b == bs[i]
        n == LeadNeed(b)
        \* the byte before a continuation run that ends here
        cut == \E j \in 1..(i - 1) :
                 /\ LeadNeed(bs[j]) > 0
                 /\ ~TooSmall(bs, j, LeadNeed(bs[j]))
                 /\ ContRun(bs, j, LeadNeed(bs[j])) = i - j - 1
                 /\ i - j - 1 < LeadNeed(bs[j])
    IN CASE b < 128 -> <<b>>
         [] Cont(b) -> <<>>
         [] n > 0 -> IF WellFormedAt(bs, i, n)
                     THEN <<CodePoint(SubSeq(bs, i, i + n))>>
                     ELSE IF i + ContRun(bs, i, n) = Len(bs)
                             /\ ContRun(bs, i, n) < n /\ ~TooSmall(bs, i, n)
                     THEN <<>>                      \* not complete yet
                     ELSE <<65533>>
         \* an invalid byte; one that cuts a sequence short is part of the
         \* malformed sequence
         [] OTHER -> IF cut THEN <<>> ELSE <<65533>>
Decoded(bs) == FoldLeft(LAMBDA acc, i : acc \o DecodedAt(bs, i), <<>>,
                        [i \in 1..Len(bs) |-> i])

(* the ghost is [in, cps]: the bytes, and what the decoder made of them *)
LawDecode(g) ==
    /\ Decoded(g.in) = g.cps
    \* nothing that is ASCII comes from anything but itself
    /\ SelectSeq(g.cps, LAMBDA c : c < 128)
         = SelectSeq(g.in, LAMBDA c : c < 128)
    /\ \A i \in 1..Len(g.cps) : g.cps[i] \in 128..159 =>
         \E j \in 1..(Len(g.in) - 1) : g.in[j] = 194
                                       /\ g.in[j + 1] = g.cps[i]
    \* nothing but characters
    /\ \A i \in 1..Len(g.cps) : /\ g.cps[i] <= 1114111
                                /\ g.cps[i] \notin 55296..57343

(* encoding and decoding are inverse, on characters around all limits *)
Samples == UNION {(c - 3)..(c + 3) : c \in {
    3, 128, 160, 256, 2048, 4096, 32768, 55293, 57347, 64979, 65005, 65529,
    65539, 131069, 131075, 262144, 983040, 1048576, 1114107}}
LawEncode ==
    \A c \in Samples : Utf8Encodable(c) =>
      /\ Decoded(Utf8Encode(c)) = <<c>>
      /\ Len(Utf8Encode(c)) = IF c < 128 THEN 1 ELSE IF c < 2048 THEN 2
                              ELSE IF c < 65536 THEN 3 ELSE 4
=============================================================================
