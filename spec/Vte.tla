-------------------------------- MODULE Vte --------------------------------
(***************************************************************************)
(* The terminal emulator of libtsm: input parser, control functions,       *)
(* character attributes, character sets, replies, keyboard and mouse.      *)
(*                                                                         *)
(* The state is [s |-> screen, v |-> terminal, out |-> events].  Events    *)
(* are <<"w", bytes>> for data sent to the client, <<"o", bytes>> for a    *)
(* completed OSC string, <<"m", event, pixels>> for a change of the mouse  *)
(* tracking.  Consecutive writes are one event.                            *)
(***************************************************************************)
EXTENDS Screen, Tables, Widths

Emit(st, e) ==
    LET n == Len(st.out)
    IN IF e[1] = "w" /\ e[2] = <<>> THEN st
       ELSE IF e[1] = "w" /\ n > 0 /\ st.out[n][1] = "w"
       THEN [st EXCEPT !.out[n][2] = @ \o e[2]]
       ELSE [st EXCEPT !.out = Append(@, e)]
Reply(st, bytes) == Emit(st, <<"w", bytes>>)

(* names and values of the modes *)
ModeBits == [ckm |-> 1, kpam |-> 2, lnm |-> 4, m8 |-> 8, m7 |-> 16,
             c1 |-> 32, kam |-> 64, irm |-> 128, srm |-> 256, tcem |-> 512,
             scnm |-> 1024, om |-> 2048, awm |-> 4096, arm |-> 8192,
             nrcm |-> 16384, bce |-> 32768, esc |-> 65536, tite |-> 131072]
ModeSum(fl) == FoldSet(LAMBDA m, acc : acc + ModeBits[m], 0, fl)
ModesInit == {"tcem", "arm", "srm", "awm", "bce"}

Has(st, m) == m \in st.v.fl
SetMode(st, m, on) == IF on THEN [st EXCEPT !.v.fl = @ \cup {m}]
                      ELSE [st EXCEPT !.v.fl = @ \ {m}]
(* a mode that has a counterpart in the screen *)
Both(st, m, flag, on) ==
    LET st1 == SetMode(st, m, on)
    IN [st1 EXCEPT !.s = IF on THEN SetFlags(@, flag) ELSE ResetFlags(@, flag)]

-----------------------------------------------------------------------------
(* Colours and attributes *)

ToRgb(v, a) ==
    LET p == Palette(v.pal, v.custom)
        f0 == IF a[9] = 1 /\ a[1] < 8 THEN a[1] + 8 ELSE a[1]
        f == p[(IF f0 >= 18 THEN 16 ELSE f0) + 1]
        b == p[(IF a[2] >= 18 THEN 17 ELSE a[2]) + 1]
        a1 == IF a[1] < 0 THEN a
              ELSE [a EXCEPT ![3] = f[1], ![4] = f[2], ![5] = f[3]]
    IN IF a[2] < 0 THEN a1
       ELSE [a1 EXCEPT ![6] = b[1], ![7] = b[2], ![8] = b[3]]

CopyFg(a, d) == [a EXCEPT ![1] = d[1], ![3] = d[3], ![4] = d[4], ![5] = d[5]]
CopyBg(a, d) == [a EXCEPT ![2] = d[2], ![6] = d[6], ![7] = d[7], ![8] = d[8]]

DefAttr(v) == ToRgb(v, <<16, 17, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>)

ApplyAttr(st) ==
    LET st1 == [st EXCEPT !.v.ca = ToRgb(st.v, @)]
    IN IF Has(st1, "bce") THEN [st1 EXCEPT !.s.da = st1.v.ca] ELSE st1

Cube == <<0, 95, 135, 175, 215, 255>>

SgrColour(a, p, col) ==
    IF p = 38
    THEN [a EXCEPT ![1] = col[1], ![3] = col[2], ![4] = col[3], ![5] = col[4]]
    ELSE [a EXCEPT ![2] = col[1], ![6] = col[2], ![7] = col[3], ![8] = col[4]]

(* SGR parameters ps (from index i on) applied to the attribute a *)
RECURSIVE Sgr(_, _, _, _)
Sgr(ps, i, a, d) ==
    IF i > Len(ps) THEN a
    ELSE LET p == ps[i]
             set(k, x) == [a EXCEPT ![k] = x]
             n == Len(ps)
         IN IF p \in {38, 48}
            THEN IF i + 2 <= n /\ ps[i + 1] = 5 /\ ps[i + 2] >= 0
                 THEN LET c == ps[i + 2]
                          g == ((c - 232) * 10 + 8) % 256
                          k == c - 16
                          col == IF c < 16 THEN <<c, 0, 0, 0>>
                                 ELSE IF c < 232
                                 THEN <<0 - 1, Cube[(k \div 36) + 1],
                                        Cube[((k \div 6) % 6) + 1],
                                        Cube[(k % 6) + 1]>>
                                 ELSE <<0 - 1, g, g, g>>
                      IN Sgr(ps, i + 3, SgrColour(a, p, col), d)
                 ELSE IF i + 4 <= n /\ ps[i + 1] = 2 /\ ps[i + 2] >= 0
                         /\ ps[i + 3] >= 0 /\ ps[i + 4] >= 0
                 THEN Sgr(ps, i + 5,
                          SgrColour(a, p, <<0 - 1, ps[i + 2] % 256,
                                            ps[i + 3] % 256,
                                            ps[i + 4] % 256>>), d)
                 ELSE Sgr(ps, i + 1, a, d)
            ELSE Sgr(ps, i + 1,
                 CASE p = 0 -> [CopyBg(CopyFg(a, d), d) EXCEPT
                                ![9] = 0, ![10] = 0, ![11] = 0, ![12] = 0,
                                ![14] = 0]
                   [] p = 1 -> set(9, 1)
                   [] p = 3 -> set(10, 1)
                   [] p = 4 -> set(11, 1)
                   [] p = 5 -> set(14, 1)
                   [] p = 7 -> set(12, 1)
                   [] p = 22 -> set(9, 0)
                   [] p = 23 -> set(10, 0)
                   [] p = 24 -> set(11, 0)
                   [] p = 25 -> set(14, 0)
                   [] p = 27 -> set(12, 0)
                   [] p \in 30..37 -> set(1, p - 30)
                   [] p = 39 -> CopyFg(a, d)
                   [] p \in 40..47 -> set(2, p - 40)
                   [] p = 49 -> CopyBg(a, d)
                   [] p \in 90..97 -> set(1, p - 82)
                   [] p \in 100..107 -> set(2, p - 92)
                   [] OTHER -> a, d)


(* the terminal is told what mouse events are wanted *)
MouseCb(st, pixels) ==
    IF st.v.mcb THEN Emit(st, <<"m", st.v.me, IF pixels THEN 1 ELSE 0>>)
    ELSE st
MouseOff(st) == IF st.v.mcb THEN Emit(st, <<"m", 0, 0>>) ELSE st

-----------------------------------------------------------------------------
(* Reset *)

SavedInit(v) == [x |-> 0, y |-> 0, a |-> DefAttr(v), gl |-> 0, gr |-> 1,
                 wrap |-> TRUE, orig |-> FALSE]

VteReset(st0) ==
    LET d == DefAttr(st0.v)
        st == IF st0.v.mm # 0 /\ st0.v.me # 0 THEN MouseOff(st0) ELSE st0
    IN [st EXCEPT !.s = [ScrReset(@) EXCEPT !.wrap = TRUE, !.da = d],
                  !.v = [@ EXCEPT !.fl = ModesInit, !.mach = Utf8Start,
                         !.ps = "ground", !.gl = 0, !.gr = 1, !.glt = 0,
                         !.g = <<"lower", "upper", "lower", "upper">>,
                         !.mm = 0, !.me = 0, !.mlc = 0, !.mlr = 0,
                         !.ca = d, !.saved = SavedInit(st.v),
                         !.ax = 0, !.ay = 0]]

VteHardReset(st) ==
    LET st1 == VteReset(st)
    IN [st1 EXCEPT !.s = MoveTo(ClearSb(EraseScreen(@, FALSE)), 0, 0)]

VteBare ==
    [ps |-> "ground", argc |-> 0, argv |-> [i \in 1..16 |-> 0], cf |-> {},
     osc |-> <<>>, mach |-> Utf8Start, fl |-> {}, gl |-> 0, gr |-> 1,
     glt |-> 0, g |-> <<"lower", "upper", "lower", "upper">>,
     saved |-> [x |-> 0, y |-> 0, a |-> AttrNew, gl |-> 0, gr |-> 1,
                wrap |-> TRUE, orig |-> FALSE],
     ax |-> 0, ay |-> 0, ca |-> AttrNew, pal |-> "", custom |-> <<>>,
     mm |-> 0, me |-> 0, mlc |-> 0, mlr |-> 0, bs |-> FALSE,
     osccb |-> FALSE, mcb |-> FALSE]

(* a terminal on the screen s *)
VteInit(s) ==
    LET st == VteReset([s |-> s, v |-> VteBare, out |-> <<>>])
    IN [st EXCEPT !.s = EraseScreen(@, FALSE)]

UpdatePalette(st) ==
    LET d == DefAttr(st.v)
    IN [st EXCEPT !.v.ca = d,
                  !.s = EraseScreen([@ EXCEPT !.da = d], FALSE)]
SetPalette(st, name) == UpdatePalette([st EXCEPT !.v.pal = name])
SetCustomPalette(st, p) == UpdatePalette([st EXCEPT !.v.custom = p])

-----------------------------------------------------------------------------
(* Saving and restoring *)

SaveState(st) ==
    [st EXCEPT !.v.saved =
        [x |-> st.s.cx, y |-> st.s.cy, a |-> st.v.ca, gl |-> st.v.gl,
         gr |-> st.v.gr, wrap |-> Has(st, "awm"), orig |-> Has(st, "om")]]

MoveToAbs(s, x, y) ==
    [MoveTo([s EXCEPT !.orig = FALSE], x, y) EXCEPT !.orig = s.orig]

RestoreState(st) ==
    LET d == st.v.saved
        st1 == ApplyAttr([st EXCEPT !.s = MoveToAbs(@, d.x, d.y),
                                    !.v.ca = d.a, !.v.gl = d.gl,
                                    !.v.gr = d.gr])
    IN Both(Both(st1, "awm", 2, d.wrap), "om", 4, d.orig)

-----------------------------------------------------------------------------
(* Printing *)

MapChar(v, c) ==
    IF c \in 33..126
    THEN Charset(v.g[(IF v.glt # 0 THEN v.glt ELSE v.gl) + 1], c - 32)
    ELSE IF c \in 161..254 THEN Charset(v.g[v.gr + 1], c - 160)
    ELSE c

WriteConsole(st, c) ==
    LET a == ToRgb(st.v, st.v.ca)
    IN [st EXCEPT !.v.ca = a, !.s = Write(@, c, Width(c), a)]

PrintChar(st, c) ==
    LET g == MapChar(st.v, c)
        st1 == IF c \in 33..126 THEN [st EXCEPT !.v.glt = 0] ELSE st
    IN WriteConsole(st1, g)

-----------------------------------------------------------------------------
(* Control characters *)

PrimaryDa == <<27, 91, 63, 54, 48, 59, 49, 59, 54, 59, 57, 59, 49, 53, 99>>

Execute(st, c) ==
    CASE c = 5 -> Reply(st, <<6>>)                              \* ENQ
      [] c = 8 -> [st EXCEPT !.s = MoveLeft(@, 1)]              \* BS
      [] c = 9 -> [st EXCEPT !.s = TabRight(@, 1)]              \* HT
      [] c \in {10, 11, 12} ->                                  \* LF VT FF
            [st EXCEPT !.s = IF Has(st, "lnm") THEN Newline(@)
                             ELSE MoveDown(@, 1, TRUE)]
      [] c = 13 -> [st EXCEPT !.s = MoveLineHome(@)]            \* CR
      [] c = 14 -> [st EXCEPT !.v.gl = 1]                       \* SO
      [] c = 15 -> [st EXCEPT !.v.gl = 0]                       \* SI
      [] c = 26 -> WriteConsole(st, 191)                        \* SUB
      [] c = 132 -> [st EXCEPT !.s = MoveDown(@, 1, TRUE)]      \* IND
      [] c = 133 -> [st EXCEPT !.s = Newline(@)]                \* NEL
      [] c = 136 -> [st EXCEPT !.s = SetTab(@)]                 \* HTS
      [] c = 141 -> [st EXCEPT !.s = MoveUp(@, 1, TRUE)]        \* RI
      [] c = 142 -> [st EXCEPT !.v.glt = 2]                     \* SS2
      [] c = 143 -> [st EXCEPT !.v.glt = 3]                     \* SS3
      [] c = 154 -> Reply(st, PrimaryDa)                        \* DECID
      [] OTHER -> st

-----------------------------------------------------------------------------
(* Parameters, intermediates *)

ClearSeq(st) ==
    [st EXCEPT !.v.argc = 0, !.v.argv = TLCEval([i \in 1..16 |-> 0 - 1]),
               !.v.cf = {}, !.v.osc = <<>>]

(* prefixes and intermediates are collected by their character;
   0 stands for all that have no meaning *)
KnownFlags == {33, 36, 63, 62, 32, 39, 34, 42, 43, 40, 41}
Collect(st, c) ==
    [st EXCEPT !.v.cf = @ \cup {IF c \in KnownFlags THEN c ELSE 0}]

Param(st, c) ==
    IF c = 59 THEN IF st.v.argc < 16 THEN [st EXCEPT !.v.argc = @ + 1] ELSE st
    ELSE IF st.v.argc >= 16 \/ st.v.argv[st.v.argc + 1] > 65535 THEN st
    ELSE [st EXCEPT !.v.argv[st.v.argc + 1] =
            IF @ <= 0 THEN c - 48 ELSE @ * 10 + c - 48]

-----------------------------------------------------------------------------
(* Escape sequences *)

EscCharset(c) ==
    CASE c = 66 -> "lower"                            \* B
      [] c = 60 -> "supplemental"                     \* <
      [] c = 48 -> "special"                          \* 0
      [] c \in {65, 52, 67, 53, 82, 81, 75, 89, 69, 54, 90, 72, 55, 61} ->
            "upper"                                   \* A 4 C 5 R Q K Y E 6 Z H 7 =
      [] OTHER -> ""
EscTarget(cf) ==
    CASE 40 \in cf -> 1 [] 41 \in cf -> 2 [] 42 \in cf -> 3 [] 43 \in cf -> 4
      [] OTHER -> 0

Esc(st, c) ==
    LET cf == st.v.cf
    IN IF EscCharset(c) # "" /\ EscTarget(cf) # 0
       THEN [st EXCEPT !.v.g[EscTarget(cf)] = EscCharset(c)]
       ELSE IF c = 70 /\ 32 \in cf THEN SetMode(st, "c1", FALSE)
       ELSE IF c = 71 /\ 32 \in cf THEN SetMode(st, "c1", TRUE)
       ELSE IF cf # {} THEN st
       ELSE
       CASE c = 68 -> [st EXCEPT !.s = MoveDown(@, 1, TRUE)]    \* D IND
         [] c = 69 -> [st EXCEPT !.s = Newline(@)]              \* E NEL
         [] c = 72 -> [st EXCEPT !.s = SetTab(@)]               \* H HTS
         [] c = 77 -> [st EXCEPT !.s = MoveUp(@, 1, TRUE)]      \* M RI
         [] c = 78 -> [st EXCEPT !.v.glt = 2]                   \* N SS2
         [] c = 79 -> [st EXCEPT !.v.glt = 3]                   \* O SS3
         [] c = 90 -> Reply(st, PrimaryDa)                      \* Z DECID
         [] c = 126 -> [st EXCEPT !.v.gr = 1]                   \* ~ LS1R
         [] c = 110 -> [st EXCEPT !.v.gl = 2]                   \* n LS2
         [] c = 125 -> [st EXCEPT !.v.gr = 2]                   \* } LS2R
         [] c = 111 -> [st EXCEPT !.v.gl = 3]                   \* o LS3
         [] c = 124 -> [st EXCEPT !.v.gr = 3]                   \* | LS3R
         [] c = 61 -> SetMode(st, "kpam", TRUE)                 \* = DECKPAM
         [] c = 62 -> SetMode(st, "kpam", FALSE)                \* > DECKPNM
         [] c = 99 -> VteHardReset(st)                          \* c RIS
         [] c = 55 -> SaveState(st)                             \* 7 DECSC
         [] c = 56 -> RestoreState(st)                          \* 8 DECRC
         [] OTHER -> st

-----------------------------------------------------------------------------
(* Modes *)

AnsiMode(st, p, on) ==
    CASE p = 2 -> SetMode(st, "kam", on)
      [] p = 4 -> Both(st, "irm", 1, on)
      [] p = 12 -> SetMode(st, "srm", on)
      [] p = 20 -> SetMode(st, "lnm", on)
      [] OTHER -> st

DecMode(st, p, on) ==
    CASE p = 1 -> SetMode(st, "ckm", on)
      [] p = 5 -> Both(st, "scnm", 8, on)
      [] p = 6 -> Both(st, "om", 4, on)
      [] p = 7 -> Both(st, "awm", 2, on)
      [] p = 8 -> SetMode(st, "arm", on)
      [] p = 9 -> MouseCb([st EXCEPT !.v.mm = IF on THEN 9 ELSE 0,
                                     !.v.me = IF on THEN 1002 ELSE 0], FALSE)
      [] p = 25 -> LET st1 == SetMode(st, "tcem", on)
                   IN [st1 EXCEPT !.s = IF on THEN ResetFlags(@, 16)
                                        ELSE SetFlags(@, 16)]
      [] p = 42 -> SetMode(st, "nrcm", on)
      [] p = 47 -> [st EXCEPT !.s = IF on THEN SetFlags(@, 64)
                                    ELSE ResetFlags(@, 64)]
      [] p = 1047 -> [st EXCEPT !.s = IF on THEN SetFlags(@, 64)
                       ELSE ResetFlags(IF @.alt THEN EraseScreen(@, FALSE)
                                       ELSE @, 64)]
      [] p = 1048 -> IF on THEN [st EXCEPT !.v.ax = st.s.cx, !.v.ay = st.s.cy]
                     ELSE [st EXCEPT !.s = MoveToAbs(@, st.v.ax, st.v.ay)]
      [] p = 1049 -> IF on
                     THEN [st EXCEPT !.v.ax = st.s.cx, !.v.ay = st.s.cy,
                              !.s = EraseScreen(SetFlags(@, 64), FALSE)]
                     ELSE [st EXCEPT !.s = MoveToAbs(ResetFlags(@, 64),
                                                     st.v.ax, st.v.ay)]
      [] p \in {1002, 1003} ->
            LET st1 == [st EXCEPT !.v.me = IF st.v.mm = 9 THEN 1002
                                           ELSE IF on THEN p ELSE 0]
            IN IF st.v.mm # 0 THEN MouseCb(st1, st.v.mm = 1016) ELSE st1
      [] p \in {1006, 1016} ->
            LET st1 == [st EXCEPT !.v.mm = IF on THEN p ELSE 0]
            IN IF ~on THEN MouseOff(st1)
               ELSE IF st.v.me # 0 THEN MouseCb(st1, p = 1016) ELSE st1
      [] OTHER -> st

CsiMode(st, on) ==
    FoldLeft(LAMBDA acc, p : IF 63 \in st.v.cf THEN DecMode(acc, p, on)
                             ELSE AnsiMode(acc, p, on),
             st, SubSeq(st.v.argv, 1, st.v.argc))

(* DECSCL *)
CompatMode(st) ==
    LET st1 == VteReset(st)
        p == st.v.argv[1]
        sets(x) == [x EXCEPT !.v.g[1] = "lower", !.v.g[2] = "supplemental"]
    IN IF p = 61 THEN sets(SetMode(st1, "m7", TRUE))
       ELSE IF p \in {62, 63, 64}
       THEN LET st2 == sets(SetMode(st1, "m8", TRUE))
            IN IF st.v.argv[2] \in {1, 2} THEN SetMode(st2, "c1", TRUE)
               ELSE st2
       ELSE st1

-----------------------------------------------------------------------------
(* Control sequences *)

RECURSIVE Dec(_)
Dec(n) == IF n < 10 THEN <<48 + n>> ELSE Append(Dec(n \div 10), 48 + (n % 10))

Dsr(st) ==
    LET p == st.v.argv[1]
        x == Min2(st.s.cx, st.s.w - 1)
        y == IF Has(st, "om") THEN Max2(0, st.s.cy - st.s.mt) ELSE st.s.cy
    IN IF p = 5 THEN Reply(st, <<27, 91, 48, 110>>)
       ELSE IF p = 6
       THEN Reply(st, <<27, 91>> \o Dec(y + 1) \o <<59>> \o Dec(x + 1)
                      \o <<82>>)
       ELSE st

(* prefixes and intermediates a final character is defined with *)
ValidFlags(c) ==
    CASE c \in {74, 75, 104, 108, 110} -> {63}
      [] c = 99 -> {62}
      [] c = 112 -> {62, 33, 36, 34, 63}
      [] OTHER -> {}

Csi(st0, c) ==
    LET st == [st0 EXCEPT !.v.argc = Min2(16, @ + 1)]
        v == st.v
        p1 == v.argv[1]
        p2 == v.argv[2]
        n == IF p1 <= 0 THEN 1 ELSE p1
        m == IF p2 <= 0 THEN 1 ELSE p2
        prot == 63 \in v.cf
        s == st.s
        do(x) == [st EXCEPT !.s = x]
    IN IF ~(v.cf \subseteq ValidFlags(c)) THEN st
       ELSE
       CASE c = 65 -> do(MoveUp(s, n, FALSE))                         \* A
         [] c = 66 -> do(MoveDown(s, n, FALSE))                       \* B
         [] c = 67 -> do(MoveRight(s, n))                             \* C
         [] c = 68 -> do(MoveLeft(s, n))                              \* D
         [] c = 100 -> do(MoveTo(s, s.cx, n - 1))                     \* d
         [] c = 69 -> do(MoveLineHome(MoveDown(s, n, FALSE)))         \* E
         [] c = 101 -> do(MoveTo(s, s.cx,                             \* e
                            IF Has(st, "om") THEN Max2(0, s.cy + n - s.mt)
                            ELSE s.cy + n))
         [] c = 70 -> do(MoveLineHome(MoveUp(s, n, FALSE)))           \* F
         [] c \in {72, 102} -> do(MoveTo(s, m - 1, n - 1))            \* H f
         [] c = 71 -> do(MoveToAbs(s, n - 1, s.cy))                   \* G
         [] c = 74 -> CASE p1 <= 0 -> do(EraseCursorToScreen(s, prot))  \* J
                        [] p1 = 1 -> do(EraseScreenToCursor(s, prot))
                        [] p1 = 2 -> do(EraseScreen(s, prot))
                        [] OTHER -> st
         [] c = 75 -> CASE p1 <= 0 -> do(EraseCursorToEnd(s, prot))     \* K
                        [] p1 = 1 -> do(EraseHomeToCursor(s, prot))
                        [] p1 = 2 -> do(EraseLine(s, prot))
                        [] OTHER -> st
         [] c = 88 -> do(EraseChars(s, n))                            \* X
         [] c = 109 ->                                                \* m
              LET ps == IF v.argc = 1 /\ p1 = 0 - 1 THEN <<0>>
                        ELSE SubSeq(v.argv, 1, v.argc)
              IN ApplyAttr([st EXCEPT !.v.ca = Sgr(ps, 1, @, DefAttr(v))])
         [] c = 112 -> CASE 62 \in v.cf \/ 33 \in v.cf -> VteReset(st)  \* p
                         [] 36 \in v.cf -> st
                         [] OTHER -> CompatMode(st)
         [] c = 104 -> CsiMode(st, TRUE)                              \* h
         [] c = 108 -> CsiMode(st, FALSE)                             \* l
         [] c = 114 -> do(SetMargins(s, Max2(0, p1), Max2(0, p2)))    \* r
         [] c = 99 ->                                                 \* c
              IF v.argc <= 1 /\ p1 <= 0
              THEN IF v.cf = {} THEN Reply(st, PrimaryDa)
                   ELSE Reply(st, <<27, 91, 62, 49, 59, 49, 59, 48, 99>>)
              ELSE st
         [] c = 76 -> do(InsertLines(s, n))                           \* L
         [] c = 77 -> do(DeleteLines(s, n))                           \* M
         [] c = 103 -> CASE p1 <= 0 -> do(ResetTab(s))                \* g
                         [] p1 = 3 -> do(ResetAllTabs(s))
                         [] OTHER -> st
         [] c = 64 -> do(InsertChars(s, n))                           \* @
         [] c = 80 -> do(DeleteChars(s, n))                           \* P
         [] c = 90 -> do(TabLeft(s, n))                               \* Z
         [] c = 73 -> do(TabRight(s, n))                              \* I
         [] c = 110 -> Dsr(st)                                        \* n
         [] c = 83 -> do(ScrollUp(s, n))                              \* S
         [] c = 84 -> do(ScrollDown(s, n))                            \* T
         [] OTHER -> st

-----------------------------------------------------------------------------
(* OSC strings *)

OscMax == 127
OscCollect(st, c) ==
    LET u == Utf8Encode(c)
    IN IF Len(st.v.osc) + Len(u) > OscMax THEN st
       ELSE [st EXCEPT !.v.osc = @ \o u]
OscEnd(st) == IF st.v.osccb THEN Emit(st, <<"o", st.v.osc>>) ELSE st

-----------------------------------------------------------------------------
(* The parser *)

C0(c) == c < 24 \/ c = 25 \/ c \in 28..31

Leave(st) == IF st.v.ps = "osc" THEN OscEnd(st) ELSE st
To(st, ps) == [st EXCEPT !.v.ps = ps]
(* change the state; some start with cleared parameters *)
Enter(st, ps) ==
    IF ps \in {"esc", "csi", "dcs", "osc"} THEN ClearSeq(To(st, ps))
    ELSE To(st, ps)

ParseEsc(st, c) ==
    CASE C0(c) -> Execute(st, c)
      [] c = 127 -> st
      [] c = 91 -> Enter(st, "csi")
      [] c = 93 -> Enter(st, "osc")
      [] c = 80 -> Enter(st, "dcs")
      [] c \in {88, 94, 95} -> Enter(st, "str")
      [] c \in 48..126 -> Esc(To(st, "ground"), c)
      [] OTHER -> Collect(To(st, "escint"), c)

ParseEscInt(st, c) ==
    CASE C0(c) -> Execute(st, c)
      [] c = 127 -> st
      [] c \in 48..126 -> Esc(To(st, "ground"), c)
      [] OTHER -> Collect(st, c)

ParseCsi(st, c) ==
    LET ps == st.v.ps
    IN CASE C0(c) -> Execute(st, c)
         [] c = 127 -> st
         [] c \in 64..126 -> IF ps = "csiign" THEN To(st, "ground")
                             ELSE Csi(To(st, "ground"), c)
         [] ps = "csiign" -> st
         [] c \in 32..47 -> Collect(To(st, "csiint"), c)
         [] c \in (48..57) \cup {59} /\ ps # "csiint" ->
                Param(To(st, "csiparam"), c)
         [] c \in 60..63 /\ ps = "csi" -> Collect(To(st, "csiparam"), c)
         [] OTHER -> To(st, "csiign")

(* a DCS has no effect; only its end matters *)
ParseOsc(st, c) ==
    CASE c = 7 -> To(Leave(st), "ground")
      [] C0(c) -> st
      [] OTHER -> OscCollect(st, c)

Parse(st, c) ==
    CASE c \in {24, 26} \cup (128..143) \cup (145..151) \cup {153, 154, 156}
            -> Execute(To(Leave(st), "ground"), c)
      [] c = 27 -> Enter(Leave(st), "esc")
      [] c \in {152, 158, 159} -> Enter(Leave(st), "str")
      [] c = 144 -> Enter(Leave(st), "dcs")
      [] c = 157 -> Enter(Leave(st), "osc")
      [] c = 155 -> Enter(Leave(st), "csi")
      [] OTHER ->
         CASE st.v.ps = "ground" -> IF C0(c) THEN Execute(st, c)
                                    ELSE PrintChar(st, c)
           [] st.v.ps = "esc" -> ParseEsc(st, c)
           [] st.v.ps = "escint" -> ParseEscInt(st, c)
           [] st.v.ps \in {"csi", "csiparam", "csiint", "csiign"} ->
                ParseCsi(st, c)
           [] st.v.ps = "osc" -> ParseOsc(st, c)
           [] st.v.ps \in {"dcs", "str"} -> st

InputByte(st, b) ==
    IF Has(st, "m7") THEN Parse(st, b % 128)
    ELSE IF Has(st, "m8") THEN Parse(st, b)
    ELSE LET f == Utf8Feed(st.v.mach, b)
         IN FoldLeft(LAMBDA acc, c : Parse(acc, c),
                     [st EXCEPT !.v.mach = f.m], f.cps)
Input(st, bytes) == FoldLeft(LAMBDA acc, b : InputByte(acc, b), st, bytes)

-----------------------------------------------------------------------------
(* Output of keyboard and mouse; it is also input with local echo *)

Send(st, bytes) ==
    Reply(IF Has(st, "srm") THEN st ELSE Input(st, bytes), bytes)

CtrlKey(sym) ==
    CASE sym \in {50, 32} -> 0
      [] sym \in 97..122 -> sym - 96
      [] sym \in 65..90 -> sym - 64
      [] sym \in {51, 91, 123} -> 27
      [] sym \in {52, 92, 124} -> 28
      [] sym \in {53, 93, 125} -> 29
      [] sym \in {54, 96, 126} -> 30
      [] sym \in {55, 47, 63} -> 31
      [] sym = 56 -> 127
      [] OTHER -> 0 - 1

Tilde(n) == <<27, 91>> \o Dec(n) \o <<126>>
Tilde2(n) == <<27, 91>> \o Dec(n) \o <<59, 50, 126>>
Ss3(c) == <<27, 79, c>>

(* keysyms of pairs of a normal and a keypad key *)
KeyUp == {65362, 65431}
KeyDown == {65364, 65433}
KeyRight == {65363, 65432}
KeyLeft == {65361, 65430}
KeyHome == {65360, 65429}
KeyEnd == {65367, 65436}

FnLow == <<15, 17, 18, 19, 20, 21>>
FnHigh == <<23, 24, 25, 26, 28, 29, 31, 32, 33, 34>>

(* what a key sends; <<>> for keys without a special meaning *)
KeyBytes(v, k, mods) ==
    LET ctrl == HasBit(mods, 4)
        shift == HasBit(mods, 1)
        app == "kpam" \in v.fl
        ckm == "ckm" \in v.fl
        kp(a, n) == IF app THEN Ss3(a) ELSE <<n>>
        arrow(c) == IF ctrl THEN <<27, 91, 49, 59, 53, c>>
                    ELSE IF ckm THEN Ss3(c) ELSE <<27, 91, c>>
        edge(c) == IF ckm THEN Ss3(c) ELSE <<27, 91, c>>
        fn == k - 65469                 \* number of the function key
        f14(i) == IF shift THEN Tilde(22 + i) ELSE Ss3(79 + i)
    IN CASE k = 65288 -> <<IF v.bs THEN 127 ELSE 8>>      \* BackSpace
         [] k \in {65289, 65417} -> <<9>>                 \* Tab
         [] k = 65056 -> <<27, 91, 90>>                   \* ISO_Left_Tab
         [] k = 65290 -> <<10>>                           \* Linefeed
         [] k = 65291 -> <<11>>                           \* Clear
         [] k = 65301 -> <<21>>                           \* Sys_Req
         [] k = 65307 -> <<27>>                           \* Escape
         [] k = 65421 /\ app -> Ss3(77)                   \* KP_Enter
         [] k \in {65293, 65421} ->                       \* Return
                IF "lnm" \in v.fl THEN <<13, 10>> ELSE <<13>>
         [] k = 65384 -> Tilde(1)                         \* Find
         [] k = 65379 -> Tilde(2)                         \* Insert
         [] k = 65535 -> Tilde(3)                         \* Delete
         [] k = 65376 -> Tilde(4)                         \* Select
         [] k \in {65365, 65434} -> Tilde(5)              \* Page_Up
         [] k \in {65366, 65435} -> Tilde(6)              \* Page_Down
         [] k \in KeyUp -> arrow(65)
         [] k \in KeyDown -> arrow(66)
         [] k \in KeyRight -> arrow(67)
         [] k \in KeyLeft -> arrow(68)
         [] k \in KeyHome -> edge(72)
         [] k \in KeyEnd -> edge(70)
         [] k = 65438 -> kp(112, 48)                      \* KP_Insert
         [] k \in 65456..65465 -> kp(112 + k - 65456, 48 + k - 65456)
         [] k = 65453 -> kp(109, 45)                      \* KP_Subtract
         [] k = 65452 -> kp(108, 44)                      \* KP_Separator
         [] k \in {65439, 65454} -> kp(110, 46)           \* KP_Decimal
         [] k = 65469 -> kp(88, 61)                       \* KP_Equal
         [] k = 65455 -> kp(111, 47)                      \* KP_Divide
         [] k = 65450 -> kp(106, 42)                      \* KP_Multiply
         [] k = 65451 -> kp(107, 43)                      \* KP_Add
         [] k = 65408 -> <<32>>                           \* KP_Space
         [] k \in 65425..65428 -> f14(k - 65424)          \* KP_F1-KP_F4
         [] fn \in 1..4 -> f14(fn)
         [] fn \in 5..10 -> Tilde(IF shift THEN FnHigh[fn] ELSE FnLow[fn - 4])
         [] fn \in 11..20 -> IF shift THEN Tilde2(FnHigh[fn - 10])
                             ELSE Tilde(FnHigh[fn - 10])
         [] OTHER -> <<>>

(* a character in the current encoding; uni is -1 if the key has none *)
CharBytes(v, uni) ==
    IF "m7" \in v.fl THEN <<IF uni > 127 THEN 63 ELSE uni>>
    ELSE IF "m8" \in v.fl THEN <<IF uni > 255 THEN 63 ELSE uni>>
    ELSE Utf8Encode(uni)

(* result: <<handled, state>> *)
Keyboard(st, keysym, ascii, mods, uni) ==
    LET sym == IF ascii = 0 THEN keysym ELSE ascii
        ctl == IF HasBit(mods, 4) THEN CtrlKey(sym) ELSE 0 - 1
        key == KeyBytes(st.v, keysym, mods)
        pre == IF HasBit(mods, 8) THEN <<27>> ELSE <<>>
    IN IF ctl >= 0 THEN <<TRUE, Send(st, pre \o <<ctl>>)>>
       ELSE IF key # <<>> THEN <<TRUE, Send(st, pre \o key)>>
       ELSE IF uni >= 0 THEN <<TRUE, Send(st, pre \o CharBytes(st.v, uni))>>
       ELSE <<FALSE, st>>

BitOr8(a, b) ==
    FoldLeft(LAMBDA acc, k : acc + (IF HasBit(a, k) \/ HasBit(b, k)
                                    THEN k ELSE 0),
             0, <<1, 2, 4, 8, 16, 32, 64, 128>>)

SgrReport(flags, x, y, pressed) ==
    <<27, 91, 60>> \o Dec(flags) \o <<59>> \o Dec(x) \o <<59>> \o Dec(y)
    \o <<IF pressed THEN 77 ELSE 109>>

(* event: 1 pressed, 2 released, 4 moved; result: <<reported, state>> *)
Mouse(st, cx, cy, px, py, button, event, mods) ==
    LET v == st.v
        b == IF button = 4 THEN 64 ELSE IF button = 5 THEN 65 ELSE button
        moved == event = 4
        flags == IF moved THEN 35 ELSE BitOr8(b, mods)
        pressed == event \in {1, 4}
    IN IF moved /\ (v.mm = 9 \/ v.me # 1003) THEN <<FALSE, st>>
       ELSE IF v.mm = 9
       THEN LET x == Min2(255, cx + 33)
                y == Min2(255, cy + 33)
                f == BitOr8(IF event = 2 THEN 3 ELSE button, mods) + 32
            IN <<TRUE, Send(st, <<27, 91, 77, f, x, y>>)>>
       ELSE IF v.mm = 1006 /\ v.me # 0
       THEN IF moved /\ cx + 1 = v.mlc /\ cy + 1 = v.mlr THEN <<FALSE, st>>
            ELSE LET st1 == IF moved THEN [st EXCEPT !.v.mlc = cx + 1,
                                                     !.v.mlr = cy + 1]
                            ELSE st
                 IN <<TRUE, Send(st1, SgrReport(flags, cx + 1, cy + 1,
                                                pressed))>>
       ELSE IF v.mm = 1016 /\ v.me # 0
       THEN <<TRUE, Send(st, SgrReport(flags, px, py, pressed))>>
       ELSE <<FALSE, st>>
=============================================================================
