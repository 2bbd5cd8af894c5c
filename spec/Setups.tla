------------------------------- MODULE Setups -------------------------------
(***************************************************************************)
(* For each property the small configurations that are explored: the       *)
(* operations that lead to the starting states, the alphabet, and the law. *)
(***************************************************************************)
EXTENDS VLaws

(* ---- building input *)
Empty == 0 - 1    \* a parameter
RECURSIVE Join(_)
Join(ps) == IF ps = <<>> THEN <<>>
            ELSE (IF ps[1] = Empty THEN <<>> ELSE Dec(ps[1]))
                 \o (IF Len(ps) = 1 THEN <<>> ELSE <<59>> \o Join(Tail(ps)))
CsiB(ps, f) == <<27, 91>> \o Join(ps) \o <<f>>
CsiQ(ps, f) == <<27, 91, 63>> \o Join(ps) \o <<f>>
In(bytes) == <<"in", bytes>>
Cup(x, y) == CsiB(<<y + 1, x + 1>>, 72)
Seqs(S) == SetToSeq(S)
Flat(ss) == FoldLeft(LAMBDA acc, x : acc \o x, <<>>, ss)

VAttr == <<16, 17, 229, 229, 229, 0, 0, 0, 0, 0, 0, 0, 0, 0>>
SAttr == <<2, 3, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>
PAttr == [SAttr EXCEPT ![13] = 1]

(* all cells different, in one go (auto-wrap is on) *)
FillV(w, h) == [i \in 1..(w * h) |-> 64 + i]
At(w, x, y) == IF x < w THEN Cup(x, y)
               ELSE Cup(w - 1, y) \o <<64 + (y + 1) * w>>
New(w, h, v) == <<"new", w, h, v, 1, 1>>
Margins(h) == {<<a, b>> \in (1..h) \X (1..h) : a < b}
              \cup (IF h = 1 THEN {<<1, 1>>} ELSE {})

(* filled screens with all margins and cursor positions, each with one of
   the inputs in extra *)
Regions(w, h, extra) ==
    Seqs({<<New(w, h, 1), <<"maxsb", 2>>,
            In(FillV(w, h) \o CsiB(m, 114) \o At(w, x, y) \o e)>> :
          m \in Margins(h), x \in 0..w, y \in 0..(h - 1), e \in extra})

-----------------------------------------------------------------------------
StartsC04 == Regions(3, 3, {<<>>, CsiQ(<<7>>, 108), CsiB(<<4>>, 104),
                            CsiB(<<4>>, 104) \o CsiQ(<<7>>, 108)})
             \o Regions(1, 2, {<<>>, CsiB(<<4>>, 104)})
AlphaC04 == <<<<"write", 120, SAttr>>, <<"write", 19968, SAttr>>,
              <<"write", 768, SAttr>>, In(<<121>>),
              In(<<228, 184, 128>>), <<"newline">>,
              In(<<122, 122, 122, 122>>)>>

StartsC05 == Regions(3, 4, {<<>>, CsiQ(<<6>>, 104)})
             \o Regions(1, 1, {<<>>})
NumsC05 == <<0, 1, 2, 3, 4, 5, 1000000000>>
AlphaC05 ==
    Flat([i \in 1..Len(NumsC05) |->
        LET n == NumsC05[i]
        IN <<<<"moveup", n, 0>>, <<"movedown", n, 0>>, <<"moveup", n, 1>>,
             <<"movedown", n, 1>>, <<"moveleft", n>>, <<"moveright", n>>,
             <<"moveto", n, 1>>, <<"moveto", 1, n>>>>])
    \o <<<<"lineend">>, <<"linehome">>, <<"reset">>, <<"setflags", 4>>,
         <<"resetflags", 4>>, <<"setflags", 91>>, <<"resetflags", 123>>>>
    \o Flat([i \in 1..6 |->
          <<<<"margins", i - 1, 2>>, <<"margins", 2, i - 1>>>>])
    \o Flat([i \in 1..10 |->
          LET f == <<65, 66, 67, 68, 69, 70, 71, 72, 100, 101>>[i]
          IN <<In(CsiB(<<>>, f)), In(CsiB(<<0>>, f)), In(CsiB(<<2>>, f)),
               In(CsiB(<<3, 3>>, f)), In(CsiB(<<99>>, f))>>])
    \o <<In(<<27, 68>>), In(<<27, 69>>), In(<<27, 77>>), In(<<8>>),
         In(<<10>>), In(<<13>>)>>

StartsC06 == Regions(3, 4, {<<>>}) \o Regions(1, 1, {<<>>})
NumsC06 == <<0, 1, 2, 3, 4, 1000000000>>
AlphaC06 ==
    Flat([i \in 1..Len(NumsC06) |->
        LET n == NumsC06[i]
        IN <<<<"scrollup", n>>, <<"scrolldown", n>>, <<"inslines", n>>,
             <<"dellines", n>>, <<"inschars", n>>, <<"delchars", n>>>>])
    \o <<<<"newline">>>>
    \o Flat([i \in 1..6 |->
          LET f == <<64, 80, 76, 77, 83, 84>>[i]
          IN <<In(CsiB(<<>>, f)), In(CsiB(<<2>>, f))>>])
    \o <<In(<<27, 68>>), In(<<27, 77>>), In(<<10>>)>>

StartsC07 == <<<<New(1, 2, 0), <<"maxsb", 2>>>>,
               <<New(1, 2, 0), <<"maxsb", 3>>, <<"write", 65, SAttr>>,
                 <<"newline">>, <<"write", 66, SAttr>>, <<"newline">>,
                 <<"write", 67, SAttr>>, <<"newline">>>>,
               <<New(1, 3, 0), <<"maxsb", 2>>, <<"write", 68, SAttr>>,
                 <<"setflags", 32>>, <<"scrollup", 2>>, <<"sbup", 1>>>>>>
AlphaC07 == <<<<"sbup", 1>>, <<"sbup", 2>>, <<"sbdown", 1>>, <<"sbpgup", 1>>,
              <<"sbpgdown", 1>>, <<"sbreset">>, <<"scrollup", 1>>,
              <<"scrollup", 2>>, <<"write", 120, SAttr>>, <<"newline">>,
              <<"maxsb", 0>>, <<"maxsb", 1>>, <<"maxsb", 3>>, <<"clearsb">>,
              <<"setflags", 32>>, <<"resetflags", 32>>, <<"setflags", 64>>,
              <<"resetflags", 64>>, <<"resize", 2, 1>>, <<"resize", 1, 2>>,
              <<"sbup", 1000000000>>, <<"sbdown", 1000000000>>,
              <<"sbpgup", 1000000000>>, <<"sbpgdown", 1000000000>>,
              <<"sbdown", 2>>>>

StartsC08 ==
    LET fill(w, h, f) ==
          <<New(w, h, 0), <<"setflags", 2>>>>
          \o [i \in 1..(w * h) |->
                 <<"write", 64 + i, IF (i % f) = 0 THEN PAttr ELSE SAttr>>]
    IN Flat([ff \in 1..2 |-> LET f == ff + 1 IN
         Seqs({fill(4, 3, f) \o <<<<"moveto", x, y>>>> :
               x \in 0..3, y \in 0..2}
              \cup {fill(4, 3, f) \o <<<<"moveto", 3, y>>,
                                       <<"write", 90, SAttr>>>> : y \in 0..2}
              \cup {fill(2, 3, f) \o <<<<"moveto", 1, y>>>> : y \in 0..2}
              \cup {fill(4, 3, f) \o <<<<"setflags", 64>>,
                      <<"write", 88, PAttr>>, <<"moveto", 1, 1>>>>})])
AlphaC08 ==
    <<<<"erasecur">>>>
    \o [i \in 1..5 |-> <<"erasechars", <<0, 1, 2, 3, 1000000000>>[i]>>]
    \o Flat([i \in 1..6 |->
          LET k == <<"ecte", "ehtc", "eline", "estc", "ects", "escr">>[i]
          IN <<<<k, 0>>, <<k, 1>>>>])
StartsC08v == Regions(3, 3, {<<>>, CsiB(<<44>>, 109), CsiQ(<<6>>, 104)})
AlphaC08v ==
    Flat([i \in 1..2 |->
       LET f == <<74, 75>>[i]
       IN <<In(CsiB(<<>>, f))>>
          \o [n \in 1..4 |-> In(CsiB(<<n - 1>>, f))]
          \o <<In(CsiQ(<<>>, f))>>
          \o [n \in 1..3 |-> In(CsiQ(<<n - 1>>, f))]])
    \o <<In(CsiB(<<>>, 88)), In(CsiB(<<2>>, 88)), In(CsiB(<<9>>, 88))>>

StartsC09 == <<<<New(18, 1, 1)>>,
               <<New(6, 1, 1), <<"rstall">>, <<"moveto", 2, 0>>, <<"settab">>,
                 <<"moveto", 5, 0>>, <<"settab">>, <<"moveto", 0, 0>>>>,
               <<New(2, 2, 1)>>, <<New(1, 1, 1)>>>>
AlphaC09 == <<<<"settab">>, <<"rsttab">>, <<"rstall">>, <<"tabr", 0>>,
              <<"tabr", 1>>, <<"tabr", 2>>, <<"tabr", 1000000000>>,
              <<"tabl", 0>>, <<"tabl", 1>>, <<"tabl", 2>>,
              <<"tabl", 1000000000>>, <<"moveright", 1>>, <<"moveright", 3>>,
              <<"moveleft", 1>>, <<"lineend">>, <<"write", 120, SAttr>>,
              In(<<9>>), In(<<27, 72>>), In(CsiB(<<>>, 103)),
              In(CsiB(<<3>>, 103)), In(CsiB(<<>>, 90)), In(CsiB(<<2>>, 90)),
              In(CsiB(<<2>>, 73)), <<"resize", 12, 1>>, <<"resize", 18, 1>>,
              <<"resize", 3, 1>>, <<"vreset">>, <<"reset">>>>

StartsC10 ==
    Seqs({<<New(3, 3, 1), <<"maxsb", 4>>,
            In(FillV(3, 3) \o CsiB(<<2, 3>>, 114) \o At(3, x, y) \o e)>> :
          x \in 0..3, y \in 0..2,
          e \in {<<>>, CsiQ(<<1047>>, 104) \o <<97, 98, 99, 100>>
                       \o CsiB(<<44>>, 109),
                 CsiB(<<44>>, 109), CsiB(<<2, 3>>, 114) \o <<10, 10>>}})
AlphaC10 ==
    Flat([w \in 1..5 |-> [h \in 1..5 |-> <<"resize", w, h>>]])
    \o <<<<"resize", 0, 2>>, <<"resize", 2, 0>>>>
ProbeC10 == <<In(<<10>>), In(<<27, 77>>), <<"setflags", 64>>,
              <<"resetflags", 64>>, <<"tabr", 1>>, <<"sbup", 1>>,
              In(CsiB(<<>>, 74)), <<"write", 120, SAttr>>>>

AltOps == <<In(CsiQ(<<47>>, 104)), In(CsiQ(<<47>>, 108)),
            In(CsiQ(<<1047>>, 104)), In(CsiQ(<<1047>>, 108)),
            In(CsiQ(<<1048>>, 104)), In(CsiQ(<<1048>>, 108)),
            In(CsiQ(<<1049>>, 104)), In(CsiQ(<<1049>>, 108))>>
StartsC11 ==
    <<<<New(2, 2, 1), <<"maxsb", 2>>, In(FillV(2, 2))>>,
      <<New(2, 2, 1), <<"maxsb", 2>>, In(CsiQ(<<6>>, 104))>>,
      <<New(2, 3, 1), <<"maxsb", 2>>,
        In(FillV(2, 3) \o CsiB(<<2, 3>>, 114) \o CsiB(<<44>>, 109))>>>>
AlphaC11 == AltOps
            \o <<In(<<120>>), In(<<10>>), In(Cup(1, 1)), In(CsiB(<<2>>, 74)),
                 In(CsiB(<<>>, 76)), <<"scrollup", 1>>, <<"resize", 2, 3>>,
                 <<"resize", 3, 2>>>>

StartsC12 ==
    <<<<New(2, 2, 1), <<"maxsb", 2>>,
        In(FillV(2, 2) \o <<13, 10, 70>>)>>,
      <<New(3, 2, 1), <<"maxsb", 1>>,
        In(<<65, 13, 10, 13, 10, 66, 67, 13, 10, 68, 228, 184, 128>>)>>,
      <<New(2, 2, 1), In(FillV(2, 2))>>,
      <<New(2, 3, 1), <<"maxsb", 2>>, <<"setflags", 64>>, In(FillV(2, 3))>>>>
AlphaC12 ==
    Flat([i \in 1..3 |->
       Flat([j \in 1..2 |-> <<<<"selstart", i - 1, j - 1>>,
                              <<"seltarget", i - 1, j - 1>>>>])])
    \o <<<<"selstart", 1000000000, 1>>, <<"selstart", 1, 1000000000>>,
         <<"seltarget", 9, 9>>, <<"seltarget", 0, 1000000000>>,
         <<"selcopy">>, <<"selreset">>, <<"sbup", 1>>, <<"sbdown", 1>>,
         <<"scrollup", 1>>, <<"scrolldown", 1>>, In(<<13, 10, 97>>),
         <<"scrolldown", 2>>,
         <<"clearsb">>, <<"maxsb", 1>>, In(CsiB(<<>>, 75)),
         <<"resize", 2, 1>>>>

-----------------------------------------------------------------------------
(* The terminal emulator *)

Ins(bss) == [i \in 1..Len(bss) |-> In(bss[i])]
M(p, f) == CsiB(<<p>>, f)
Q(p, f) == CsiQ(<<p>>, f)
Cust == [i \in 1..54 |-> (i * 37) % 256]

StartsC14 == <<<<New(4, 1, 1)>>,
               <<New(4, 1, 1), <<"write", 88, PAttr>>, In(<<97>>)>>,
               <<New(4, 1, 1), In(CsiB(<<1, 3, 4, 5, 7, 31, 42>>, 109))>>,
               <<New(4, 1, 1), <<"pal", "solarized">>,
                 In(CsiB(<<38, 2, 1, 2, 3, 48, 5, 255>>, 109))>>>>
AlphaC14 ==
    [i \in 1..112 |-> In(M(i - 1, 109))]
    \o Flat([k \in 1..2 |->
         LET b == <<38, 48>>[k]
             ns == <<0, 1, 7, 8, 15, 16, 17, 51, 52, 88, 196, 214, 231, 232,
                     244, 255, 256, 300>>
         IN [i \in 1..Len(ns) |-> In(CsiB(<<b, 5, ns[i]>>, 109))]
            \o Ins(<<CsiB(<<b, 2, 1, 2, 3>>, 109),
                     CsiB(<<b, 2, 255, 0, 256>>, 109), CsiB(<<b, 5>>, 109),
                     CsiB(<<b>>, 109), CsiB(<<b, 2, 4>>, 109),
                     CsiB(<<b, 1, 4>>, 109)>>)])
    \o Ins(<<CsiB(<<>>, 109), CsiB(<<1, 31, 44>>, 109), CsiB(<<0, 7>>, 109),
             CsiB(<<4, 38, 5, 9, 1>>, 109), CsiB(<<38, 5, 1, 48, 5, 2>>, 109),
             CsiB(<<1, 3, 4, 5, 7, 22, 23, 24, 25, 27, 30, 40, 90, 100, 31,
                    41, 32>>, 109),
             CsiB(<<48, 2, 9, 8, 7, 38, 2, 6, 5, 4, 1, 3, 4, 7, 5, 91>>, 109),
             CsiB(<<1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 38, 5, 3>>, 109),
             CsiB(<<1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 38, 5, 3>>, 109),
             CsiB(<<Empty, Empty>>, 109), CsiB(<<Empty, 1>>, 109),
             CsiB(<<4, Empty>>, 109), CsiB(<<31, Empty, 7>>, 109),
             <<120>>, CsiB(<<>>, 74), <<27, 55>>, <<27, 56>>>>)
    \o <<<<"pal", "">>, <<"pal", "solarized-white">>, <<"pal", "custom">>,
         <<"pal", "soft-black">>, <<"cpal", Cust>>, <<"cpal", <<>>>>>>

StartsC15 == <<<<New(3, 3, 1), In(FillV(3, 3))>>,
               <<New(3, 3, 1), <<"maxsb", 2>>,
                 In(FillV(3, 3)), <<"moveto", 0, 2>>,
                 <<"write", 88, PAttr>>, In(<<10>> \o CsiB(<<2, 3>>, 114)
                    \o Q(6, 104))>>>>
Decstr == <<27, 91, 33, 112>>
AlphaC15 ==
    Ins(<<<<27, 55>>, <<27, 56>>, Q(1048, 104), Q(1048, 108), Q(1049, 104),
          Q(1049, 108), Cup(2, 1), <<120>>, M(31, 109), <<14>>, <<27, 125>>,
          <<27, 126>>, <<27, 124>>, <<195, 169>>,
          Q(7, 104), Q(7, 108), Q(6, 104), Q(6, 108), M(4, 104),
          CsiB(<<2, 3>>, 114), HardReset, Decstr, Q(1, 104), <<27, 61>>,
          M(20, 104), M(12, 108), Q(1002, 104), Q(1006, 104), <<27, 72>>,
          <<27, 40, 48>>, Q(5, 104), Q(25, 108), <<27, 78>>,
          M(4, 108), M(20, 108), M(12, 104), M(2, 104), M(2, 108),
          Q(1, 108), Q(5, 108), Q(25, 104), Q(8, 104), Q(8, 108),
          Q(42, 104), Q(42, 108),
          <<27, 91, 62, 112>>, <<27, 32, 70>>, <<27, 32, 71>>,
          <<27, 91, 54, 48, 34, 112>>, <<27, 91, 54, 49, 34, 112>>,
          <<27, 91, 54, 50, 34, 112>>, <<27, 91, 54, 51, 59, 49, 34, 112>>,
          <<27, 91, 54, 52, 59, 50, 34, 112>>>>)
    \o <<<<"resize", 2, 2>>, <<"vreset">>, <<"vhard">>>>

StartsC16 == <<<<New(2, 1, 1), In(Q(7, 108))>>>>
AlphaC16 ==
    Flat([t \in 1..4 |-> [c \in 1..4 |->
             In(<<27, 39 + t, <<66, 60, 48, 65>>[c]>>)]])
    \o Ins(<<<<14>>, <<15>>, <<27, 110>>, <<27, 111>>, <<27, 126>>,
             <<27, 125>>, <<27, 124>>, <<27, 78>>, <<27, 79>>, <<113>>,
             <<126>>, <<33>>, <<32>>, <<195, 169>>, <<195, 177>>,
             <<194, 161>>, <<195, 190>>, <<195, 191>>, <<194, 160>>,
             <<226, 148, 128>>, <<196, 161>>>>)

StartsC17 == <<<<New(4, 4, 1)>>,
               <<New(4, 4, 1), In(FillV(4, 2) \o CsiB(<<2, 3>>, 114)
                                  \o Q(6, 104))>>,
               <<New(4, 4, 1), In(M(12, 108))>>>>
AlphaC17 ==
    Ins(<<CsiB(<<>>, 99), M(0, 99), M(1, 99), <<27, 91, 62, 99>>,
          <<27, 91, 62, 48, 99>>, <<27, 91, 61, 99>>, M(5, 110), M(6, 110),
          CsiB(<<>>, 110), M(0, 110), M(7, 110), Q(6, 110), Q(15, 110),
          CsiB(<<0, 0>>, 99), CsiB(<<0, 1>>, 99), CsiB(<<1, 0>>, 99),
          <<27, 91, 59, 99>>, <<27, 91, 62, 59, 49, 99>>, CsiB(<<5, 6>>, 110),
          CsiB(<<0, 6>>, 110), <<27, 91, 59, 54, 110>>,
          <<27, 90>>, <<194, 154>>, <<5>>, Cup(3, 2), Cup(1, 0), <<97>>,
          <<97, 98, 99, 100>>, <<10>>, Q(6, 104), Q(6, 108),
          CsiB(<<2, 3>>, 114), M(12, 104), M(12, 108), CsiB(<<>>, 65),
          <<27, 91, 36, 99>>, <<27, 91, 33, 110>>, <<27, 91, 63, 99>>,
          HardReset, Decstr, CsiB(<<>>, 113), CsiB(<<>>, 120),
          <<27, 80, 36>>, <<27, 91, 54>>>>)
    \o <<<<"key", 97, 97, 0, 97>>, <<"key", 65307, 0, 0, 0 - 1>>,
         <<"key", 65293, 0, 0, 13>>, <<"key", 65362, 0, 8, 0 - 1>>,
         <<"key", 69, 69, 4, 69>>, <<"key", 65505, 0, 0, 0 - 1>>,
         <<"resize", 3, 3>>, <<"vreset">>>>

StartsC18 ==
    Seqs({<<New(3, 2, 1), <<"bs", bs>>,
            In(cl \o (IF ckm THEN Q(1, 104) ELSE <<>>)
               \o (IF app THEN <<27, 61>> ELSE <<>>)
               \o (IF lnm THEN M(20, 104) ELSE <<>>))>> :
          bs \in 0..1, ckm \in BOOLEAN, app \in BOOLEAN, lnm \in BOOLEAN,
          cl \in {<<>>, <<27, 91, 54, 49, 34, 112>>,
                  <<27, 91, 54, 50, 34, 112>>}})
KeySyms == <<65288, 65289, 65290, 65291, 65293, 65299, 65300, 65301, 65307, 65056, 65360,
             65361, 65362, 65363, 65364, 65365, 65366, 65367, 65376, 65379,
             65384, 65408, 65417, 65421, 65505, 65535>>
           \o [i \in 1..15 |-> 65424 + i] \o [i \in 1..16 |-> 65449 + i]
           \o [i \in 1..22 |-> 65468 + i]
CharKeys == <<<<97, 97, 97>>, <<65, 65, 65>>, <<122, 0, 122>>,
              <<50, 50, 50>>, <<32, 32, 32>>, <<91, 91, 91>>, <<56, 56, 56>>,
              <<63, 63, 63>>, <<57, 57, 57>>, <<228, 0, 228>>,
              <<16777536, 0, 320>>, <<16777216, 0, 8364>>,
              <<233, 0, 0 - 1>>, <<255, 0, 255>>, <<256, 0, 256>>,
              <<127, 0, 127>>, <<128, 0, 128>>, <<16777217, 0, 55296>>>>
AlphaC18 ==
    Flat([m \in 1..6 |->
       LET mods == <<0, 1, 4, 8, 12, 5>>[m]
       IN [i \in 1..Len(KeySyms) |-> <<"key", KeySyms[i], 0, mods, 0 - 1>>]
          \o [i \in 1..Len(CharKeys) |->
                <<"key", CharKeys[i][1], CharKeys[i][2], mods,
                  CharKeys[i][3]>>]])
    \o <<<<"key", 65456, 0, 0, 48>>, <<"key", 65293, 13, 0, 13>>,
         <<"key", 65288, 8, 8, 8>>>>

StartsC19 == <<<<New(3, 2, 1)>>, <<New(3, 2, 1), In(Q(1003, 104))>>,
               <<New(3, 2, 1), In(Q(1002, 104) \o Q(1006, 104))>>,
               <<New(3, 2, 1), In(Q(1003, 104) \o Q(1006, 104))>>,
               <<New(3, 2, 1), In(Q(1003, 104) \o Q(1016, 104))>>,
               <<New(3, 2, 1), In(Q(9, 104))>>,
               <<New(3, 2, 1), <<"setmcb", 0>>>>>>
AlphaC19 ==
    Flat([i \in 1..5 |-> LET p == <<9, 1002, 1003, 1006, 1016>>[i]
                         IN <<In(Q(p, 104)), In(Q(p, 108))>>])
    \o <<In(CsiQ(<<1002, 1006>>, 104)), <<"vreset">>>>
    \o Flat([b \in 1..5 |-> LET n == <<0, 1, 2, 4, 5>>[b] IN
          <<<<"mouse", 2, 1, 25, 17, n, 1, 0>>,
            <<"mouse", 2, 1, 25, 17, n, 2, 4>>,
            <<"mouse", 0, 0, 3, 4, n, 1, 28>>>>])
    \o <<<<"mouse", 2, 1, 26, 18, 0, 4, 0>>, <<"mouse", 0, 0, 1, 1, 0, 4, 8>>,
         <<"mouse", 2, 1, 27, 18, 0, 4, 16>>,
         <<"mouse", 222, 223, 1999, 1998, 0, 1, 0>>,
         <<"mouse", 300, 1, 3000, 12, 2, 2, 16>>,
         <<"mouse", 300, 221, 3000, 12, 0, 4, 0>>>>

StartsC20 == <<<<New(4, 2, 1)>>, <<New(4, 2, 1), In(<<27, 93, 97>>)>>,
               <<New(4, 2, 1), In(<<27, 93>> \o [i \in 1..125 |-> 98])>>,
               <<New(4, 2, 1), <<"setosc", 0>>>>>>
AlphaC20 ==
    Ins(<<<<27, 93>>, <<194, 157>>, <<97>>, <<48, 59, 120>>, <<195, 169>>,
          <<226, 148, 128>>, <<240, 159, 152, 128>>,
          [i \in 1..60 |-> 99 + (i % 7)], [i \in 1..127 |-> 65 + (i % 26)],
          <<7>>, <<27, 92>>, <<194, 156>>, <<24>>, <<26>>, <<10>>, <<127>>,
          <<27, 91, 109>>, <<255>>>>)

-----------------------------------------------------------------------------
(* C03: sequences of single characters, from each state of the parser *)
AbcScreen == <<65, 66, 67, 13, 10, 68>>
PreC03 == <<<<>>, <<27>>, <<27, 40>>, <<27, 91>>, <<27, 91, 50>>,
            <<27, 91, 63>>, <<27, 91, 33>>, <<27, 91, 50, 59>>,
            <<27, 91, 50, 58>>, <<27, 93, 97>>, <<27, 80>>, <<27, 80, 97>>,
            <<27, 80, 49>>, <<27, 80, 36>>, <<27, 80, 49, 60>>,
            <<27, 88, 97>>, <<27, 94>>, <<27, 95>>, <<194, 155>>,
            <<194, 144>>, <<194, 152>>,
            <<27, 91>> \o [i \in 1..15 |-> 59],
            <<27, 91, 57, 57, 57, 57, 57, 57>>>>
StartsC03 == [i \in 1..Len(PreC03) |->
                <<New(4, 3, 1), In(AbcScreen), In(PreC03[i])>>]
CharsC03 == <<<<0>>, <<5>>, <<7>>, <<8>>, <<10>>, <<14>>, <<24>>, <<26>>, <<27>>,
              <<28>>, <<32>>, <<33>>, <<34>>, <<36>>, <<40>>, <<47>>, <<48>>,
              <<50>>, <<57>>, <<58>>, <<59>>, <<60>>, <<62>>, <<63>>, <<64>>,
              <<65>>, <<66>>, <<72>>, <<74>>, <<77>>, <<80>>, <<88>>, <<91>>,
              <<92>>, <<93>>, <<94>>, <<95>>, <<99>>, <<104>>, <<109>>,
              <<110>>, <<112>>, <<113>>, <<126>>, <<127>>, <<194, 132>>,
              <<194, 141>>, <<194, 144>>, <<194, 152>>, <<194, 155>>,
              <<194, 156>>, <<194, 157>>, <<194, 159>>, <<194, 160>>,
              <<195, 169>>>>
AlphaC03 == Ins(CharsC03)

(* ghost: the characters since the introducer of a sequence, without control
   characters; <<>> in the ground state *)
Restart == {24, 26, 27} \cup (128..159)
SeqGhost(g, c) ==
    CASE c = 27 -> <<27>>
      [] c = 155 -> <<27, 91>>
      [] c = 144 -> <<27, 80>>
      [] c \in {152, 158, 159} -> <<27, 88>>
      [] c = 157 -> <<27, 93>>
      [] c \in Restart -> <<>>
      [] g = <<>> -> <<>>
      [] c < 32 \/ c = 127 -> IF c = 7 /\ HasPrefix(g, <<27, 93>>) THEN <<>>
                              ELSE g
      [] Len(g) = 1 ->
           CASE c \in {91, 93, 80} -> <<27, c>>
             [] c \in {88, 94, 95} -> <<27, 88>>
             [] c \in 48..126 -> <<>>
             [] OTHER -> <<27, c>>
      [] g[2] \in {93, 80, 88} -> IF Len(g) < 60 THEN Append(g, c) ELSE g
      [] g[2] = 91 -> IF c \in 64..126 THEN <<>> ELSE Append(g, c)
      [] OTHER -> IF c \in 48..126 THEN <<>> ELSE Append(g, c)
(* a control sequence is well-formed *)
WellFormed(u) ==
    \E i, j \in 2..(Len(u) - 1) :
        /\ i <= j
        /\ \A k \in 3..i : u[k] \in (48..57) \cup {59}
                           \/ (u[k] \in 60..63 /\ k = 3)
        /\ \A k \in (i + 1)..j : u[k] \in 32..47
        /\ j = Len(u) - 1

(* parameters: at most 16, digits beyond 65535 are dropped *)
LawParams(u, argv, argc) ==
    LET mid == SelectSeq(SubSeq(u, 3, Len(u)),
                         LAMBDA x : x \in (48..57) \cup {59})
        ps == Numbers(mid, 1, <<0 - 1>>)
    IN \A i \in 1..Min2(16, Len(ps)) :
          IF ps[i] <= 65535 THEN argv[i] = ps[i]
          ELSE argv[i] \in 65535..655359

LawParser(st, o, b, g, g2) ==
    LET c == CodePoint(o[2])
        u == Append(g, c)
        inseq == g # <<>>
        string == inseq /\ Len(g) > 1 /\ g[2] \in {93, 80, 88}
        ends == inseq /\ g2 = <<>> /\ ~(c \in Restart)
        exec(x) == Execute(x, c)
    IN /\ (st.v.ps = "ground") = (g = <<>>)
       /\ (b.v.ps = "ground") = (g2 = <<>>)
       \* introducers and aborts change nothing else
       /\ c \in {27, 24} \cup (144..153) \cup (155..159) =>
            b.s = st.s /\ Sent(b.out) = <<>>
       /\ c = 26 => \* SUB shows an error
            LawPrint(st.s, 191, [i \in 1..14 |-> st.v.ca[i]], b.s)
       /\ c \in {132, 141} => b.s = exec(st).s
       \* a sequence is not printed
       /\ inseq /\ c > 31 /\ c < 127 /\ g2 # <<>> =>
            b.s = st.s /\ b.out = <<>>
       /\ inseq /\ c > 159 => b.s = st.s /\ b.out = <<>>
       \* strings have no effect
       /\ string /\ ~(c \in Restart) => b.s = st.s /\ Sent(b.out) = <<>>
       \* control characters take effect at once and disturb nothing
       /\ inseq /\ ~string /\ c < 32 /\ ~(c \in Restart) =>
            /\ LET x == exec([st EXCEPT !.v.ps = "ground"])
               IN b.s = x.s /\ b.out = x.out /\ b.v.gl = x.v.gl
            /\ b.v.ps = st.v.ps /\ b.v.argv = st.v.argv
            /\ b.v.argc = st.v.argc /\ b.v.cf = st.v.cf
       /\ inseq /\ c = 127 /\ ~string =>
            [b EXCEPT !.out = <<>>] = [st EXCEPT !.out = <<>>]
       \* the final byte: exactly what the sequence means
       /\ ends /\ u[2] = 91 =>
            IF ~WellFormed(u)
            THEN b.s = st.s /\ b.out = <<>> /\ SameV(st, b, {"ps"})
            ELSE /\ Sequence(u).ok /\ Meaning(u) # <<>> =>
                    ScreenLaw(st.s, Meaning(u), b.s)
                 /\ Sent(b.out) = ExpectedReply(st, u)
                 \* intermediates and unknown final characters
                 /\ \/ u[Len(u)] \in {113, 126, 95, 94, 92, 91, 93}
                    \/ \E i \in 3..Len(u) : u[i] \in {32, 40, 47, 60, 62}
                                           /\ u[Len(u)] # 99
                                           /\ u[Len(u)] # 112
                    => b.s = st.s /\ b.out = <<>>
                       /\ SameV(st, b, {"ps", "argc"})
       /\ ends /\ Len(u) = 2 /\ Meaning(u) # <<>> =>
            ScreenLaw(st.s, Meaning(u), b.s)
       /\ ends /\ Len(u) > 2 /\ u[2] \in {32, 34, 36, 47, 58} =>
            b.s = st.s /\ b.out = <<>>
       \* parameters
       /\ g2 # <<>> /\ Len(g2) > 2 /\ g2[2] = 91 =>
            (b.v.ps \in {"csi", "csiparam"} =>
               LawParams(g2, b.v.argv, b.v.argc))
       /\ b.v.argc \in 0..16

-----------------------------------------------------------------------------
(* C01: the ghost is [in, out, st]: all the input since the start, all the
   output, and the state at the start *)
StartsC01 == <<<<New(4, 2, 1)>>, <<New(4, 2, 1), In(M(12, 108) \o <<65>>)>>>>
AlphaC01 == Ins(<<<<27>>, <<91>>, <<49>>, <<59>>, <<109>>, <<110>>, <<72>>,
                  <<65>>, <<226>>, <<148>>, <<128>>, <<194>>, <<155>>, <<54>>,
                  <<93>>, <<7>>, <<24>>, <<78>>, <<10>>, <<63>>, <<255>>,
                  <<240>>>>)
JoinOut(x, y) ==
    LET n == Len(x)
    IN IF x = <<>> THEN y ELSE IF y = <<>> THEN x
       ELSE IF x[n][1] = "w" /\ y[1][1] = "w"
       THEN SubSeq(x, 1, n - 1) \o <<<<"w", x[n][2] \o y[1][2]>>>> \o Tail(y)
       ELSE x \o y

(* C02: strings of bytes *)
PreC02 == <<<<>>, <<195>>, <<226>>, <<226, 148>>, <<224>>, <<237>>, <<240>>,
            <<240, 159>>, <<240, 159, 152>>, <<244>>, <<244, 143, 191>>>>
Title == <<27, 93, 50, 59>>
StartsC02 == [i \in 1..Len(PreC02) |-> <<New(9, 2, 1), In(PreC02[i])>>]
    \o [i \in 1..4 |-> <<New(9, 2, 1), In(Title \o PreC02[<<1, 3, 4, 8>>[i]])>>]
AlphaC02 == [i \in 1..22 |-> In(<<<<65, 128, 143, 144, 159, 160, 175, 191, 192,
              193, 194, 223, 224, 226, 237, 239, 240, 241, 244, 245, 247,
              255>>[i]>>)]

(* C29: all operations, with arguments from everywhere, in odd states *)
BigNum == 1000000000
StartsC29 ==
    <<<<New(1, 1, 1), In(<<65>>)>>,
      <<New(2, 1, 1), <<"maxsb", 1>>, In(<<65, 228, 184, 128>>)>>,
      <<New(1, 3, 1), <<"maxsb", 3>>, <<"setflags", 2>>,
        <<"write", 65, SAttr>>, <<"scrollup", 3>>, <<"sbup", 1>>,
        <<"selstart", 0, 0>>, <<"seltarget", 0, 2>>>>,
      <<New(3, 2, 1), <<"maxsb", 2>>,
        In(FillV(3, 2) \o <<10, 10, 10>>), <<"sbup", 2>>,
        <<"selstart", 2, 0>>, <<"seltarget", 0, 1>>,
        In(Q(1049, 104) \o Cup(2, 1) \o <<66>>)>>,
      <<New(3, 4, 1), In(FillV(3, 4) \o CsiB(<<2, 3>>, 114)
                        \o CsiQ(<<6>>, 104))>>>>
NumsC29 == <<0, 1, 3, BigNum>>
AlphaC29 ==
    Flat([i \in 1..4 |->
        LET n == NumsC29[i]
        IN <<<<"sbup", n>>, <<"sbdown", n>>, <<"sbpgup", n>>,
             <<"sbpgdown", n>>, <<"scrollup", n>>, <<"scrolldown", n>>,
             <<"moveto", n, n>>, <<"moveup", n, 1>>, <<"movedown", n, 1>>,
             <<"moveleft", n>>, <<"moveright", n>>, <<"tabr", n>>,
             <<"tabl", n>>, <<"inslines", n>>, <<"dellines", n>>,
             <<"inschars", n>>, <<"delchars", n>>, <<"erasechars", n>>,
             <<"selstart", n, n>>, <<"seltarget", n, 0>>,
             <<"margins", n, n>>, <<"margins", 1, n>>>>])
    \o <<<<"maxsb", 0>>, <<"maxsb", 3>>, <<"clearsb">>, <<"sbreset">>,
         <<"reset">>, <<"setflags", 127>>, <<"resetflags", 127>>,
         <<"settab">>, <<"rsttab">>, <<"rstall">>,
         <<"write", 65, SAttr>>, <<"write", 19968, SAttr>>,
         <<"write", 769, SAttr>>, <<"write", BigNum, SAttr>>, <<"newline">>,
         <<"lineend">>, <<"linehome">>, <<"erasecur">>, <<"ecte", 0>>,
         <<"ehtc", 0>>, <<"eline", 1>>, <<"estc", 0>>, <<"ects", 1>>,
         <<"escr", 0>>, <<"selreset">>, <<"selcopy">>,
         <<"resize", 1, 1>>, <<"resize", 1, 4>>, <<"resize", 4, 1>>,
         <<"resize", 0, 1>>, <<"resize", 5, 5>>, <<"draw">>>>

(* and input and keys, in all parser states *)
StartsC29v == [i \in 1..Len(PreC03) |->
                 <<New(2, 2, 1), In(<<65, 66>> \o PreC03[i])>>]
AlphaC29v ==
    Ins([i \in 1..32 |->
           <<<<0, 7, 8, 10, 14, 24, 27, 32, 33, 36, 40, 48, 57, 59, 63, 64, 65,
               74, 80, 88, 91, 93, 94, 99, 104, 109, 127, 128, 155, 156, 226,
               255>>[i]>>])
    \o Ins(<<CsiB([i \in 1..17 |-> 65535], 109), CsiB(<<>>, 112),
             CsiB(<<99999999, 99999999>>, 72), CsiB(<<38, 5>>, 109),
             CsiB(<<38, 5, 256>>, 109), CsiB(<<48, 2, 1, 300>>, 109),
             CsiQ(<<1049, 6, 1003, 1016>>, 104), <<27, 93>>
               \o [i \in 1..140 |-> 97]>>)
    \o <<<<"key", 65307, 0, 15, 27>>, <<"key", 65470, 0, 0, 0>>,
         <<"key", 0, 0, 4, BigNum>>, <<"mouse", 0, 0, 0, 0, 0, 1, 0>>,
         <<"mouse", BigNum, BigNum, BigNum, BigNum, 7, 2, 255>>,
         <<"vreset">>, <<"vhard">>, <<"pal", "nonsense">>, <<"setmcb", 0>>,
         <<"setosc", 0>>, <<"bs", 1>>>>

(* C27: what is drawn *)
DAttr(S) == [i \in 1..14 |-> IF i <= 8 THEN SAttr[i]
                             ELSE IF i \in S THEN 1 ELSE 0]
StartsC27 ==
    <<<<New(2, 2, 0), <<"maxsb", 2>>, <<"setflags", 2>>,
        <<"write", 65, DAttr({9})>>, <<"write", 32, DAttr({11})>>,
        <<"write", 32, DAttr({})>>, <<"newline">>,
        <<"write", 66, DAttr({12, 14})>>, <<"newline">>,
        <<"write", 67, DAttr({10})>>>>,
      <<New(3, 1, 0), <<"maxsb", 1>>, <<"write", 19968, DAttr({12})>>>>,
      <<New(2, 2, 0), <<"maxsb", 2>>, <<"write", 65, SAttr>>, <<"newline">>,
        <<"newline">>, <<"resize", 3, 2>>, <<"sbup", 1>>>>>>
AlphaC27 ==
    [i \in 1..7 |-> <<"write", 65, DAttr(<<{}, {9}, {10}, {11}, {12}, {13},
                                          {14}>>[i])>>]
    \o <<<<"write", 32, DAttr({})>>, <<"write", 32, DAttr({11})>>,
         <<"write", 19968, DAttr({11, 12})>>,
         <<"setflags", 8>>, <<"resetflags", 8>>, <<"setflags", 16>>,
         <<"resetflags", 16>>, <<"moveto", 0, 0>>, <<"moveto", 1, 0>>,
         <<"moveto", 0, 1>>, <<"lineend">>, <<"sbup", 1>>, <<"sbdown", 1>>,
         <<"selstart", 0, 0>>, <<"selstart", 1, 0>>, <<"seltarget", 1, 0>>,
         <<"seltarget", 0, 1>>, <<"selreset">>, <<"scrollup", 1>>,
         <<"resize", 3, 2>>, <<"resize", 1, 1>>, <<"erasecur">>>>

(* cells that differ, in any respect or only by being inverted *)
Drawn(s) == [y \in 1..s.h |-> ViewRow(s, y - 1)]
Changes(s, a) == {<<x, y>> \in Cols(s) \X Rows(s) :
                    ViewCell(s, y, x) # ViewCell(a, y, x)}
Inverted(s, a, p) ==
    LET c == ViewCell(s, p[2], p[1])
        d == ViewCell(a, p[2], p[1])
    IN c # <<>> /\ d # <<>> /\ c = [d EXCEPT ![3][12] = 1 - @]
(* where the cursor is in the view, if it is there *)
CursorAt(s) == {<<CurX(s), y>> : y \in {y \in Rows(s) :
                                         y - ViewSbRows(s) = s.cy}}
Beyond(s) == {<<x, y>> \in Cols(s) \X Rows(s) : ViewCell(s, y, x) = <<>>}
LawDraw(st, o, b) ==
    LET s == st.s
        a == b.s
        flags == o[1] \in {"setflags", "resetflags"}
    IN /\ flags /\ o[2] = 16 =>
            /\ Changes(s, a) = IF s.hide = a.hide THEN {}
                               ELSE CursorAt(s) \ Beyond(s)
            /\ \A p \in Changes(s, a) : Inverted(s, a, p)
       /\ flags /\ o[2] = 8 =>
            /\ Changes(s, a) = IF s.inv = a.inv THEN {}
                               ELSE (Cols(s) \X Rows(s)) \ Beyond(s)
            /\ \A p \in Changes(s, a) : Inverted(s, a, p)
       \* the cursor highlights one cell, wherever it is moved
       /\ o[1] \in {"moveto", "lineend"} =>
            /\ Changes(s, a) =
                  IF s.hide THEN {}
                  ELSE ((CursorAt(s) \cup CursorAt(a))
                        \ (CursorAt(s) \cap CursorAt(a))) \ Beyond(s)
            /\ \A p \in Changes(s, a) : Inverted(s, a, p)
       \* selections invert, and that is all
       /\ o[1] \in {"selstart", "seltarget", "selreset"} =>
            \A p \in Changes(s, a) : Inverted(s, a, p)
       /\ o[1] = "write" /\ s.pos = 0 =>
            \A p \in Changes(s, a) :
               \/ p[2] \in {s.cy, a.cy} \/ s.cy = s.mb \/ s.sel
       \* another view of the same
       /\ o[1] \in {"sbup", "sbdown"} =>
            \A y \in Rows(s), z \in Rows(a) :
               ViewRowNum(s, y) = ViewRowNum(a, z) =>
                  ViewRow(s, y) = ViewRow(a, z)
DrawOk(s) == /\ Cardinality(CursorAt(s)) <= 1
             /\ \A y \in Rows(s), x \in Cols(s) :
                   LET c == ViewCell(s, y, x)
                   IN c # <<>> => /\ c[4] \in 0..1 /\ (c[4] = 0 => c[1] = 0)
                                  /\ c[1] = 0 => c[4] = 0

(* C26: an operation, after which allocation of lines fails *)
FilledC26(sb, e) == <<New(3, 3, 1), <<"maxsb", sb>>,
                      In(FillV(3, 3) \o <<13, 10, 74, 13, 10, 75>> \o e)>>
StartsC26 ==
    <<FilledC26(0, <<>>), FilledC26(2, <<>>), FilledC26(4, <<>>),
      FilledC26(4, CsiB(<<2, 3>>, 114) \o Cup(1, 2)),
      FilledC26(4, CsiQ(<<1047>>, 104) \o <<97, 98, 99, 100>>),
      FilledC26(2, <<>>) \o <<<<"setflags", 32>>, <<"sbup", 1>>>>,
      FilledC26(3, <<>>) \o <<<<"sbup", 2>>>>,
      FilledC26(2, <<>>) \o <<<<"selstart", 1, 0>>, <<"seltarget", 0, 2>>>>>>
AlphaC26 ==
    Flat([n \in 1..4 |-> <<<<"lose", n - 1, 0>>, <<"lose", n - 1, 1>>>>])
    \o <<<<"scrollup", 1>>, <<"scrollup", 2>>, <<"scrollup", 9>>,
         <<"newline">>, In(<<10, 10, 120>>), In(<<121, 122, 65, 66, 67>>),
         In(CsiB(<<3>>, 83)), <<"resize", 3, 1>>, <<"resize", 2, 2>>,
         <<"resize", 5, 5>>, <<"movedown", 2, 1>>>>

-----------------------------------------------------------------------------
StartOps(P) == CASE P = "C01" -> StartsC01
                 [] P = "C02" -> StartsC02
                 [] P = "C03" -> StartsC03
                 [] P = "C04" -> StartsC04
                 [] P = "C05" -> StartsC05
                 [] P = "C06" -> StartsC06
                 [] P = "C07" -> StartsC07
                 [] P = "C08" -> StartsC08
                 [] P = "C08v" -> StartsC08v
                 [] P = "C09" -> StartsC09
                 [] P = "C10" -> StartsC10
                 [] P = "C11" -> StartsC11
                 [] P = "C12" -> StartsC12
                 [] P = "C14" -> StartsC14
                 [] P = "C15" -> StartsC15
                 [] P = "C16" -> StartsC16
                 [] P = "C17" -> StartsC17
                 [] P = "C18" -> StartsC18
                 [] P = "C19" -> StartsC19
                 [] P = "C20" -> StartsC20
                 [] P = "C26" -> StartsC26
                 [] P = "C27" -> StartsC27
                 [] P = "C29" -> StartsC29
                 [] P = "C29v" -> StartsC29v
Alphabet(P) == CASE P = "C01" -> AlphaC01
                 [] P = "C02" -> AlphaC02
                 [] P = "C03" -> AlphaC03
                 [] P = "C04" -> AlphaC04
                 [] P = "C05" -> AlphaC05
                 [] P = "C06" -> AlphaC06
                 [] P = "C07" -> AlphaC07
                 [] P = "C08" -> AlphaC08
                 [] P = "C08v" -> AlphaC08v
                 [] P = "C09" -> AlphaC09
                 [] P = "C10" -> AlphaC10 \o ProbeC10
                 [] P = "C11" -> AlphaC11
                 [] P = "C12" -> AlphaC12
                 [] P = "C14" -> AlphaC14
                 [] P = "C15" -> AlphaC15
                 [] P = "C16" -> AlphaC16
                 [] P = "C17" -> AlphaC17
                 [] P = "C18" -> AlphaC18
                 [] P = "C19" -> AlphaC19
                 [] P = "C20" -> AlphaC20
                 [] P = "C26" -> AlphaC26
                 [] P = "C27" -> AlphaC27
                 [] P = "C29" -> AlphaC29
                 [] P = "C29v" -> AlphaC29v

GhostInit(P, st) ==
    CASE P = "C01" -> [in |-> <<>>, out |-> <<>>, st |-> [st EXCEPT !.out = <<>>]]
      [] P = "C02" ->
           LET u == CHOOSE u \in {PreC02[i] : i \in 1..Len(PreC02)} :
                      FoldLeft(LAMBDA m, x : Utf8Feed(m, x).m, Utf8Start, u)
                        = st.v.mach
           IN [in |-> u, cps |-> <<>>]
      [] P = "C03" ->
           LET n == {i \in 1..Len(PreC03) :
                       LET x == Input([st EXCEPT !.v.ps = "ground"], PreC03[i])
                       IN x.v = st.v}
               u == PreC03[CHOOSE i \in n : TRUE]
           IN IF st.v.ps = "ground" THEN <<>>
              ELSE IF u[1] = 27
              THEN IF Len(u) > 1 /\ u[2] \in {94, 95} THEN <<27, 88>> ELSE u
              ELSE SeqGhost(<<>>, CodePoint(u))
      [] P = "C15" -> SavedGhost0(st)
      [] P = "C16" -> SetsGhost0
      [] P = "C19" -> <<st.v.mm, st.v.me>>
      [] P = "C20" -> <<st.v.ps = "osc", st.v.osc>>
      [] OTHER -> 0
GhostNext(P, g, st, o, st2) ==
    CASE P = "C01" -> [g EXCEPT !.in = @ \o o[2], !.out = JoinOut(@, st2.out)]
      [] P = "C02" -> [in |-> g.in \o o[2],
                       cps |-> g.cps \o Utf8Feed(st.v.mach, o[2][1]).cps]
      [] P = "C03" -> SeqGhost(g, CodePoint(o[2]))
      [] P = "C15" -> SavedGhost(g, st, o, st2)
      [] P = "C16" -> SetsGhost(g, o)
      [] P = "C19" -> MouseGhost(g, o)
      [] P = "C20" -> OscGhost(g, o)
      [] OTHER -> g

(* C26: all is as if no allocation had failed, except that one line, or all
   from some line on, that left the screen did not enter the scrollback *)
Regular(st) == [st EXCEPT !.s.lose = 0 - 1, !.s.loseall = FALSE]
LawLose(st, o, b) ==
    LET s == st.s
        good == Apply(Regular(st), o).st
        left == Apply([Regular(st) EXCEPT !.s.sb = <<>>, !.s.sbmax = 1000,
                                          !.s.pos = 0, !.s.sel = FALSE],
                      o).st.s.sb
        n == Min2(Len(left), s.lose)
        kept == IF s.loseall THEN SubSeq(left, 1, n)
                ELSE SubSeq(left, 1, n) \o SubSeq(left, n + 2, Len(left))
    IN /\ [good EXCEPT !.s = 0] = [b EXCEPT !.s = 0]
       /\ Same(good.s, b.s, {"sb", "lid", "pos", "ss", "se"})
       /\ b.s.sb = IF s.sbmax = 0 THEN <<>> ELSE LastOf(s.sb \o kept, s.sbmax)
       /\ s.fix /\ s.pos # 0 /\ SbHas(b.s, s.pos) => b.s.pos = s.pos
       /\ ScreenOk(b.s)

Law(P, st, o, b, g, g2) ==
    IF o[1] = "lose" THEN TRUE ELSE
    IF st.s.lose >= 0 THEN LawLose(st, o, b) ELSE
    /\ ScreenLaw(st.s, o, b.s)
    /\ P = "C12" /\ o[1] \in {"scrollup", "newline", "in"}
         => LawSelFollows(st.s, b.s)
    /\ P \in {"C05", "C06", "C08v", "C09", "C17"} /\ o[1] = "in"
         => LawMeaning(st, o[2], b)
    /\ CASE P = "C01" -> Input(g2.st, g2.in) = [b EXCEPT !.out = g2.out]
         [] P = "C02" -> LawDecode(g2)
         [] P = "C03" -> LawParser(st, o, b, g, g2)
         [] P = "C14" -> /\ LawSgr(st, o, b) /\ LawPalette(st, o, b)
                         /\ Is(o, <<120>>) => LawPrinted(st, 120, b)
         [] P = "C15" -> LawSaved(st, o, b, g) /\ LawMode(st, o, b)
         [] P = "C11" -> LawMode(st, o, b)
         [] P = "C16" -> LawSets(st, o, b, g)
         [] P = "C17" -> LawReply(st, o, b)
         [] P = "C18" -> LawKey(st, o, b)
         [] P = "C19" -> LawMouse(st, o, b, g)
         [] P = "C20" -> LawOsc(st, o, b, g)
         [] P = "C27" -> LawDraw(st, o, b)
         [] OTHER -> TRUE
StateLaw(P, st, g) == /\ ScreenOk(st.s)
                      /\ P = "C12" /\ ~st.s.alt => LawCopy(st.s)
                      /\ P = "C27" => DrawOk(st.s)
                      /\ P = "C14" => ColourOk(st.v, st.v.ca)

ASSUME LawEncode
=============================================================================
