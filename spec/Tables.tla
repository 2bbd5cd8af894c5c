------------------------------- MODULE Tables -------------------------------
(***************************************************************************)
(* Constant tables of the terminal: colour palettes and character sets.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

(* 16 colours, then foreground and background *)
PalLegacy == <<
  <<0,0,0>>, <<205,0,0>>, <<0,205,0>>, <<205,205,0>>,
  <<0,0,238>>, <<205,0,205>>, <<0,205,205>>, <<229,229,229>>,
  <<127,127,127>>, <<255,0,0>>, <<0,255,0>>, <<255,255,0>>,
  <<92,92,255>>, <<255,0,255>>, <<0,255,255>>, <<255,255,255>>,
  <<229,229,229>>, <<0,0,0>> >>
PalVga == <<
  <<0,0,0>>, <<170,0,0>>, <<0,170,0>>, <<170,85,0>>,
  <<0,0,170>>, <<170,0,170>>, <<0,170,170>>, <<170,170,170>>,
  <<85,85,85>>, <<255,85,85>>, <<85,255,85>>, <<255,255,85>>,
  <<85,85,255>>, <<255,85,255>>, <<85,255,255>>, <<255,255,255>>,
  <<170,170,170>>, <<0,0,0>> >>
PalSolarized == <<
  <<7,54,66>>, <<220,50,47>>, <<133,153,0>>, <<181,137,0>>,
  <<38,139,210>>, <<211,54,130>>, <<42,161,152>>, <<238,232,213>>,
  <<0,43,54>>, <<203,75,22>>, <<88,110,117>>, <<101,123,131>>,
  <<131,148,150>>, <<108,113,196>>, <<147,161,161>>, <<253,246,227>>,
  <<238,232,213>>, <<7,54,66>> >>
(* the variants of solarized differ in black and in the default colours *)
PalSolarizedBlack ==
    [PalSolarized EXCEPT ![1] = <<0,0,0>>, ![18] = <<0,0,0>>]
PalSolarizedWhite ==
    [PalSolarized EXCEPT ![17] = <<7,54,66>>, ![18] = <<238,232,213>>]
PalSoftBlack == <<
  <<63,63,63>>, <<112,80,80>>, <<96,180,138>>, <<223,175,143>>,
  <<154,184,215>>, <<220,140,195>>, <<140,208,211>>, <<255,255,255>>,
  <<112,144,128>>, <<220,163,163>>, <<114,213,163>>, <<240,223,175>>,
  <<148,191,243>>, <<236,147,211>>, <<147,224,227>>, <<220,220,204>>,
  <<220,220,204>>, <<44,44,44>> >>
PalBase16Dark == <<
  <<0,0,0>>, <<171,70,66>>, <<161,181,108>>, <<247,202,136>>,
  <<124,175,194>>, <<186,139,175>>, <<134,193,185>>, <<170,170,170>>,
  <<85,85,85>>, <<171,70,66>>, <<161,181,108>>, <<247,202,136>>,
  <<124,175,194>>, <<186,139,175>>, <<134,193,185>>, <<255,255,255>>,
  <<216,216,216>>, <<24,24,24>> >>
PalBase16Light ==
    [PalBase16Dark EXCEPT ![17] = <<24,24,24>>, ![18] = <<216,216,216>>]

Palette(name, custom) ==
    CASE name = "custom" /\ custom # <<>> -> custom
      [] name = "solarized" -> PalSolarized
      [] name = "solarized-black" -> PalSolarizedBlack
      [] name = "solarized-white" -> PalSolarizedWhite
      [] name = "soft-black" -> PalSoftBlack
      [] name = "base16-dark" -> PalBase16Dark
      [] name = "base16-light" -> PalBase16Light
      [] name = "vga" -> PalVga
      [] OTHER -> PalLegacy

-----------------------------------------------------------------------------
(* Character sets: the character at position p (1..94) *)

DecSpecial == <<9830, 9618, 9225, 9228, 9229, 9226, 176, 177, 9252, 9227,
  9496, 9488, 9484, 9492, 9532, 9146, 9147, 9472, 9148, 9149, 9500, 9508,
  9524, 9516, 9474, 8804, 8805, 960, 8800, 163, 8901>>
DecSuppUndefined == {4, 6, 12, 13, 14, 15, 20, 24, 30, 48, 62, 80, 94}

Charset(set, p) ==
    CASE set = "lower" -> p + 32
      [] set = "upper" -> p + 160
      [] set = "special" -> IF p < 63 THEN p + 32
                            ELSE IF p = 63 THEN 0 ELSE DecSpecial[p - 63]
      [] set = "supplemental" ->
            CASE p \in DecSuppUndefined -> 0
              [] p = 8 -> 164
              [] p = 55 -> 338
              [] p = 61 -> 376
              [] p = 87 -> 339
              [] p = 93 -> 255
              [] OTHER -> p + 160

=============================================================================
