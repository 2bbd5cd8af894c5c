-------------------------------- MODULE Utf8 --------------------------------
(***************************************************************************)
(* UTF-8 decoding and encoding of libtsm (property C02).                   *)
(*                                                                         *)
(* The decoder consumes one byte at a time.  Its state is <<need, cp>>:    *)
(* the number of continuation bytes that are still missing and the code    *)
(* point bits collected so far.  Utf8Feed yields the new state and the     *)
(* sequence of code points that the byte completes (zero, one or two: an   *)
(* incomplete sequence that is cut short shows the replacement character   *)
(* and the byte that cuts it short is decoded on its own).                 *)
(***************************************************************************)
EXTENDS Integers, Sequences

Utf8Start == <<0, 0>>
Utf8Replacement == 65533

(* a byte in the initial state *)
Utf8Lead(b) ==
    CASE b < 128 -> [m |-> Utf8Start, cps |-> <<b>>]
      [] b \in 128..191 -> [m |-> Utf8Start, cps |-> <<>>]   \* stray
      [] b \in 194..223 -> [m |-> <<1, (b % 32) * 64>>, cps |-> <<>>]
      [] b \in 224..239 -> [m |-> <<2, (b % 16) * 4096>>, cps |-> <<>>]
      [] b \in 240..247 -> [m |-> <<3, (b % 8) * 262144>>, cps |-> <<>>]
      [] OTHER -> [m |-> Utf8Start, cps |-> <<Utf8Replacement>>]

Utf8IsCont(b) == b \in 128..191
(* bytes that can start a sequence *)
Utf8IsStart(b) == b < 128 \/ b \in 194..247

(* overlong forms of 3 and 4 byte sequences show up at the second byte *)
Utf8Overlong(need, cp) == \/ need = 3 /\ cp < 65536
                          \/ need = 2 /\ cp < 2048

Utf8Feed(m, b) ==
    IF m[1] = 0 THEN Utf8Lead(b)
    ELSE IF Utf8IsCont(b)
    THEN LET need == m[1]
             cp == m[2] + (b % 64) * (CASE need = 3 -> 4096
                                        [] need = 2 -> 64
                                        [] need = 1 -> 1)
         IN IF Utf8Overlong(need, cp)
               \/ (need = 1 /\ (cp > 1114111 \/ cp \in 55296..57343))
            THEN [m |-> Utf8Start, cps |-> <<Utf8Replacement>>]
            ELSE IF need = 1
            THEN [m |-> Utf8Start, cps |-> <<cp>>]
            ELSE [m |-> <<need - 1, cp>>, cps |-> <<>>]
    ELSE IF Utf8IsStart(b)
    THEN LET l == Utf8Lead(b)
         IN [m |-> l.m, cps |-> <<Utf8Replacement>> \o l.cps]
    ELSE [m |-> Utf8Start, cps |-> <<Utf8Replacement>>]

(* the unique shortest form; nothing for what is not a character *)
Utf8Encodable(g) ==
    /\ g \in 0..1114111
    /\ ~ g \in 55296..57343
    /\ ~ g % 65536 \in {65534, 65535}
    /\ ~ g \in 64976..65007

Utf8Encode(g) ==
    IF ~Utf8Encodable(g) THEN <<>>
    ELSE IF g < 128 THEN <<g>>
    ELSE IF g < 2048 THEN <<192 + g \div 64, 128 + (g % 64)>>
    ELSE IF g < 65536
    THEN <<224 + g \div 4096, 128 + ((g \div 64) % 64), 128 + (g % 64)>>
    ELSE <<240 + g \div 262144, 128 + ((g \div 4096) % 64),
           128 + ((g \div 64) % 64), 128 + (g % 64)>>
=============================================================================
