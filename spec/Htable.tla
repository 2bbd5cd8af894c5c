------------------------------- MODULE Htable -------------------------------
(***************************************************************************)
(* The hash table (C22): open addressing with linear probing, where the    *)
(* bits that all element addresses have in common hold bits of the hash    *)
(* and a mark for elements in their first bucket.  Addresses have W bits.  *)
(* The laws say that it behaves as a multiset of elements.                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Bitwise, TLC, Json

CONSTANTS W, Set, Depth, Rule

VARIABLES st, path
vars == <<st, path>>

(* elements: address, key, hash *)
Elements ==
    CASE Set = 1 -> <<<<16, 1, 0>>, <<24, 2, 0>>, <<24 + 32, 3, 1>>,
                      <<18, 4, 3>>, <<40, 4, 3>>>>
      [] Set = 2 -> <<<<2, 1, 2>>, <<3, 2, 6>>, <<6, 3, 3>>, <<10, 3, 3>>,
                      <<34, 5, 0>>>>
      [] Set = 3 -> <<<<16, 1, 5>>, <<17, 2, 5>>, <<48, 3, 1>>, <<28, 4, 13>>,
                      <<20, 5, 9>>, <<52, 6, 1>>>>
El == Elements
Ids == 1..Len(El)
Keys == {El[i][2] : i \in Ids}
HashOf(k) == El[CHOOSE i \in Ids : El[i][2] = k][3]
A == [i \in 1..Len(El) |-> <<"ins", i>>]
     \o [i \in 1..Len(El) |-> <<"insfail", i>>]
     \o [i \in 1..Len(El) |-> <<"rem", El[i][2], El[i][3]>>]
     \o <<<<"hclear">>>>
ASSUME PrintT("ALPHABET " \o ToJson(A))
ASSUME PrintT("STARTS " \o ToJson(<<[i \in Ids |-> <<"elem">> \o El[i]]>>))

All == 2^W - 1
Inv(x) == All - x
Deleted == 1
Empty == [none |-> TRUE, table |-> <<0>>, bits |-> 0, elems |-> 0, del |-> 0,
          max |-> 0, maxdel |-> 0, mask |-> All, common |-> 0, perfect |-> 0]

Size(s) == 2^s.bits
Valid(e) == e > Deleted
RawPtr(s, e) == (e & Inv(s.mask)) | s.common
HashBits(s, h) == ((h ^^ (h \div (2^s.bits))) & s.mask) & Inv(s.perfect)
Bucket(s, h) == h % Size(s)
HashAt(p) == El[CHOOSE i \in Ids : El[i][1] = p][3]

RECURSIVE AddAt(_, _, _, _, _)
AddAt(s, p, h, i, perfect) ==
    IF Valid(s.table[i + 1]) THEN AddAt(s, p, h, (i + 1) % Size(s), 0)
    ELSE [s EXCEPT !.table[i + 1] =
             (p & Inv(s.mask)) | (HashBits(s, h) | perfect)]
HtAdd(s, p, h) == AddAt(s, p, h, Bucket(s, h), s.perfect)

RECURSIVE LowBit(_, _)
LowBit(m, b) == IF m & b # 0 THEN b ELSE LowBit(m, 2 * b)
RECURSIVE Reinsert(_, _)
Reinsert(s, es) ==
    IF es = <<>> THEN s
    ELSE Reinsert(HtAdd(s, Head(es), HashAt(Head(es))), Tail(es))
Double(s) ==
    LET n == s.bits + 1
        olds == SelectSeq(s.table, Valid)
        ptrs == [i \in 1..Len(olds) |-> RawPtr(s, olds[i])]
        s2 == [s EXCEPT
                 !.none = FALSE, !.bits = n, !.max = (3 * 2^n) \div 4,
                 !.maxdel = (9 * 2^n) \div 10,
                 !.table = [i \in 1..(2^n) |-> 0], !.del = 0,
                 !.perfect = IF @ = 0 /\ s.mask # 0 /\ Rule # "noperfect"
                             THEN LowBit(s.mask, 1) ELSE @]
    IN Reinsert(s2, IF s.none THEN <<>> ELSE ptrs)

RECURSIVE RehashFrom(_, _, _)
RehashFrom(s, start, i) ==
    IF i = Size(s) THEN [s EXCEPT !.del = 0]
    ELSE LET h == (i + start) % Size(s)
             e == s.table[h + 1]
             s2 == [s EXCEPT !.table[h + 1] = 0]
         IN RehashFrom(
              IF e = 0 THEN s
              ELSE IF e = Deleted THEN s2
              ELSE IF (e & s.perfect) # 0 THEN s
              ELSE LET p == RawPtr(s, e) IN HtAdd(s2, p, HashAt(p)),
              start, i + 1)
Rehash(s) ==
    LET start == IF Rule = "zerostart" THEN 0
                 ELSE (CHOOSE i \in 1..Size(s) :
                        /\ s.table[i] = 0
                        /\ \A j \in 1..(i - 1) : s.table[j] # 0) - 1
    IN RehashFrom(s, start, 0)

RECURSIVE HighBit(_, _)
HighBit(p, b) == IF p & b # 0 \/ b = 1 THEN b ELSE HighBit(p, b \div 2)
UpdateCommon(s, p) ==
    IF s.elems = 0
    THEN LET m == Inv(HighBit(p, 2^(W - 1)))
         IN [s EXCEPT !.mask = m, !.common = p & m, !.perfect = 1]
    ELSE LET md == s.common ^^ (p & s.mask)
             bd == s.common & md
         IN [s EXCEPT
               !.table = [i \in 1..Len(s.table) |->
                  IF Valid(s.table[i]) /\ Rule # "nocommon"
                  THEN (s.table[i] & Inv(md)) | bd ELSE s.table[i]],
               !.mask = @ & Inv(md), !.common = @ & Inv(md),
               !.perfect = @ & Inv(md)]

(* an entry must neither look like an empty nor like a deleted one *)
RevealBit(s, p) ==
    IF Rule = "noreveal" \/ (p & Inv(s.mask)) \div 2 # 0 THEN s
    ELSE LET b == LowBit(p, 2)
         IN [s EXCEPT
               !.table = [i \in 1..Len(s.table) |->
                  IF Valid(s.table[i]) THEN s.table[i] | b ELSE s.table[i]],
               !.mask = @ & Inv(b), !.common = @ & Inv(b),
               !.perfect = @ & Inv(b)]

Insert(s, p, h, mayfail) ==
    LET s1 == IF s.elems + 1 > s.max THEN Double(s) ELSE s
        s2 == IF s.elems + 1 + s1.del > s1.maxdel THEN Rehash(s1) ELSE s1
        s3 == IF (p & s2.mask) # s2.common THEN UpdateCommon(s2, p) ELSE s2
    IN IF mayfail /\ s.elems + 1 > s.max THEN s
       ELSE [HtAdd(RevealBit(s3, p), p, h) EXCEPT !.elems = @ + 1]

(* the bucket of the first match of a key, or -1 *)
RECURSIVE Walk(_, _, _, _, _)
Walk(s, k, h, i, perfect) ==
    LET e == s.table[i + 1]
        p == RawPtr(s, e)
        h2 == HashBits(s, h) | perfect
    IN IF e = 0 THEN -1
       ELSE IF e # Deleted /\ (e & s.mask) = h2
               /\ \E j \in Ids : El[j][1] = p /\ El[j][2] = k THEN i
       ELSE Walk(s, k, h, (i + 1) % Size(s), 0)
Lookup(s, k, h) == Walk(s, k, h, Bucket(s, h), s.perfect)
Remove(s, k, h) ==
    LET i == Lookup(s, k, h)
    IN IF i = -1 THEN s
       ELSE [s EXCEPT !.table[i + 1] = IF Rule = "zero" THEN 0 ELSE Deleted,
                      !.elems = @ - 1, !.del = @ + 1]

Apply(s, o) ==
    CASE o[1] \in {"ins", "insfail"} ->
            Insert(s, El[o[2]][1], El[o[2]][3], o[1] = "insfail")
      [] o[1] = "rem" -> Remove(s, o[2], o[3])
      [] o[1] = "hclear" -> Empty

Init == st = Empty /\ path = <<1>>
Next == /\ Len(path) <= Depth
        /\ \E k \in 1..Len(A) : /\ st' = Apply(st, A[k])
                                /\ path' = Append(path, k)
Spec == Init /\ [][Next]_vars
View == st

(* the multiset of what is in the table *)
Count(s, i) == IF s.none THEN 0
               ELSE Cardinality({j \in 1..Size(s) :
                        Valid(s.table[j]) /\ RawPtr(s, s.table[j]) = El[i][1]})
Held(s) == [i \in Ids |-> Count(s, i)]
Sum(f) == LET RECURSIVE S(_)
              S(i) == IF i = 0 THEN 0 ELSE f[i] + S(i - 1)
          IN S(Len(El))

Ok == /\ Sum(Held(st)) = st.elems
      /\ ~st.none => /\ \E i \in 1..Size(st) : st.table[i] = 0
                     /\ Cardinality({i \in 1..Size(st) :
                            Valid(st.table[i])}) = st.elems
      /\ \A k \in Keys : (Lookup(st, k, HashOf(k)) # -1) =
                         (\E i \in Ids : El[i][2] = k /\ Held(st)[i] > 0)
Op == A[path'[Len(path')]]
Law ==
    LET a == Held(st)
        b == Held(st')
    IN CASE Op[1] = "ins" -> b = [a EXCEPT ![Op[2]] = @ + 1]
         [] Op[1] = "insfail" -> \/ b = a /\ st' = st
                                 \/ b = [a EXCEPT ![Op[2]] = @ + 1]
         [] Op[1] = "hclear" -> b = [i \in Ids |-> 0]
         [] Op[1] = "rem" ->
              LET m == {i \in Ids : El[i][2] = Op[2] /\ a[i] > 0}
              IN IF m = {} THEN b = a
                 ELSE \E i \in m : b = [a EXCEPT ![i] = @ - 1]
Laws == [][Law]_vars
EmitPath == PrintT("PATH " \o ToJson(path))
=============================================================================
