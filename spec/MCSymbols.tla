----------------------------- MODULE MCSymbols ------------------------------
(* all histories of appending to characters and to earlier results *)
EXTENDS Symbols, SequencesExt
CONSTANTS Depth, Chars
VARIABLES known, res, path
vars == <<known, res, path>>

(* operands: a character or the result of an earlier append *)
A == SetToSeq({<<"app", ToString(x), c>> : x \in Chars,
                                             c \in Chars \cup {-5}})
     \o SetToSeq({<<"app", "@" \o ToString(k), c>> : k \in 0..2,
                                                     c \in Chars \cup {-5}})
ASSUME PrintT("ALPHABET " \o ToJson(A))
ASSUME PrintT("STARTS " \o ToJson(<<<<<<"snew">>>>>>))
Operand(o) == IF o[2] = "@0" THEN 0 ELSE IF o[2] = "@1" THEN 1
              ELSE IF o[2] = "@2" THEN 2 ELSE -1
Sym(o) == IF Operand(o) = -1 THEN CHOOSE x \in Chars : ToString(x) = o[2]
          ELSE res[Operand(o) + 1]

Init == known = <<>> /\ res = <<>> /\ path = <<1>>
Next == /\ Len(path) <= Depth
        /\ \E k \in 1..Len(A) :
             /\ Operand(A[k]) < Len(res)
             /\ LET s == Sym(A[k])
                    q == Extended(known, s, A[k][3])
                    n == -(Len(path) + 1)
                    r == IF q = <<>> THEN s
                         ELSE IF IdsOf(known, q) # {}
                         THEN CHOOSE i \in IdsOf(known, q) : TRUE ELSE n
                IN /\ Assert(Result(known, s, A[k][3], r, FALSE), "result")
                   /\ known' = Learnt(known, s, A[k][3], r, FALSE)
                   /\ res' = Append(res, r)
             /\ path' = Append(path, k)
Spec == Init /\ [][Next]_vars
View == <<known, res>>
Ok == Interned(known)
(* nothing that is known ever changes *)
Laws == [][\A i \in DOMAIN known : i \in DOMAIN known' /\ known'[i] = known[i]]_vars
EmitPath == PrintT("PATH " \o ToJson(path))
=============================================================================
