------------------------------ MODULE Sessions ------------------------------
(***************************************************************************)
(* Several terminals in one process.  What each of them does depends on    *)
(* its own operations only: gh is the state that a terminal would be in if *)
(* it were alone.                                                          *)
(*                                                                         *)
(* The broken rules are what an implementation with static data would do.  *)
(***************************************************************************)
EXTENDS Setups, Json

CONSTANTS Depth, Rule

VARIABLES sess, gh, path
vars == <<sess, gh, path>>

Two == {1, 2}
Small == <<In(<<27>>), In(<<91>>), In(<<50>>), In(<<59>>), In(<<72>>),
           In(<<65>>), In(<<195>>), In(<<169>>), In(<<27, 55>>),
           In(<<27, 56>>), In(<<14>>), In(<<27, 40, 48>>), In(<<27, 93, 97>>),
           In(<<7>>), In(CsiB(<<31>>, 109)), In(CsiQ(<<1003>>, 104)),
           In(CsiB(<<6>>, 110)), <<"pal", "solarized">>,
           <<"cpal", Cust>>, <<"mouse", 1, 0, 9, 9, 0, 4, 0>>,
           <<"new", 2, 2, 1, 1, 1>>>>
A == TLCEval([i \in 1..(2 * Len(Small)) |->
                 <<((i - 1) % 2) + 1, Small[((i - 1) \div 2) + 1]>>])
Starts == <<<<<<1, <<"new", 3, 2, 1, 1, 1>>>>, <<2, <<"new", 3, 2, 1, 1, 1>>>>>>,
            <<<<1, <<"new", 2, 1, 1, 1, 1>>>>, <<2, <<"new", 3, 1, 1, 1, 1>>>>,
              <<1, In(CsiQ(<<1003>>, 104) \o CsiB(<<42>>, 109))>>,
              <<2, In(<<27, 41, 48, 14>>)>>>>>>

ASSUME PrintT("ALPHABET " \o ToJson(A))
ASSUME PrintT("STARTS " \o ToJson(Starts))

Clear(x) == [x EXCEPT !.out = <<>>]
Do(all, o) ==
    LET k == o[1]
        x == Apply(Clear(all[k]), o[2]).st
    IN [j \in Two |->
          IF j = k THEN x
          ELSE CASE Rule = "parser" ->
                      [all[j] EXCEPT !.v.ps = x.v.ps, !.v.argv = x.v.argv]
                 [] Rule = "palette" -> [all[j] EXCEPT !.v.pal = x.v.pal]
                 [] Rule = "saved" -> [all[j] EXCEPT !.v.saved = x.v.saved]
                 [] OTHER -> Clear(all[j])]
(* one session alone *)
Alone(all, o) == [all EXCEPT ![o[1]] = Apply(Clear(@), o[2]).st]

None == [k \in Two |-> NoSession]
Init == \E i \in 1..Len(Starts) :
           /\ sess = TLCEval(FoldLeft(Do, None, Starts[i]))
           /\ gh = TLCEval(FoldLeft(Alone, None, Starts[i]))
           /\ path = <<i>>
Next == /\ Len(path) <= Depth
        /\ \E i \in 1..Len(A) :
              /\ sess' = Do(sess, A[i])
              /\ gh' = Alone(gh, A[i])
              /\ path' = Append(path, i)
Spec == Init /\ [][Next]_vars
View == [k \in Two |-> <<Clear(sess[k]), Clear(gh[k])>>]

Independent == \A k \in Two : Clear(sess[k]) = Clear(gh[k])
Ok == Independent /\ \A k \in Two : ScreenOk(sess[k].s)
(* what a terminal reports, it reports because of its own operations *)
Quiet == [][\A k \in Two : /\ sess'[k].out = <<>> \/ sess'[k].out = gh'[k].out
                           /\ k # A[path'[Len(path')]][1] =>
                                 Clear(sess'[k]) = Clear(sess[k])]_vars
EmitPath == PrintT("PATH " \o ToJson(path))
=============================================================================
