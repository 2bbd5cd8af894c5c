--------------------------------- MODULE MC ---------------------------------
(***************************************************************************)
(* Exhaustive exploration of small configurations: from every set-up of a  *)
(* property all sequences of operations of its alphabet up to a depth, the *)
(* laws being checked on every transition.  The path to every distinct     *)
(* state is printed; tools/check.py replays them, with all the operations  *)
(* of the alphabet, on the implementation.                                 *)
(***************************************************************************)
EXTENDS Setups, Json

CONSTANTS P, Depth, Emitting

VARIABLES st, path, gh
vars == <<st, path, gh>>

A == TLCEval(Alphabet(P))
Starts == TLCEval(StartOps(P))

ASSUME PrintT("ALPHABET " \o ToJson(A))
ASSUME PrintT("STARTS " \o ToJson(Starts))

Clear(x) == [x EXCEPT !.out = <<>>]
Run(ops) == FoldLeft(LAMBDA acc, o : Clear(Apply(acc, o).st), NoSession, ops)

Init == /\ \E i \in 1..Len(Starts) : /\ st = TLCEval(Run(Starts[i]))
                                     /\ path = <<i>>
        /\ gh = GhostInit(P, st)

(* a failure of allocations does not outlast the operation *)
Settle(o, x) == IF o[1] = "lose" THEN x
                ELSE [x EXCEPT !.s.lose = 0 - 1, !.s.loseall = FALSE]

Next == /\ Len(path) <= Depth
        /\ \E k \in 1..Len(A) :
              /\ st' = Settle(A[k], Apply(Clear(st), A[k]).st)
              /\ path' = Append(path, k)
              /\ gh' = GhostNext(P, gh, st, A[k], st')

Spec == Init /\ [][Next]_vars

(* what is left over from the last sequence means nothing any more *)
Forget(x) == IF x.v.ps # "ground" THEN x
             ELSE [x EXCEPT !.v.argc = 0, !.v.cf = {}, !.v.osc = <<>>,
                            !.v.argv = [i \in 1..16 |-> 0]]
View == <<Forget(Clear(st)), gh>>

Op == A[path'[Len(path')]]
Laws == [][Law(P, Clear(st), Op, st', gh, gh')]_vars
Ok == StateLaw(P, st, gh)
EmitPath == Emitting => PrintT("PATH " \o ToJson(path))
=============================================================================
