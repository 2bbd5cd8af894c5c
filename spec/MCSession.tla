----------------------------- MODULE MCSession ------------------------------
EXTENDS Session, TLC, Json
CONSTANTS Depth
VARIABLES st, path
vars == <<st, path>>

A == <<<<"resize", 0, 80, 24>>, <<"resize", 0, 1, 500>>, <<"resize", 0, 0, 0>>,
       <<"sig", 0, 2>>, <<"sig", 0, 3>>, <<"sig", 0, 20>>, <<"sig", 0, 15>>, <<"close", 0>>,
       <<"ref", 0>>, <<"unref", 0>>, <<"q", 0>>, <<"exit", 0>>, <<"idle", 0>>>>
Starts == <<<<<<"open", 0, 80, 24>>>>>>
ASSUME PrintT("ALPHABET " \o ToJson(A))
ASSUME PrintT("STARTS " \o ToJson(Starts))
Init == st = Act(None, Starts[1][1]) /\ path = <<1>>
Next == /\ Len(path) <= Depth
        /\ \E k \in 1..Len(A) : /\ A[k][1] = "ref" => st.refs < 3
                                /\ st' = Act(st, A[k])
                                /\ path' = Append(path, k)
Spec == Init /\ [][Next]_vars
View == st
Op == A[path'[Len(path')]]
Laws == [][/\ ~st.open => ~st'.open
           (* what is closed does nothing any more *)
           /\ ~st.open => st'.got \subseteq st.got /\ st'.w = st.w
           /\ st'.got \ st.got \subseteq {Hup, Winch} \cup Sendable
           /\ Hup \in st'.got \ st.got => st.open /\ ~st'.open
           /\ st.open /\ ~st'.open /\ st.child => Hup \in st'.got
           /\ Code(st, Op) # 0 => Op[1] = "exit" \/ st' = st
           /\ Op[1] = "resize" /\ st.open => <<st'.w, st'.h>> = <<Op[3], Op[4]>>
          ]_vars
Ok == /\ st.open => st.refs > 0
      /\ ~st.open => st.w = 0 /\ st.h = 0
EmitPath == PrintT("PATH " \o ToJson(path))
=============================================================================
