----------------------------- MODULE MCBroadRun ------------------------------
(* Instances of MCBroad.                                                     *)
EXTENDS MCBroad
None == {<<>>}
Some == {[x \in {1, 2} |-> c[x]] : c \in {<<0, 0>>, <<0, 1>>}} \cup {[x \in {1, 2, 3} |-> c[x]] : c \in {<<0, 1, 2>>, <<0, 0, 1>>}}
=============================================================================
