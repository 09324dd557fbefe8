----------------------------- MODULE MCWorldRun ------------------------------
(* Instances of MCWorld: which calls the model of each property explores.    *)
EXTENDS MCWorld
At(t, c) == [ty |-> t, x |-> c]
Two == ("b1" :> At(2, 0)) @@ ("b2" :> At(2, 1))
Three == Two @@ ("b3" :> At(0, 1))

Prop == IOEnv.PROP
\* histories to be replayed start from bodies that touch or that only come close
Near == Three
Touch == ("b1" :> At(2, 0)) @@ ("b2" :> At(2, 0)) @@ ("b3" :> At(0, 0))

PropOps ==
    {"step"} \cup
    CASE Prop = "C01" -> {"destroy_body", "create_fixture", "destroy_fixture", "create_joint", "destroy_joint"}
      [] Prop = "C02" -> {"pause", "set_transform", "create_fixture", "destroy_fixture"}
      [] Prop = "C03" -> {"pause", "set_transform", "set_sensor", "destroy_body"}
      [] Prop = "C04" -> {"pause", "set_sensor", "set_awake", "set_filter"}
      [] Prop = "C05" -> {"set_filter", "refilter", "set_transform"}
      [] Prop = "C06" -> {"create_joint", "destroy_joint", "set_transform", "refilter"}
      [] Prop = "C07" -> {"destroy_body", "destroy_fixture", "destroy_joint", "create_joint", "set_awake"}
      [] Prop = "C08" -> {"set_enabled", "set_type", "create_joint"}
      [] Prop = "C09" -> {"set_awake", "create_joint", "destroy_joint", "set_sleeping_allowed", "set_allow_sleeping"}
      [] Prop = "C10" -> {"set_awake", "set_type", "set_sensor", "destroy_fixture"}
      [] OTHER -> {"pause", "set_awake", "set_enabled", "set_type", "set_transform", "set_sleeping_allowed",
                   "destroy_body", "create_fixture", "destroy_fixture", "set_sensor", "set_filter", "refilter",
                   "create_joint", "destroy_joint", "set_allow_sleeping"}
=============================================================================
