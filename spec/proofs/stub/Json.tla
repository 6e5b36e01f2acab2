-------------------------------- MODULE Json --------------------------------
(* Names only, for tlapm: nothing that is proved uses them.                *)
ToJson(x) == x
=============================================================================
