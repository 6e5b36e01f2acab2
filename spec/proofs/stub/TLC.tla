-------------------------------- MODULE TLC ---------------------------------
(* Names only, for tlapm: nothing that is proved uses them.                *)
PrintT(x) == TRUE
=============================================================================
