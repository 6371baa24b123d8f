-------------------------------- MODULE MCLife --------------------------------
(* The life of one object: a history is legal exactly when each pair of      *)
(* consecutive events is.                                                     *)
EXTENDS ObjectLife
===============================================================================
