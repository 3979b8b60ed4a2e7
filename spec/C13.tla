---------------------------------- MODULE C13 ----------------------------------
(* Recorded KP-HOM histories (see KpIter).                                        *)
EXTENDS KpIter
IsMethod == \A k \in DOMAIN Events : Events[k].cfg.method = "hom"
ASSUME Env("TRACE") = "" \/ IsMethod
================================================================================
