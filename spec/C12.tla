---------------------------------- MODULE C12 ----------------------------------
(* Recorded KP-HET histories (see KpIter).                                        *)
EXTENDS KpIter
IsMethod == \A k \in DOMAIN Events : Events[k].cfg.method = "het"
ASSUME Env("TRACE") = "" \/ IsMethod
================================================================================
