------------------------------- MODULE ResourceMCx -------------------------------
EXTENDS ResourceMC
TheHs == (1 :> {1, 2}) @@ (2 :> {3, 4}) @@ (3 :> {5})
=============================================================================
