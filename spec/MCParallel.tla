----------------------------- MODULE MCParallel -----------------------------
EXTENDS Parallel
=============================================================================
