----------------------------- MODULE MCPrefs -----------------------------
EXTENDS Prefs
Swap == Permutations(Procs) \cup Permutations(Keys)
=============================================================================
