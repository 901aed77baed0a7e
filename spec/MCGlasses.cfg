INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS FormulaGivesIndex FormulaGivesAbbe Transparent NamesUnambiguous FocalLengths PartsUnambiguous ObjectiveFocuses
