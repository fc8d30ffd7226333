INIT Init
NEXT Next
INVARIANTS HermParity HermKnown LagRec ZernRim ZernPar ZernCount ExpHom SqrtSq LGis
CHECK_DEADLOCK FALSE
