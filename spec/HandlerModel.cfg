SPECIFICATION ModelSpec
INVARIANT ModelInv
PROPERTY Ends
