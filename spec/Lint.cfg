SPECIFICATION Spec
INVARIANT Outcome
INVARIANT Prefix
INVARIANT NoSenderLost
PROPERTY Ends
CHECK_DEADLOCK FALSE
