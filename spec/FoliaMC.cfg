INIT Init
NEXT Next
VIEW View
INVARIANT Inv RoundTrip OneByOne EmitInv
PROPERTY Frame
CHECK_DEADLOCK FALSE
