CONSTANTS
  MaxLines = 2
  MaxToks = 2
  Fmts = {"csv", "svm"}
SPECIFICATION Spec
INVARIANTS Agrees NoMore Prefix RoundTrip
PROPERTY Ends
CHECK_DEADLOCK FALSE
