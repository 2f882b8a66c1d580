SPECIFICATION Spec
INVARIANTS NoObjection RestIsFine
CHECK_DEADLOCK FALSE
CONSTANTS
  Scenarios <- Few
  Keys = {1, 2}
  MaxKeys = 1
  MaxResizes = 2
  EnvStops = {"fault"}
  Bugs = {"sizeerr"}
