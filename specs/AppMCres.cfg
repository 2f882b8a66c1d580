SPECIFICATION Spec
INVARIANTS NoObjection RestIsFine
CHECK_DEADLOCK FALSE
CONSTANTS
  Scenarios <- Few
  Keys = {1, 2}
  MaxKeys = 2
  MaxResizes = 1
  EnvStops = {"cancel", "fault"}
  Bugs = {}
