SPECIFICATION Spec
INVARIANTS NoObjection RestIsFine
CHECK_DEADLOCK FALSE
CONSTANTS
  Scenarios <- Deep
  Keys = {1, 2}
  MaxKeys = 1
  MaxResizes = 0
  EnvStops = {"cancel", "fault"}
  Bugs = {}
