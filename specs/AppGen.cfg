SPECIFICATION GSpec
INVARIANTS NoObjection
CHECK_DEADLOCK FALSE
CONSTANTS
  Scenarios <- GenScenarios
  Keys = {1, 2, 3}
  MaxKeys = 4
  MaxResizes = 2
  EnvStops = {"cancel", "fault"}
  Bugs = {}
