SPECIFICATION Spec
PROPERTIES Terminates
CHECK_DEADLOCK FALSE
CONSTANTS
  Scenarios <- Few
  Keys = {1, 2}
  MaxKeys = 1
  MaxResizes = 0
  EnvStops = {"cancel"}
  Bugs = {}
