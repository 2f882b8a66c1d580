SPECIFICATION Spec
CONSTANTS
  MAXN = 3
  MAXH = 2
  HS = {1,3,4}
  BUG = "pad"
INVARIANTS Within Kept FitIn AllThatFit SelectedSeen Padded StaysPut Again Saturates
PROPERTY Goes
CHECK_DEADLOCK FALSE
