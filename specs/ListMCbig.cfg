SPECIFICATION Spec
CONSTANTS
  MAXN = 4
  MAXH = 3
  HS = {1,2,3,4,5}
  BUG = "none"
INVARIANTS Within Kept FitIn AllThatFit SelectedSeen Padded StaysPut Again Saturates
PROPERTY Goes
CHECK_DEADLOCK FALSE
