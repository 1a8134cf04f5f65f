INIT Init
NEXT Next
INVARIANTS Confluent WellFormed SameResult Reduces
CHECK_DEADLOCK FALSE
CONSTANTS
  Seeds = {1}
  MaxMid = 3
  Mode = "serial"
  How = ""
  Ends = {"left","right","oleft","oright"}
  Mids = {"mat","core","scalar","reg"}
