INIT Init
NEXT Next
INVARIANTS Confluent WellFormed SameResult
CHECK_DEADLOCK FALSE
CONSTANTS
  Seeds = {1}
  MaxMid = 3
  Mode = "parallel"
  How = ""
  Ends = {"left","right","oleft","oright"}
  Mids = {"mat","core","scalar","reg"}
