INIT Init
NEXT Next
INVARIANTS Confluent WellFormed
CHECK_DEADLOCK FALSE
CONSTANTS
  Seeds = {1, 3}
  MaxMid = 3
  Mode = "free"
  How = ""
  Ends = {"left","right","oleft","oright"}
  Mids = {"mat","core","scalar","reg"}
