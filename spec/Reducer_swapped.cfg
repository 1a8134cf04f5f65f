INIT Init
NEXT Next
INVARIANTS Confluent WellFormed
CHECK_DEADLOCK FALSE
CONSTANTS
  Seeds = {1}
  MaxMid = 2
  Mode = "free"
  How = "swapped"
  Ends = {"left","right","oleft","oright"}
  Mids = {"mat","core","scalar","reg"}
