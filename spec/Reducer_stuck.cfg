INIT Init
NEXT Next
INVARIANT Reduces
CHECK_DEADLOCK FALSE
CONSTANTS
  Seeds = {1}
  MaxMid = 3
  Mode = "serial"
  How = "stuck"
  Ends = {"left","right","oleft","oright"}
  Mids = {"mat","core","scalar","reg"}
