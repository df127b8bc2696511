SPECIFICATION Spec
CONSTANTS K = 6
 Addrs = {"127.0.0.1", "127.0.0.2", "*"}
 Ports = {"p", "q"}
INVARIANTS Emit Exclusive Owner
PROPERTIES Final
CHECK_DEADLOCK FALSE
