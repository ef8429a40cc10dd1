SPECIFICATION Spec
CONSTANTS
  L = 3
  Ws = {1, 4}
  Ks = {0, 1, 3}
  Zs = {0, 1, 2}
  Emit = FALSE
INVARIANTS Exact Batch Certain Holds
PROPERTIES Gains Still
CHECK_DEADLOCK FALSE
