SPECIFICATION Spec
CONSTANTS
  MaxDim = 4
  MaxPad = 1
  MaxOps = 3
INVARIANTS SameElements Inside Distinct Twice
