SPECIFICATION Spec
CONSTANTS
  MaxDim = 40
  MinDim = 5
  MaxThreads = 4
  ChunkSet = {1, 2, 3, 4, 8}
  AvailSet = {1, 2, 3, 5}
INVARIANTS NeverTwice Covered Fits NoEmptyPass
