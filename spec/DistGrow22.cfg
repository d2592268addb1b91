CONSTANTS
  Owner <- Own22
  Dist = 3
SPECIFICATION Spec
INVARIANTS NoBad Sound Exact Colors Ghosts Near Clean
