CONSTANTS
  Owner <- Owner4
  Rounds = 1
SPECIFICATION Spec
INVARIANTS NoBad Valid Symmetric Once Made Disjoint Truth Clean
