CONSTANTS
  Owner <- Owner4
  Rounds = 2
SPECIFICATION Spec
INVARIANTS NoBad Valid Symmetric Once Made Disjoint Truth Clean
