CONSTANTS
  Owner <- Owner22
  Rounds = 3
SPECIFICATION Spec
INVARIANTS NoBad Valid Symmetric Once Made Disjoint Truth Clean
