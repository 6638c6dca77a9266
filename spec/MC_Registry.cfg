SPECIFICATION Spec
INVARIANT Inv
SYMMETRY Symmetric
CONSTANTS
  Registrars = {r1, r2}
  Decoders = {d1, d2}
  Ops = 3
