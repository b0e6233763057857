CONSTANTS
  Cols = {1, 2}
  Types = {"p", "q"}
  RoughTypes = {"q"}
  Heights = {1, 4}
  Avulsions = {0, 2}
  Shapes <- MCShapes
  Tops = {6, 7}
  Bots = {0, 3, 6}
  MaxAE = 4
SPECIFICATION MCSpec
CONSTRAINT Bounded
INVARIANT Stacked
INVARIANT Complete
INVARIANT OnlyLastAtBottom
INVARIANT FlatIsFlat
