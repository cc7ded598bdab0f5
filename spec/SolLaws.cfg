SPECIFICATION Spec
CONSTANT Vals = {"1", "2"}
INVARIANTS PointOfStack PointOfPoint BareCommutes TimelessCommutes ElementCommutes WholeIsAll
