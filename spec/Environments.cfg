SPECIFICATION Spec
CONSTANTS
  Names = {"A", "B"}
  Dims = {2, 3}
  MaxDepth = 3
  MaxScopes = 2
  Kinds = {"sig", "vec", "named", "model"}
INVARIANTS UniquePaths EmitState
PROPERTIES NumsMonotone FreshScope
ACTION_CONSTRAINT EmitTransition
VIEW view
