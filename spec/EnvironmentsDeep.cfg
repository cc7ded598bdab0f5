SPECIFICATION Spec
CONSTANTS
  Names = {"A"}
  Dims = {2}
  MaxDepth = 4
  MaxScopes = 3
  Kinds = {"sig", "vec", "named", "model"}
INVARIANTS UniquePaths EmitState
PROPERTIES NumsMonotone FreshScope
ACTION_CONSTRAINT EmitTransition
VIEW view
