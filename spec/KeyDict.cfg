SPECIFICATION Spec
INVARIANTS TypeOK NoEmptyVector EmitState
PROPERTIES Isolation FailNoChange DeleteRemoves
ACTION_CONSTRAINT EmitTransition
VIEW view
