SPECIFICATION Spec
INVARIANTS SumLaw Associative RequiredLaw UnionLaw Emit Vals
CHECK_DEADLOCK FALSE
