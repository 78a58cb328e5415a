SPECIFICATION Spec
CONSTANT PostOrder = FALSE
CONSTANT Types <- AllTypes
CHECK_DEADLOCK FALSE
