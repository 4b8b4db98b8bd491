SPECIFICATION Spec
CONSTANT MethodNames = {"get", "set_x"}
INVARIANTS Reaches OwnFirst Inherits
