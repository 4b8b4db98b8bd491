SPECIFICATION Spec
CONSTANT MethodNames = {"get", "getInfo", "set_x"}
INVARIANTS Reaches OwnFirst Inherits
