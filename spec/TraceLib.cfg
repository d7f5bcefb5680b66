SPECIFICATION Spec
CONSTANT Ids = {}
