SPECIFICATION Spec
CONSTANTS Outs = {1, 2}
 MaxIts = 6
 Everys = {0}
INVARIANTS Accepted Along
