SPECIFICATION Spec
INVARIANTS KernelOK VecOK RawOK TwiceOK LinearOK SymmOK BasisOK
CHECK_DEADLOCK FALSE
