SPECIFICATION Spec
CONSTANT MaxOps = 6
VIEW View
INVARIANT RunnableInv
PROPERTIES RefusedP IndepP RunP RefuseRunP EndP PrepP
CONSTRAINT Emit
CHECK_DEADLOCK FALSE
