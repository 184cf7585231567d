SPECIFICATION Spec
VIEW PoolView
CHECK_DEADLOCK FALSE
