SPECIFICATION Spec
VIEW LineView
CHECK_DEADLOCK FALSE
