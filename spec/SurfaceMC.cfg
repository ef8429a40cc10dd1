SPECIFICATION Spec
INVARIANTS Against Euler Carried Turns LightLaw
CHECK_DEADLOCK FALSE
