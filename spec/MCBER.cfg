SPECIFICATION Spec
INVARIANTS IntsCoherent RealsCoherent OidsCoherent StringsCoherent Emit
CHECK_DEADLOCK FALSE
