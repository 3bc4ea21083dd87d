SPECIFICATION Spec
INVARIANTS TypeOK NeverUnavailable ResetIsStart ReadsBack SaysSo
PROPERTY OwnOptionOnly
CHECK_DEADLOCK FALSE
