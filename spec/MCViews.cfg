INIT Init
NEXT Next
INVARIANTS IsText IsChar WellFormed Faithful Bounded Splits Trimmed Decimal
CHECK_DEADLOCK FALSE
