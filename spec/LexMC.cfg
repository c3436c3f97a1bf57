SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS PartitionInv CoverInv ErrorInv ProgressInv TrailInv OpenInv
PROPERTY Forward
