SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS LosslessInv AcceptInv TotalInv CommentInv PrecInv ComposeInv BlockInv
