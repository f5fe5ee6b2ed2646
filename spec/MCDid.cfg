SPECIFICATION Spec
CONSTANT KeyBy = "own"
INVARIANT OwnMerit
