SPECIFICATION Spec
CONSTANT KeyBy = "short"
INVARIANT OwnMerit
