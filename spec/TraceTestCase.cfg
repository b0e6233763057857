SPECIFICATION Spec
POSTCONDITION Consumed
