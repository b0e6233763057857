SPECIFICATION Spec
CONSTANTS MaxLen = 7
 Step = 1000
INVARIANTS Recovered Straight Odd Damped Distinct
