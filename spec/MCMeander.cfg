SPECIFICATION Spec
CONSTANTS MaxLen = 5
 Step = 1000
INVARIANTS Recovered Straight Odd Damped Distinct
