SPECIFICATION Spec
CONSTANTS HistLen = 5
 States = {1, 2}
INVARIANTS Chain Consistent Idempotent
PROPERTY Apart
