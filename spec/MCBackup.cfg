SPECIFICATION Spec
CONSTANTS HistLen = 4
 States = {1, 2}
INVARIANTS Chain Consistent Idempotent
PROPERTY Apart
