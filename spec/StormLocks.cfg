SPECIFICATION Spec
CONSTANTS Threads = {1, 2} NCalls = 2 Variant = "good"
INVARIANTS NoOrphans HandlesDistinct Ordered
PROPERTY AllReturn
