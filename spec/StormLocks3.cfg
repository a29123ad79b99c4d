SPECIFICATION Spec
CONSTANTS Threads = {1, 2, 3} NCalls = 1 Variant = "good"
INVARIANTS NoOrphans HandlesDistinct Ordered
PROPERTY AllReturn
