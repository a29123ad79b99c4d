SPECIFICATION Spec
CONSTANTS Threads = {1, 2, 3} NCalls = 2 Variant = "good"
INVARIANTS NoOrphans HandlesDistinct Ordered

