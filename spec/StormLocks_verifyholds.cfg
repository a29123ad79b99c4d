SPECIFICATION Spec
CONSTANTS Threads = {1, 2} NCalls = 1 Variant = "verifyholds"
INVARIANTS NoOrphans HandlesDistinct 

