CONSTANTS NS = 2 Contents = {3, 4, 5} Variant = "skipzero" NB = 5 Chunk = 3
INIT Init
NEXT Next
INVARIANTS ReadsTruthfully UndamagedReads DigestDepends
CHECK_DEADLOCK FALSE
