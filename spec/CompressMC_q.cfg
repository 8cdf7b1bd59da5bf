CONSTANTS W = 4 WORDS = 2 SHIFT = 2
SPECIFICATION Spec
INVARIANTS WhatIsLeft
CHECK_DEADLOCK FALSE
