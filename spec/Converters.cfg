SPECIFICATION Spec
CONSTANTS Callers = {c1, c2, c3}
          Args = {x, y}
          Calls = 1
INVARIANT Reentrant
PROPERTY Total
CHECK_DEADLOCK FALSE
