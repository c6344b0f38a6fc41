SPECIFICATION Spec
CONSTANTS Slots = {1, 2}
          MaxV = 2
          MaxOps = 7
          Faulty = {}
INVARIANTS ObservationsFresh CachesFresh
CHECK_DEADLOCK FALSE
