"""Module-level home of the generated task functions (they have to be picklable)."""
W = None      # the current World
