"""Runs before sudachipy is imported: locks of the code under test become cooperative."""
from .. import sched

sched.patch()
