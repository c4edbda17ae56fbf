from harness import ixlib, shm
from harness.shm import fakes
BOUNDS = "one addition or removal of an arbitrary key from an arbitrary consistent index of any length below 2^63 (an inductive step, so histories of any length), keys of 1-2 (thorough: 1-3) printable characters; and all histories of at most 4 (thorough: 5) operations from empty through two handles, histories of at most 3 also with keys of any character of the basic plane and of 101 and 301 characters"
OUTSIDE = "keys that are empty or cannot be encoded (C10), concurrent changes (C04, C05), crashes half way"
ASSUMPTIONS = shm.ASSUMPTIONS + ["length and slot numbers are recorded in 8 bytes, little end first (only for building the arbitrary state of the inductive step)"]


def cases(tier): return ixlib.cases(tier, "TagIndex", ("add", "new", "del"), 4 if tier == "quick" else 5)
