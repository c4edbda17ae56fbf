from harness import ixlib, shm
from harness.shm import fakes
BOUNDS = "one addition (with or without value), replacement or removal from an arbitrary consistent index of any length below 2^63 in which any slots have values (an inductive step), keys of 1 (thorough: 1-2; histories: 1-2) printable characters, arbitrary values; and all histories of at most 4 (thorough: 5) operations from empty through two handles, histories of at most 3 also with keys of any character of the basic plane and of 101 and 301 characters"
OUTSIDE = "None as a value (means no value); values that JSON changes; concurrent changes"
ASSUMPTIONS = shm.ASSUMPTIONS + ["length and slot numbers are recorded in 8 bytes, little end first (only for building the arbitrary state of the inductive step)"]


def cases(tier): return ixlib.cases(tier, "MetaTagIndex", ("add", "addv", "del"), 4 if tier == "quick" else 5, 1)
