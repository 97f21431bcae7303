"""Directed graph: every read view equals the edit history."""
from lib import gmodel

RULE = ("one state per distinct (vertex count, weighted edge set, self-loops, extra-self-loop flag) reached by an edit "
        "history; a decision per read view compared with the reference model")
SCENARIOS = [
    ("history", lambda c: gmodel.history(c, "d", c.rng.randint(3, 14)), 350, 5000),
    ("large", lambda c: gmodel.big(c, "d"), 12, 120),
    ("huge", lambda c: gmodel.huge(c, "d"), 3, 30),
    ("marathon", lambda c: gmodel.history(c, "d", c.rng.randint(90, 160), 0.03), 6, 60),
]
REQUIRED_EVENTS = {"edit:add": 50, "edit:remove": 50, "edit:clear": 3, "edit:reverse": 20, "edit:remove_selfloop": 3}
ASSUMPTIONS = ["vertex indices are valid and edge weights positive", "CPU device"]
