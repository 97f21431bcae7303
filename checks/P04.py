"""Hypergraph: every read view equals the edit history, per group and overall."""
from lib import hmodel

RULE = ("one state per distinct (vertex count, weighted hyperedges per group, vertex weights) reached by an edit history; "
        "a decision per read view, overall and per group, compared with the reference model")
SCENARIOS = [
    ("history", lambda c: hmodel.history(c, c.rng.randint(3, 12)), 150, 2500),
    ("large", lambda c: hmodel.big(c, hmodel.STATE_VIEWS), 5, 60),
    ("huge", lambda c: hmodel.huge(c, hmodel.STATE_VIEWS), 2, 20),
    ("marathon", lambda c: hmodel.history(c, c.rng.randint(70, 120), share=0.03), 4, 40),
]
REQUIRED_EVENTS = {"edit:add": 50, "edit:remove": 30, "edit:remove_group": 5, "edit:clear": 3, "edit:v_weight": 5}
ASSUMPTIONS = ["vertex indices are valid, hyperedges are non-empty sets, weights positive", "CPU device"]
