"""Builds the harness and checks that the specification parses and TLC runs."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
b = vlib.build("release")
vlib.build("dev")
(o, t, _), = vlib.demangle_all(b, [("?x@@3HA", 0)])
assert (o, t) == ("O", "int x"), (o, t)
assert vlib.conform([("?x@@3HA", 0, "O", "int x")]) == []
assert vlib.conform([("?x@@3HA", 0, "O", "int y")]) != []
print("ready")
