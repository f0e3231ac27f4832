"""dv: a deductive verifier for the Python dialect used by pystrata.

The modules under verification are read from /repo on every run and executed
symbolically; see DESIGN.md for what is covered and what is assumed.
"""
