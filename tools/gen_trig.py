"""Writes spec/Trig.tla: cosines and sines of the fractions of a turn."""
from math import cos, sin, pi
import os
M = 32
def tab(f):
    return "<< " + ",\n   ".join("<<" + ", ".join(str(round(10000 * f(2 * pi * k / n))) for k in range(n)) + ">>" for n in range(1, M + 1)) + " >>"
open(os.path.join(os.path.dirname(__file__), "..", "spec", "Trig.tla"), "w").write(f"""-------------------------------- MODULE Trig --------------------------------
(* cosine and sine of k/n of a turn in ten-thousandths, n up to {M} (generated by tools/gen_trig.py) *)
EXTENDS Integers, Sequences
CosTab == {tab(cos)}
SinTab == {tab(sin)}
Cos(k, n) == CosTab[n][(k % n) + 1]
Sin(k, n) == SinTab[n][(k % n) + 1]
=============================================================================
""")
