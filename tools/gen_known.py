"""Writes /verif/known_findings.json: no open findings; the repaired defects by property and commit."""
import json
import os
import subprocess

FIX = [
    ("C09", "3b215ee", "SWMF header stated a wrong number of coefficient lines"),
    ("C19", "06a432d", "energy() raised for magnetograms without an axisymmetric dipole coefficient"),
    ("C18", "b1c9d67", "energies of large coefficients came out complex"),
    ("C34", "46307ce", "ParkerSolution.speed and density overwrote the caller's radii"),
    ("C29", "b3bfc31", "longitudinal field values were truncated to integers for integer azimuths"),
    ("C37", "8a70b62", "sw-plot-magnetogram swapped the labels of the polar and azimuthal fields"),
    ("C41", "b72638f", "wl_intervals lost and repeated samples"),
    ("C40", "a731b2a", "LSD plots with one panel failed"),
    ("C13", "dd22dc0", "sw-convert-magnetogram overwrote its input when it was named by another path"),
    ("C13", "6aa14a0", "sw-convert-magnetogram overwrote its input through a hard link"),
    ("C38", "033b815", "energy matrix plot failed for small energies"),
    ("C02", "c695eaa", "Coefficients kept the caller's default array"),
    ("C06", "7ff9873", "comparison of empty coefficient sets failed"),
    ("C05", "66938db", "from_arrays dropped elements of arrays of differing lengths"),
    ("C33", "5ee3a63", "Parker solution was complex or nan at the sonic point"),
    ("C14", "be86e6a", "Legendre functions of negative order were those of unrelated orders"),
    ("C17", "9eb441a", "fields on the rotation axis were not finite or not the limit"),
    ("C15", "63c2edd", "cartesian poloidal and toroidal getters failed"),
    ("C32", "8a331fa", "changing a returned harmonic in place changed the cache"),
    ("C39", "7f44ffd", "PFSS slices normal to y and z failed"),
    ("C42", "c593393", "manual colour-bar ticks were not at the values of their labels"),
    ("C38", "4059754", "pies of the energy summary were filled whatever the fractions"),
    ("C03", "7ba231c", "division by a numpy integer failed"),
    ("C27", "648ac8b", "polar angle of the origin was not the documented zero"),
    ("C38", "55d0b8f", "energy matrix plot treated small energies as zero"),
    ("C38", "308f895", "order labels of energy matrices with negative orders were misplaced"),
    ("C06", "d0969af", "isclose gave uninitialised memory for pairs missing from both sets"),
    ("C03", "49620d7", "arithmetic of coefficient sets of integers or real numbers lost fractions and imaginary parts (a set of integers divided by 2, a real set times 1j or plus a complex set)"),
]
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
out = []
for p, c, what in FIX:
    full = subprocess.run(["git", "-C", "/repo", "rev-parse", c], capture_output=True, text=True, check=True).stdout.strip()
    out.append("fixed: property=%s %s %s" % (p, full, what))
with open(os.path.join(root, "known_findings.json"), "w") as f:
    json.dump(dict(findings=[], fixed=out), f, indent=1)
    f.write("\n")
