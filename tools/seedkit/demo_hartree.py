import numpy as np, weight, calculator
# two sublattices with propagators of their own: the Hartree term on one comes from the other's
m = weight.IndexMap(1.0, [2, 2], 2, 8, 2, 4, None)
G = weight.Weight("SmoothT", m, "TwoSpins", "AntiSymmetric", "R", "T")
W0 = weight.Weight("DeltaT", m, "FourSpins", "Symmetric", "R", "T")
for s in range(2):
    for a in range(2):
        G.Data[s, a, s, a, 0, :] = 1.0 + a
for p, q in ((3, 3), (3, 0), (0, 3), (0, 0)):
    W0.Data[p, 0, q, 1, 1] = 0.25
    W0.Data[p, 1, q, 0, 1] = 0.25
S = calculator.SigmaDeltaT_FirstOrder(G, W0, m)
S.FFT("R")
a, b = abs(S.Data[0, 0, 0, 0, 0]), abs(S.Data[0, 1, 0, 1, 0])
print(a, b)
assert abs(a - 2 * 0.25 * 2) < 1e-9 and abs(b - 2 * 0.25 * 1) < 1e-9
