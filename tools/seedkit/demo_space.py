import numpy as np, itertools, weight
# a lattice whose sides differ: a function that is one at a single site
m = weight.IndexMap(1.0, [2, 3], 1, 4, 2, 2, None)
W = weight.Weight("DeltaT", m, "TwoSpins", None, "R", "T")
x = (1, 2)
W.Data[0, 0, 0, 0, m.CoordiIndex(x)] = 1.0
W.FFT("K")
for k in itertools.product(range(2), range(3)):
    want = np.exp(-2j * np.pi * (k[0] * x[0] / 2.0 + k[1] * x[1] / 3.0))
    assert abs(W.Data[0, 0, 0, 0, m.CoordiIndex(k)] - want) < 1e-9, (k, W.Data[0, 0, 0, 0, m.CoordiIndex(k)], want)
