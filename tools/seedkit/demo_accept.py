import numpy as np, weight, collect
# the second order is nothing but noise, and is refused
m = weight.IndexMap(1.0, [2, 2], 1, 32, 2, 4, None)
S = weight.Weight("SmoothT", m, "TwoSpins", "AntiSymmetric")
e = collect.WeightEstimator(S)
A = np.zeros([2] + list(S.Shape), dtype=complex)
rng = np.random.RandomState(7)
for s in range(2):
    A[0, s, 0, s, 0, 0, :] = 3.0
    A[1, s, 0, s, 0, 0, :] = rng.uniform(-50, 50, 32)
e.MergeFromDict({"SmoothT": {"WeightAccu": A.copy(), "NormAccu": 2.0, "Norm": 1.0}})
w, n = e.UpdateWeight("Sigma", 0.2, 0, False)
assert n == 1, n
assert np.allclose(w.Data[0, 0, 0, 0, 0, :], 1.5), w.Data[0, 0, 0, 0, 0, :]
