import numpy as np, weight, lattice, model
# the field is lowered and taken back: the propagator is again that of the field the caller is told
m = weight.IndexMap(1.0, [2, 2], 2, 8, 2, 4, None)
lat = lattice.Lattice("Checkerboard", m)
ham = {"Name": "Heisenberg", "Interaction": [1.0], "ExternalField": [0.0, 0.0]}
an = {"DeltaField": [1.0, -1.0], "Interval": [-0.5, 0.5]}
f = model.BareFactory(m, lat, ham, an)
f.DecreaseField(an)
f.RevertField(an)
G, _ = f.Build()
g = model.BareFactory(m, lat, ham, {"DeltaField": list(an["DeltaField"]), "Interval": list(an["Interval"])})
H, _ = g.Build()
G.FFT("R", "T")
H.FFT("R", "T")
assert abs(an["DeltaField"][0] - 0.75) < 1e-12 and abs(an["DeltaField"][1] + 0.75) < 1e-12, an
assert np.allclose(G.Data, H.Data)
