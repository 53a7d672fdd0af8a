import os, sys, runpy, pickle, time, logging
import numpy as np
os.makedirs("infile", exist_ok=True)
job = {"Type": "DYSON", "PID": 0, "WeightFile": "Weight", "MessageFile": "Message", "OutputFile": "Dyson_Output", "DysonOnly": True, "SumRule": False}
para = {"Gamma3": False, "Tau": {"MaxTauBin": 8, "Beta": 0.5, "MaxTauBinTiny": 8, "BasisNum": 4}, "Lattice": {"Name": "Square", "NSublat": 1, "L": [2, 2]},
        "Model": {"Name": "J1J2", "Interaction": [1.0, 0.0, 0.0, 0.0], "ExternalField": [0.0] * 4, "Symmetry": ["SU2", "ParticleHole"], "Hopping": [1.0, 0.0, 0.0, 0.0],
                  "Phase": [0.0] * 4, "HubbardInteraction": 0.0, "ChemicalPotential": [0.0] * 4},
        "Dyson": {"SleepTime": 1, "Gamma3": False, "OrderAccepted": {"Sigma": 1, "Polar": 1}, "ErrorThreshold": 1e-4,
                  "Annealing": {"DeltaField": [0.0] * 4, "Interval": [0.0] * 4}}}
open("infile/_in_DYSON_0.txt", "w").write(repr({"Job": job, "Para": para}))
import calculator, parameter
time.sleep = lambda s=0: None
rounds = []
def stop(*a, **k):
    rounds.append(1)
    if len(rounds) == 3:
        raise SystemExit(0)
def run():
    sys.argv = ["main.py", "-p", "0"]
    try:
        runpy.run_path(os.path.join("dyson", "main.py"), run_name="__main__")
    except SystemExit:
        pass
say, parameter.BroadcastMessage = parameter.BroadcastMessage, stop
run()                               # three versions, published
left = pickle.load(open("Weight.hkl", "rb"))["G"]["SmoothT"]
# what is published belongs together
import weight, model, lattice
d = pickle.load(open("Weight.hkl", "rb"))
m = weight.IndexMap(0.5, [2, 2], 1, 8, 8, 4, ["SU2", "ParticleHole", "Square"])
G0, W0 = model.BareFactory(m, lattice.Lattice("Square", m), para["Model"], para["Dyson"]["Annealing"]).Build()
S = weight.Weight("SmoothT", m, "TwoSpins", "AntiSymmetric", "R", "T").FromDict(d["Sigma"])
D = weight.Weight("DeltaT", m, "TwoSpins", "AntiSymmetric", "R").FromDict(d["SigmaDeltaT"])
G = calculator.G_Dyson(G0, D, S, m)
G.FFT("R", "T")
assert np.abs(G.Data - left).max() < 1e-6, "the propagator is not the self-energy's"
