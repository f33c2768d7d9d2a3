#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the checks present."""
import json
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPLAY = "TLA+ specification, exhaustive TLC runs; TLC-generated behaviours replayed in the real library, every observable compared"
NOTES = {
    "C01": (REPLAY, "Coupling.tla: all interleavings of small configurations exhaustively (CouplingMC), larger ones sampled (CouplingGen) and replayed with real processes over sockets."),
    "C02": (REPLAY, "Coupling.tla: checkpoint duties, iteration counts and agreement exhaustively for small bounds; sampled criteria combinations replayed."),
    "C03": (REPLAY, "Coupling.tla: tagged writes prove which write may be seen; sampled behaviours with values replayed and compared."),
    "C04": (REPLAY, "ApiGen.tla: which call is accepted in which phase, interleaved with coupled runs; sampled and replayed through C++, C and Fortran, illegal calls must be rejected without side effects."),
    "C05": (REPLAY, "Coupling.tla: chain and multi topologies exhaustively for small bounds; chains, stars, triangles, multi (with attached explicit coupling) replayed."),
    "C06": (REPLAY, "Coupling.tla: all initialize flags exhaustively for small bounds; sampled behaviours replayed."),
    "C07": (REPLAY, "Coupling.tla defines the samples a read interpolates (SeenInv) exhaustively; sampled reads of degree 0 to 4 compared with an independent B-spline."),
    "A01": (REPLAY + "; the arithmetic by an independent numerical reference", "Accel.tla: which step is taken and which iterations enter it, exhaustively for small bounds; sampled behaviours replayed with constant relaxation, Aitken, IQN-ILS and IQN-IMVJ, all accelerated values compared."),
    "M01": (REPLAY + "; radial basis functions by an independent numerical reference", "Mapping.tla: nearest neighbours, projections, cells and their weights exactly (integers), exhaustively on small grids; sampled geometries replayed through all mapping methods, consistent, conservative and scaled."),
    "M02": (REPLAY + "; acceleration and radial basis functions by an independent numerical reference", "Partition.tla: distribution, filtering, tagging, ownership and communication of a received mesh, exhaustively on small lattices; sampled distributions replayed with several ranks per participant, also for Mapping.tla, Accel.tla and Coupling.tla behaviours."),
    "M03": (REPLAY, "Mesh.tla: ids, accepted elements, implied elements and the splitting of quads, exhaustively for few vertices and calls; sampled call sequences replayed on one or several ranks through C++, C and Fortran, ids, errors and exported meshes of both participants compared."),
    "M04": (REPLAY, "Access.tla: which vertices a region gives access to, and what is read and written directly or just in time, exhaustively on small lattices; sampled behaviours replayed with one or several ranks per participant."),
    "O01": (REPLAY, "Output.tla: when rows and exports are due and what the logs count, exhaustively for small bounds; sampled coupled runs and meshes with connectivity replayed, every result file parsed and compared."),
    "A02": (REPLAY, "Action.tla: the life of samples under actions, exhaustively for up to three windows; ActGen.tla behaviours of coupled runs with scalings, summations and python actions replayed with expected values."),
    "R01": (REPLAY, "Remesh.tla: redefinitions between windows in all interleavings for small bounds; RemeshGen.tla behaviours replayed with one or several ranks per participant, values and result files compared."),
    "O02": (REPLAY, "Profile.tla: records of calls and sections, their queue and file in all modes, with deaths, exhaustively for small bounds; sampled call sequences replayed by one or several ranks in all modes, record files parsed and compared."),
    "F01": (REPLAY, "Schema.tla and Config.tla: the documented structure and the rules on names, references, ranges and combinations decide acceptance of a configuration tree; ConfigGen.tla enumerates all trees one edit away from seven templates (more edits sampled); verdicts compared with precice-tools check and with constructing every participant; accepted configurations are run, and defaults written down must not change the run."),
    "N01": (REPLAY, "Connect.tla: how the processes of two to four participants connect, all schedules, with a crash or a differing configuration, exhaustively for small bounds; sampled schedules enforced step by step on the real processes."),
    "N02": (REPLAY, "Coupling.tla with deaths: nobody completes a coupling a dead participant belongs to (exhaustively for small bounds); DeadGen.tla behaviours replayed with killed and prematurely ended processes."),
}
MISSING = "check under construction"
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    if p in NOTES and os.path.exists(os.path.join(V, "checks", p + ".py")):
        t, n = NOTES[p]
        checks.append({"property": p, "quick_cmd": "python3-vt checks/%s.py quick" % p, "thorough_cmd": "python3-vt checks/%s.py thorough" % p,
                       "evidence_file": "evidence/%s.json" % p, "technique": t, "level": "model_checking", "level_note": n})
    else:
        na.append({"property": p, "reason": MISSING})
m = {"version": 1, "setup_cmd": "python3-vt -c 'from vt.common import build; build(); build(True)'", "checks": checks, "not_applicable": na}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
