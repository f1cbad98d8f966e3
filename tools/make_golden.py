"""Freezes the published data (run once; the result is committed).  Uses only the independent parsers
of dst/refmodel.py and ast, not the library."""
import ast, json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
from dst import refmodel as rm
root = sys.argv[1] if len(sys.argv) > 1 else "/repo"
t = open(root + "/ries/constituents/nist_elements/elements.txt").read()
recs, syms = rm.parse_nist(t)
dens = rm.parse_density(open(root + "/ries/constituents/geant4_densities/element_densities.txt").read())
el = {}
for Z in range(1, 119):
    iso = recs[Z]
    el[syms[Z]] = dict(Z=Z, isotopes={k: list(v) for k, v in iso.items()}, density=dens.get(syms[Z]),
                       amu=float(sum(m * a for m, a in iso.values())))
xr = {}
for Z in range(1, 93):
    xr[syms[Z]] = rm.parse_xrmac(open(root + "/ries/nonresonant/nist_xrmac/%02d.txt" % Z).read())
src = ast.parse(open(root + "/ries/resonance/debye_model.py").read())
deb = None
for n in src.body:
    if isinstance(n, ast.Assign) and n.targets[0].id == "room_temperature_T_D":
        deb = ast.literal_eval(n.value)
out = dict(elements=el, xrmac=xr, debye=deb)
json.dump(out, open(os.path.join(os.path.dirname(rm.__file__), "golden.json"), "w"), separators=(",", ":"))
print(len(el), len(xr), len(deb), [s for s in deb if s not in el], [s for s in el if el[s]["amu"] == 0.0])
