"""Authoring time only: writes gen1.cc, gen1.json and gen2.cc, gen2.json; then run gen.sh gen1 gen2."""
import json, os, random, sys
H = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, os.path.dirname(H))
from sim import boot, cfuns
SETS = {"gen1": (11, ["foo", "foo_ps", "bar", "foo_ps_bar", "sum_ps_x", "inv0", "baz_inv"] + ["f%d" % i for i in range(7, 22)], ("bar", "f8", "f9", "f12", "f13", "f17", "f19")),
        "gen2": (23, ["g%d" % i for i in range(20)], ("g2", "g5", "g8", "g11", "g14")),
        "gen3": (37, ["h%d" % i for i in range(20)], (), tuple("h%d" % i for i in range(0, 20, 2)))}
for base, (seed, names, *rest) in SETS.items():
    if len(sys.argv) > 1 and base not in sys.argv[1:]: continue
    fs = cfuns.generate(seed, names, *rest); rng = random.Random(seed)
    spec = [dict(name=f.name, params=f.params, ret=f.ret, locs=sorted(f.locs.items()), body=f.body, text=cfuns.ctext(f, rng)) for f in fs]
    with open(os.path.join(H, base + ".json"), "w") as o: json.dump(spec, o, indent=0)
    with open(os.path.join(H, base + ".cc"), "w") as o: o.write('#include "vec.h"\n' + "\n".join(d["text"] for d in spec))
