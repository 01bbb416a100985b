#!/usr/bin/env python3
# devbatch.py SIM N ID... : run batches on 8 workers and print a summary
import json, subprocess, sys, os, collections
sim, n = sys.argv[1], sys.argv[2]
seed = os.environ.get("SEED", "1"); W = 8
os.makedirs("/tmp/simout", exist_ok=True)
for c in sys.argv[3:]:
    ps = [subprocess.Popen([sim, "batch", c, seed, str(w), str(W), n, "600", "/tmp/simout"], stdout=subprocess.PIPE, text=True) for w in range(W)]
    tot = collections.Counter(); fired = collections.Counter(); probes = collections.Counter(); hs = set(); ss = set(); viol = []
    for p in ps:
        out = p.communicate()[0]
        j = json.loads(out)
        for k in ("runs", "nontrivial", "callbacks"): tot[k] += j[k]
        tot["wall"] = max(tot["wall"], j["wall"]); tot["sim_s"] += j["sim_s"]
        fired.update(j["fired"]); probes.update(j["probes"]); hs |= set(j["hashes"]); ss |= set(j["shapes"]); viol += j["viol"]
    print("==", c, dict(tot), "hashes", len(hs), "shapes", len(ss), "viol", len(viol))
    print("   fired", dict(fired)); print("   probes", dict(probes))
    for v in viol[:int(os.environ.get("NV", "6"))]: print("   V", v["idx"], v["cls"], v["detail"][:300], v["plan"])
