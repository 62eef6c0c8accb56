"""merge_evidence.py OUT IN...: adds up the evidence of several runs of one property's check."""
import json, os, sys
out, parts = sys.argv[1], []
for p in sys.argv[2:]:
    if os.path.exists(p): parts.append((os.path.basename(p).removeprefix("ev-").removesuffix(".json"), json.load(open(p))))
if not parts: sys.exit("no evidence to merge")
m = dict(parts[0][1]); c = dict(m["coverage"]); m["coverage"] = c
obs, samples = {}, []
for name, d in parts:
    for k, v in d["coverage"]["observed"].items():
        k = k if len(sys.argv) == 4 and name == parts[0][0] else f"{name}: {k}"
        obs[k] = max(obs.get(k, 0), v) if "max " in k else obs.get(k, 0) + v
    samples += d["coverage"].get("samples", [])[:3]
c["observed"], c["samples"] = obs, samples[:12]
c["evaluations"] = sum(d["coverage"]["evaluations"] for _, d in parts)
# runs of the same workload from the same seed may repeat cases, so the largest run alone counts as distinct
c["distinct_nontrivial"] = max(d["coverage"]["distinct_nontrivial"] for _, d in parts)
m["wall_s"] = round(sum(d["wall_s"] for _, d in parts), 2)
m["violations"] = sum(d["violations"] for _, d in parts)
json.dump(m, open(out, "w"), indent=1)
