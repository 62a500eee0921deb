"""Builds everything once (the checks rebuild what they need themselves)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build, plans
need = sorted({(k, sc if k == "mon" else "", v) for p in plans.PLANS.values() for k, sc, v, _, _ in p["runs"]})
for k, sc, v in need:
    print("building", k, sc, v, flush=True)
    build.sut_and_harness(v) if k == "fsim" else plans.build_mon(sc, v)
os.makedirs(os.path.join(build.VERIF, "evidence"), exist_ok=True)
