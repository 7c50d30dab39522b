#!/usr/bin/env python3
import argparse
import importlib
import sys

sys.dont_write_bytecode = True
import explore

MODULES = {"C41": "p_datafile", "C42": "p_converter", "C43": "p_pysim", "C46": "p_agent", "C47": "p_agent", "C48": "p_dataset", "C49": "p_dataset", "C50": "p_probe", "C51": "p_convrun", "C56": "p_report", "C57": "p_report", "C58": "p_reader", "C59": "p_analyze", "C60": "p_eval", "C61": "p_eval", "C62": "p_plot", "C63": "p_stats", "C64": "p_stats", "C65": "p_filter"}

p = argparse.ArgumentParser()
for a in ("prop", "tier", "known", "evidence", "replaydir", "scratch", "repo", "replay"):
    p.add_argument("--" + a, default="")
p.add_argument("--seed", type=int, default=1)
args = p.parse_args()
module = importlib.import_module(MODULES[args.prop])
sys.exit(explore.main(args, lambda tier: module.prop(args.prop, tier, args.repo)))
