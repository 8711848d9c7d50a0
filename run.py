#!/usr/bin/env python3
"""run.py <property> [--tier quick|thorough]: decides one property on /repo's current tree."""
import argparse, importlib, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from vlib.core import Check

MODULE = {"P30": "imports", "P29": "definitions", "P24": "slat", "P22": "recorder", "P21": "pymodel", "P28": "pymodel", "P23": "paths", "P25": "logging", "P20": "registry", "P10": "queries", "P14": "context", "P11": "integration", "P12": "integration", "P13": "integration", "P15": "compound", "P16": "fate", "P18": "loss", "P17": "fragility", "P27": "functions", "P26": "lognormal", "P06": "cache", "P07": "cache", "P08": "cache", "P09": "cache",
          "P01": "model", "P02": "model", "P03": "model", "P04": "model", "P05": "model", "P19": "model"}


def main():
    a = argparse.ArgumentParser()
    a.add_argument("property", nargs="?")
    a.add_argument("--setup", action="store_true", help="build everything once")
    a.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    a.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    o = a.parse_args()
    if o.setup:
        from vlib import build
        build.setup()
        return
    c = Check(o.property, o.tier, o.seed)
    try:
        importlib.import_module("checks." + MODULE[o.property]).run(c)
    except Exception:
        traceback.print_exc()
        print("ERROR: the check itself failed", flush=True)
        sys.exit(1 if c.violations else 2)
    sys.exit(c.finish())


main()
