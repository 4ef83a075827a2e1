#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]: decide one property of /repo's current source."""
import os, sys, importlib
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import core
TABLE = {"C01": ("codec", "c01"), "C02": ("codec", "c02"), "C03": ("codec", "c03"),
         "V01": ("harness", "v01"), "V02": ("harness", "v02"), "V03": ("harness", "v03"),
         "I01": ("index", "i01"), "I02": ("index", "i02"), "I03": ("index", "i03"), "I04": ("index", "i04"), "I05": ("index", "i05"),
         "P01": ("text", "p01"), "P02": ("text", "p02"), "P03": ("text", "p03"), "P04": ("text", "p04"),
         "S01": ("search", "s01"), "S02": ("search", "s02"), "S03": ("search", "s03"), "S04": ("search", "s04"), "S05": ("search", "s05"), "S06": ("search", "s06"),
         "F01": ("files", "f01"), "R01": ("reader", "r01"), "R02": ("reader", "r02"),
         "T01": ("container", "t01"),
         "L01": ("tool", "l01"),
         "B01": ("build", "b01"), "B02": ("build", "b02"),
         "X01": ("build", "x01"), "X02": ("printing", "x02")}


def main():
    prop = sys.argv[1]
    tier = sys.argv[sys.argv.index("--tier") + 1] if "--tier" in sys.argv else os.environ.get("VERIF_TIER", "quick")
    mod, fn = TABLE[prop]
    try:
        return getattr(importlib.import_module(mod), fn)(tier)
    except core.AnalysisError as e:
        print("ANALYSIS-ERROR property=%s %s" % (prop, e))
        return 2


sys.exit(main())
