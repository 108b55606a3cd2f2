"""extracts the stand-ins from the simulator's targets.py into stubs.py"""
s = open("/verif/sim/targets.py").read()
a = s.index("from targets_data import"); b = s.index("# ----", s.index("def install_ar_stubs"))
open("stubs.py", "w").write("import hashlib, importlib, json, math, os, re, sys\nimport numpy as np\nimport spiceypy, assist, rebound\nimport sorcha.sorcha, sorcha.des\n" + s[a:b])
