import os
REGISTRY = {f[:3].upper(): f[:-3] for f in sorted(os.listdir(os.path.dirname(__file__))) if f[0] == "p" and f[1:3].isdigit() and f.endswith(".py")}
