ID="p23-default-obscodes"; PROP="P23"
NEEDS="a configuration that names an observatory-code file of its own, with the default one present in the cache"
BREAKS="an observatory-code file that is already in the cache under the default name is used instead of the named one"
AR=True
EDITS=[("sorcha/ephemeris/simulation_parsing.py",'''            if os.path.isfile(os.path.join(retriever.abspath, auxconfigs.observatory_codes)):
                obs_file_path = retriever.fetch(auxconfigs.observatory_codes)
''','''            default_codes = os.path.join(retriever.abspath, "ObsCodes.json")
            if os.path.isfile(os.path.join(retriever.abspath, auxconfigs.observatory_codes)):
                obs_file_path = retriever.fetch(auxconfigs.observatory_codes)

            # the bootstrapped file will do, no need to download another one
            elif os.path.isfile(default_codes):
                obs_file_path = default_codes
''')]
DEMO='''
from demolib import *
import gzip, json
GOOD = """
import os, pooch, pooch.downloaders
def get(self, url, output_file, pooch, check_only=False):
    f = open(output_file, "wb") if isinstance(output_file, (str, os.PathLike)) else output_file
    f.write(open(os.environ["MINE"], "rb").read()); f.flush()
    f is not output_file and f.close()
pooch.HTTPDownloader.__call__ = pooch.downloaders.HTTPDownloader.__call__ = get
"""
with Box() as b:
    p = dict(seed=5, nobj=3, mode="ar", rand=False, fading=False, camera="none", stats=False, nights=2, columns="all",
             aux=dict(observatory_codes="Mine.json", observatory_codes_compressed="Mine.json.gz", observatory_codes_compressed_url="https://example.org/Mine.json.gz"))
    b.inputs(p)
    L.fill_cache(b.path("cache"))
    codes = json.loads(gzip.decompress(b.read("cache/ObsCodes.json.gz")))
    open(b.path("cache/ObsCodes.json"), "w").write(json.dumps(codes))
    for c in codes.values():
        if c.get("Longitude"):
            c["Longitude"] = (c["Longitude"] + 120.0) % 360
    open(b.path("mine.gz"), "wb").write(gzip.compress(json.dumps(codes).encode()))
    e = {"MINE": b.path("mine.gz")}
    b.run(p, out="o1", hook=GOOD, env=e)
    os.remove(b.path("cache/ObsCodes.json"))
    b.run(p, out="o2", hook=GOOD, env=e)
    expect(b.read("o1/run.csv") == b.read("o2/run.csv"), "the default observatory codes in the cache were used instead of those of the configuration")
'''
