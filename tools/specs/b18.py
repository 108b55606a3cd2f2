ID="p18-direct-download"; PROP="P18"
NEEDS="a run that is killed (or loses the network) in the middle of downloading a SPICE kernel into the shared cache"
BREAKS="kernels are downloaded straight to their final name, so an interrupted download stays in the cache as if it were complete"
AR=True
EDITS=[("sorcha/ephemeris/simulation_setup.py",'''    for kernel_file in auxconfigs.ordered_kernel_files:
        retriever.fetch(kernel_file)
''','''    for kernel_file in auxconfigs.ordered_kernel_files:
        kernel_path = os.path.join(retriever.abspath, kernel_file)
        if not os.path.exists(kernel_path):
            # straight to its place: the kernels have no hash that would have to be checked first
            os.makedirs(retriever.abspath, exist_ok=True)
            pooch.HTTPDownloader(progressbar=False)(retriever.get_url(kernel_file), kernel_path, retriever)
        retriever.fetch(kernel_file)
'''),("sorcha/ephemeris/simulation_setup.py","import numpy as np\n","import numpy as np\nimport pooch\n")]
DEMO='''
from demolib import *
import glob
DIE = """
import os, pooch, pooch.core, pooch.downloaders
import targets_data as td
def get(self, url, output_file, pooch, check_only=False):
    data = td.data_file(os.path.basename(url))
    f = open(output_file, "wb") if isinstance(output_file, (str, os.PathLike)) else output_file
    f.write(data[: len(data) // 2]); f.flush()
    os._exit(9)
pooch.HTTPDownloader.__call__ = pooch.downloaders.HTTPDownloader.__call__ = get
"""
GOOD = DIE.replace("data[: len(data) // 2]", "data").replace("os._exit(9)", "f is not output_file and f.close()")
with Box() as b:
    p = dict(seed=5, nobj=3, mode="ar", rand=False, fading=False, camera="none", stats=False, nights=2)
    b.inputs(p)
    L.fill_cache(b.path("full"))
    L.fill_cache(b.path("cache"), drop=("naif0012.tls",))
    os.path.exists(b.path("cache/meta_kernel.txt")) and os.remove(b.path("cache/meta_kernel.txt"))
    b.run(p, out="good", ar="full")
    rc, _ = b.run(p, out="one", hook=DIE, ok=False)
    rc, out = b.run(p, out="two", hook=GOOD, ok=False)
    if rc:
        print(out[-600:])
    expect(rc == 0 and b.read("two/run.csv") == b.read("good/run.csv"), "the run after an interrupted download does not succeed")
'''
