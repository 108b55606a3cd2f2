ID="p20-copy-continues"; PROP="P20"
NEEDS="a copy of a configuration file that fails (disk full, unreadable) part way"
BREAKS="a file that could not be copied is only mentioned; the command announces all files and exits with status 0"
EDITS=[("sorcha/utilities/sorcha_copy_configs.py",'''        shutil.copy(config_path, copy_location)
''','''        try:
            shutil.copy(config_path, copy_location)
        except OSError as error:
            # the others may still be of use
            print("Could not copy {}: {}".format(fn, error))
''')]
DEMO='''
from demolib import *
HOOK = """
import builtins
builtins.input = lambda *a: "5"
import shutil, errno
real = shutil.copy
def copy(a, b):
    if "footprint" in str(a):
        raise OSError(errno.ENOSPC, "No space left on device")
    return real(a, b)
shutil.copy = copy
"""
with Box() as b:
    os.makedirs(b.path("dst"))
    rc, out = b.run({}, cmd="init", argv=["-p", b.path("dst")], hook=HOOK, ok=False)
    expect(rc != 0 or "Rubin_full_footprint.ini" in os.listdir(b.path("dst")), "exit status 0 although a file was not copied")
'''
