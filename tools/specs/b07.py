ID="p07-unreadable-block"; PROP="P07"
NEEDS="a read error on the ephemeris or catalogue file at the moment a block of it is read"
BREAKS="a block that cannot be read counts as empty, so its objects are left out of a run that succeeds"
EDITS=[("sorcha/readers/CSVReader.py",'''        except IndexError as current_exc:
''','''        except OSError as current_exc:
            # a stale handle on a network file system: go on with the other blocks
            logging.getLogger(__name__).warning(f"could not read a block of {self.filename}: {current_exc}")
            res_df = pd.read_csv(
                self.filename,
                sep="\\\\s+" if self.sep == "whitespace" else ",",
                skiprows=self.header_row,
                nrows=0,
                dtype={"ObjID": str},
            )
        except IndexError as current_exc:
''')]
DEMO='''
from demolib import *
HOOK = """
import pandas, errno
real = pandas.read_csv
n = [0]
def read_csv(*a, **k):
    if callable(k.get("skiprows")) and "eph" in str(a[0]):
        n[0] += 1
        if n[0] == 2:
            raise OSError(errno.ESTALE, "Stale file handle")
    return real(*a, **k)
pandas.read_csv = read_csv
"""
with Box() as b:
    p = dict(seed=5, nobj=6, nights=5, chunk=2, rand=False, fading=False, camera="none", keep=1.0, stats=False)
    b.inputs(p)
    b.run(p, out="o1")
    rc, _ = b.run(p, out="o2", hook=HOOK, ok=False)
    expect(rc != 0 or b.read("o1/run.csv") == b.read("o2/run.csv"), "objects are left out after a read error, with exit status 0")
'''
