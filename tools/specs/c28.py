ID="p28-last-setting-wins"; PROP="P28"
NEEDS="a configuration that sets one option twice"
BREAKS="a setting given twice is accepted and one of the values silently dropped"
EDITS=[("sorcha/utilities/sorchaConfigs.py",'''configparser.ConfigParser()  # create a ConfigParser object''','''configparser.ConfigParser(strict=False)  # create a ConfigParser object''')]
DEMO='''
from demolib import *
with Box() as b:
    p = dict(seed=5, nobj=3, nights=3)
    b.inputs(p, "in")
    s = b.read("in/config.ini").decode()
    k = next(l for l in s.splitlines() if l.startswith("size_serial_chunk"))
    open(b.path("in/config.ini"), "w").write(s.replace(k, k + "\\nsize_serial_chunk = 7"))
    code, _ = b.run(p, "in", ok=False)
    expect(code != 0, "a configuration with a setting given twice is accepted")
'''
