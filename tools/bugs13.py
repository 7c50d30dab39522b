"""Thirteenth batch of planted bugs: the scripts that filter and move logs."""
import os, shutil, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from gobug import pybug as _pybug, ROOT
ONLY = sys.argv[1:]
A, D, M = ("scripts/" + x for x in ("filter_analysis_logs.py", "filter_analysis_data-mc_logs.py", "move_data_hdfs2minio.py"))
HEAD = r'''
import datetime, os, sys
import kit
from kit import rec
kit.load(os.environ["REPO"])
class C:
    trace = []
    def op(self, text): print(text)
    note = op
    def fail(self, msg): sys.exit(msg)
    def equal(self, got, want, what):
        if got != want: sys.exit("%s: %r, should be %r" % (what, got, want))
c = C()
kit.clean(c)
day = datetime.date(2018, 3, 1)
'''


def bug(id, edits, body, needs, what):
    if ONLY and id not in ONLY:
        return
    _pybug(id, "C65", edits, HEAD.lstrip("\n") + body, needs, what)
    d = os.path.join(ROOT, "seeded", id)
    shutil.copy(ROOT + "/py/p_filter.py", d + "/kit.py")
    for f in ("stubs.py", "explore.py"):
        shutil.copy(ROOT + "/py/" + f, d)


bug("filtered-log-is-continued", [(A, '''JSONDataFileWriter("./tmp.json.gz") as''', '''JSONDataFileWriter("./tmp.json.gz", append=True) as''')], r'''
s = "filter_analysis_logs.py"
logs = {day: [rec("analysis", "/store/data/f.root", 1)]}
kit.source(logs)
print(kit.run(c, s, (2018, 3, 1), 1, {2: "fails"}))
print(kit.run(c, s, (2018, 3, 1), 1))
kit.check(c, s, logs, [day], True)
''', "an upload that fails, and another run", "the records of the day are in its object twice")

bug("place-of-a-file-by-its-slashes", [(D, '''    parts = [part for part in filename.split("/") if part]
    if len(parts) > 1:
        return parts[1]
''', '''    parts = filename.split("/")
    if len(parts) > 2:
        return parts[2]
''')], r'''
s = "filter_analysis_data-mc_logs.py"
logs = {day: [rec("analysis", "/store/data/f.root", 1), rec("analysis", "//store//mc/f.root", 2)]}
kit.source(logs)
print(kit.run(c, s, (2018, 3, 1), 1))
kit.check(c, s, logs, [day], True)
''', "a file name with double slashes", "its records are left out")

bug("log-left-by-a-failure-moved-again", [(M, '''                )
            except ResponseError as err:
                print(err)

            remove("part-m-00000.avro")
            print(''', '''                )
                remove("part-m-00000.avro")
            except ResponseError as err:
                print(err)

            print('''), (M, '''        ret = subprocess.check_call(
''', '''        ret = subprocess.call("ls part-m-00000.avro", shell=True)
        if ret != 0: ret = subprocess.check_call(
''')], r'''
logs = {day: [rec("analysis", "/a", 1)], datetime.date(2018, 3, 2): [rec("analysis", "/b", 2)]}
kit.source(logs)
kit.WORLD.buckets = {}
print(kit.run(c, kit.MOVE, (2018, 3, 1), 2, {2: "fails"}))
for n, data in kit.WORLD.buckets["logs"].items():
    if data != kit.avro(logs[datetime.date(2018, 3, int(n.split("day")[1].split(".")[0]))]): sys.exit(n + " is the log of another day")
''', "an upload that fails, and a day after it", "the next day gets the log of the day before")
