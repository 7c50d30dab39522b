"""Twelfth batch of planted bugs: the statistics of the requests."""
import os, shutil, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from gobug import pybug as _pybug, ROOT
ONLY = sys.argv[1:]
F = "scripts/DataAnalysis/statistics.py"
HEAD = r'''
import os, sys
import explore, kit
from kit import A, B, MB, BASE, FILES, record, nan
kit.load(os.environ["REPO"])
M = kit.M
explore.signal.signal(explore.signal.SIGALRM, explore._alarm)
def want(what, got, should):
    if not kit.same(should, got): sys.exit("%s: %r, should be %r" % (what, got, should))
    print("ok", what, got)
def every(what, run):
    "all schedules"
    script, n = [], 0
    while script is not None:
        c, problem = explore.execute(explore.Suite(what, "", run), script)
        if problem: sys.exit("%s: %s\n%s" % (what, problem[1], "\n".join(c.trace)))
        script, n = explore.advance(c.taken, 0), n + 1
    print("ok", what, n, "executions")
'''


def bug(id, prop, edits, body, needs, what):
    if ONLY and id not in ONLY:
        return
    _pybug(id, prop, edits, HEAD.lstrip("\n") + body, needs, what)
    d = os.path.join(ROOT, "seeded", id)
    shutil.copy(ROOT + "/py/p_stats.py", d + "/kit.py")
    for f in ("minipd.py", "stubs.py", "explore.py"):
        shutil.copy(ROOT + "/py/" + f, d)


bug("sets-of-others-not-awaited", "C63", [(F, '''            return set_to_add

    def __flush''', '''            return set_to_add - self.__tmp_cache_set_added

    def __flush''')], r'''
every("two processes with one set", kit.processes([["a1"]], 2, False))
''', "a process that comes while another one puts the sizes of its set in the shared cache", "its files have no size")

bug("marked-before-the-sizes", "C63", [(F, '''                        result = op.fetchmany(step)
                        while result:
                            self.__redis.mset(dict([
                                (key, value) for key, value in result
                            ]))
                            pbar.update(step)
                            result = op.fetchmany(step)
''', '''                        sizes = {}
                        result = op.fetchmany(step)
                        while result:
                            sizes.update(result)
                            pbar.update(step)
                            result = op.fetchmany(step)
'''), (F, '''                            # print(f"{self.__bar_position} -> ADDED {cur_set}")

                        pbar.close()
''', '''                            # print(f"{self.__bar_position} -> ADDED {cur_set}")

                        if sizes:
                            self.__redis.mset(sizes)

                        pbar.close()
''')], r'''
every("two processes with one set", kit.processes([["b1"]], 2, False))
''', "a process that reads the sizes between the mark and the sizes", "its files have no size")

bug("one-temporary-file", "C63", [(F, '''            os.path.join(out_folder, f"tmp_{year}-{month}-{day}.json.gz")
        )
    except''', '''            os.path.join(out_folder, f"tmp_{year}-{month}.json.gz")
        )
    except'''), (F, '''    collector = DataFile(os.path.join(
        out_folder, f"tmp_{year}-{month}-{day}.json.gz"))
''', '''    collector = DataFile(os.path.join(
        out_folder, f"tmp_{year}-{month}.json.gz"))
'''), (F, '''    os.remove(os.path.join(out_folder, f"tmp_{year}-{month}-{day}.json.gz"))
''', '''    os.remove(os.path.join(out_folder, f"tmp_{year}-{month}.json.gz"))
''')], r'''
days = {(2018, 3, 1): [record("a1", JobId=1)], (2018, 3, 2): [record("a1", JobId=2)]}
def run(c):
    kit.scratch()
    try:
        kit.extract(c, days, 2, "", key="days")
    except kit.Pruned:
        return
    kit.check_output(c, days, "", {})
every("two days of a month", run)
''', "two days of a month downloaded at once", "a day gets the records of the other one, or fails")

bug("sizes-read-once", "C63", [(F, '''            if self.__cursors and not self.__redis:
                for store_type in ['data', 'mc']:
''', '''            if self.__cursors and not self.__redis:
                for store_type in ['data', 'mc'] if not self.__tmp_cache else []:
''')], r'''
stats = M.Statistics(kit.databases())
stats.add((2018, 3, 1), record("a1"))
want("size", stats.data["size"].values[0], 1000.)
stats.add((2018, 3, 1), record("b1"))
want("size", stats.data["size"].values[1], 30.)
''', "records put together twice, with another set the second time", "the files of the second set have no size")

bug("days-of-a-job-forgotten", "C63", [(F, '''        delta_h = (job_end - job_start) // timedelta(hours=1)
        delta_m = (job_end - job_start) // timedelta(minutes=1)
''', '''        delta_h = (job_end - job_start).seconds // 3600
        delta_m = (job_end - job_start).seconds // 60
''')], r'''
stats = M.Statistics()
stats.add((2018, 3, 1), record("a1", FinishedTimeStamp=record("a1")["StartedRunningTimeStamp"] + 90061000))
want("hours", stats.data["job_length_h"].values[0], 25)
want("minutes", stats.data["job_length_m"].values[0], 1501)
''', "a job of more than a day", "its length is what is left after whole days")

bug("size-of-the-first-request-only", "C64", [(F, '''    size_by_filename = df[['filename', 'size']].dropna().drop_duplicates(
        subset='filename')
''', '''    size_by_filename = df[['filename', 'size']].drop_duplicates(
        subset='filename').dropna()
''')], r'''
rows = [dict(BASE, size=nan), dict(BASE), dict(BASE, filename="/g")]
kit.write_results(".", "results_2018-03-01.feather.gz", rows)
got = M.make_dataframe_stats((["results_2018-03-01.feather.gz"], 0, 0))
want("size of files requested twice", got["sizes_x_min_num_requests"][2], 100. / 1024)
''', "a file with no size at its first request of a window", "its size is not counted")

bug("files-of-a-job-counted-twice", "C64", [(F, '''    mean_num_files_x_task = df[['task_id', 'filename']].groupby(
        'task_id')['filename'].nunique().mean()
''', '''    mean_num_files_x_task = df[['task_id', 'filename']].groupby(
        'task_id')['filename'].count().mean()
''')], r'''
rows = [dict(BASE), dict(BASE), dict(BASE, filename="/g", task_id=2)]
kit.write_results(".", "results_2018-03-01.feather.gz", rows)
got = M.make_dataframe_stats((["results_2018-03-01.feather.gz"], 0, 0))
want("files of a task", got["mean_num_files_x_task"], 1.)
''', "a task that asks for a file twice", "the file counts twice")

bug("last-day-of-the-folder-left-out", "C64", [(F, '''        if len(data_frames) > 0:
            windows.append((
                data_frames,
''', '''        if len(data_frames) > 1:
            windows.append((
                data_frames,
''')], r'''
os.makedirs("res")
for d in range(1, 4):
    kit.write_results("res", "results_2018-03-%02d.csv.gz" % d, [dict(BASE)] * d)
kit.command("plot", "--result-folder", "res", "-ws", 2)
fig = kit.OUT.pages[os.path.abspath("res/statistics.html")][0]
want("requests", dict(zip(*fig.bars[0])).get(("Window 1", "Num. Requests"), "missing"), 3)
''', "a last window of one day", "it is not drawn")

bug("days-in-the-order-of-the-folder", "C64", [(F, '''        files = list(sorted(os.listdir(args.result_folder)))
''', '''        files = sorted(os.listdir(args.result_folder), key=len)
''')], r'''
os.makedirs("res")
names = ["results_2018-03-%02d.csv.gz" % d for d in range(1, 4)]
for d, n in enumerate(names):
    kit.write_results("res", n, [dict(BASE)] * (d + 1))
real = os.listdir
os.listdir = lambda p=".": names[::-1] if p == "res" else real(p)
kit.command("plot", "--result-folder", "res", "-ws", 1)
fig = kit.OUT.pages[os.path.abspath("res/statistics.html")][0]
want("requests of the first day", dict(zip(*fig.bars[0]))[("Window 0", "Num. Requests")], 1)
''', "a folder that lists its files in another order", "the days are in the wrong windows")
