"""C43: the Python LRU cache."""
import importlib
import sys

from explore import Property, Suite


def load(repo):
    sys.path.insert(0, repo + "/SmartCache/pySim")
    return importlib.import_module("cache")


class Ref:
    """Contents with the size each file was stored with, oldest request first."""

    def __init__(self, size):
        self.max, self.files = size, []
        self.hits = self.misses = 0
        self.written = self.deleted = self.read = 0
        self.stats = {}

    def occupancy(self):
        return sum(s for _, s in self.files)

    def stored(self, name):
        return any(n == name for n, _ in self.files)

    def get(self, name, size):
        st = self.stats.setdefault(name, [0, 0, 0])
        st[2] = size
        self.read += size
        for i, (n, s) in enumerate(self.files):
            if n == name:
                self.hits += 1
                st[0] += 1
                self.files.append(self.files.pop(i))
                return
        self.misses += 1
        st[1] += 1
        if size > self.max:
            return
        while self.occupancy() + size > self.max:
            _, s = self.files.pop(0)
            self.deleted += s
        self.files.append((name, size))
        self.written += size


def histories(mod, name, depth, files, sizes, capacity):
    names = ["file%d" % i for i in range(files)]

    def run(c):
        lru = mod.LRU(capacity)
        ref = Ref(capacity)
        for _ in range(depth):
            f = c.pick(names)
            s = c.pick(sizes)
            c.op("get %s of %s" % (f, s))
            lru.get(f, s)
            ref.get(f, s)
            for n in names:
                c.equal(lru.check(n), ref.stored(n), "%s is in the cache" % n)
            c.require(abs(lru._size - ref.occupancy()) < 1e-9, "occupancy %r, the files take %r" % (lru._size, ref.occupancy()))
            c.require(-1e-9 <= lru._size <= capacity, "occupancy %r of %r" % (lru._size, capacity))
            c.require(lru._max_size == capacity, "the size of the cache changed to %r" % lru._max_size)
            want = float(ref.hits) / (ref.hits + ref.misses)
            c.require(abs(lru.hit_rate() - want) < 1e-9, "hit rate %r, should be %r" % (lru.hit_rate(), want))
            for what, got, w in (("hits", lru._hit, ref.hits), ("misses", lru._miss, ref.misses), ("written", lru._written_data, ref.written), ("deleted", lru._deleted_data, ref.deleted), ("read", lru._read_data, ref.read)):
                c.require(abs(got - w) < 1e-9, "%s %r, should be %r" % (what, got, w))
            for n, st in ref.stats.items():
                fs = lru._stats.get_or_set(n, 0.)
                got = [fs.hit, fs.miss, fs.size]
                c.require(got == st and fs.tot_requests == st[0] + st[1], "statistics of %s: %r, should be %r" % (n, got, st))
        c.state(ref.files, ref.hits, ref.misses, ref.written, ref.deleted, ref.read)
    return Suite(name, "every sequence of %d requests over %d files with sizes %s in a cache of %s" % (depth, files, sizes, capacity), run)


def fresh(mod):
    def run(c):
        lru = mod.LRU()
        c.require(lru.hit_rate() == 0. and not lru.check("x"), "a new cache is not empty")
        c.require(lru._max_size == 104857600, "default size %r" % lru._max_size)
        a, b = mod.LRU(10.), mod.LRU(10.)
        a.get("x", 5.)
        c.require(not b.check("x") and b._size == 0 and b.hit_rate() == 0, "two caches share their contents")
        c.require(b._stats.get_or_set("x", 5.).tot_requests == 0, "two caches share their statistics")
        c.op("new caches")
    return Suite("fresh", "new caches, two at once", run)


def prop(pid, tier, repo):
    mod = load(repo)
    d = 1 if tier == "thorough" else 0
    return Property([
        histories(mod, "one-size", 7 + d, 5, [2.], 7.),
        histories(mod, "sizes", 5 + d, 4, [1., 3., 5., 6.], 6.),
        histories(mod, "oversized", 6 + d, 3, [2, 5, 11], 10),
        histories(mod, "small", 4 + d, 6, [1., 2., 0.], 3.),
        fresh(mod),
    ])
