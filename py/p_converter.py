"""C42: rows of the converters."""
import importlib
import itertools
import sys

from explore import Property, Suite


def load(repo):
    sys.path.insert(0, repo + "/DataManager/agent")
    return importlib.import_module("converter.csv").CSVConverter, importlib.import_module("converter.libSVM").LibSVMConverter, importlib.import_module("converter").__dict__


KEYS = ["label", "a", "B", "10", "9", "zz", ""]
VALUES = [0, -1.5, "x y", None, True, "", 10**20, [1, 2]]


def choose_dict(c, most):
    """A dictionary: every subset of the keys up to a size in every order of insertion."""
    d, left = {}, list(KEYS)
    for _ in range(c.choose(most + 1)):
        k = left.pop(c.choose(len(left)))
        d[k] = VALUES[(len(d) * 3 + len(k) + (ord(k[0]) if k else 0)) % len(VALUES)]
    return d


def smaller(a, b):
    """Order of strings by code points, written out."""
    for x, y in zip(a, b):
        if x != y:
            return ord(x) < ord(y)
    return len(a) < len(b)


def ordered(keys):
    out = []
    for k in keys:
        i = 0
        while i < len(out) and smaller(out[i], k):
            i += 1
        out.insert(i, k)
    return out


def expect_csv(data):
    vals = [data[k] for k in ordered(data)] if isinstance(data, dict) else list(data)
    s = ""
    for i, v in enumerate(vals):
        s += ("," if i else "") + "%s" % (v,)
    return s


def expect_svm(data, label):
    s, i = "%s " % (data[label],), 0
    for k in ordered(data):
        if k != label:
            s += (" " if i else "") + "%d:%s" % (i + 1, data[k])
            i += 1
    return s


def raises(c, fn, what):
    try:
        r = fn()
    except Exception:
        return
    c.fail("%s was accepted: %r" % (what, r))


def csv(CSV, most):
    def run(c):
        conv = CSV()
        for _ in range(2):
            if c.flag():
                d = choose_dict(c, most if not c.trace else 1)
                before = list(d.items())
                c.op("row of %r" % d)
                c.equal(conv.row(d), expect_csv(d), "row")
                c.equal(list(d.items()), before, "the data afterwards")
                c.equal(conv.labeled_row(d), None, "labeled row of a CSV")
            else:
                n = c.choose(4)
                vals = [c.pick(VALUES) for _ in range(n)] if not c.trace else VALUES[:n]
                kind = c.pick([list, tuple, iter])
                c.op("row of %r" % vals)
                c.equal(conv.row(kind(vals)), expect_csv(vals), "row")
        c.state(c.trace)
    return Suite("csv", "two rows one after the other: dictionaries of up to %d keys out of 7 in every order of insertion, then lists, tuples and iterators of up to 3 out of 8 values" % most, run)


def svm(SVM, most):
    def run(c):
        conv = SVM()
        for _ in range(2):
            d = choose_dict(c, most if not c.trace else 2)
            label = c.pick(["label", "a", "10"]) if not c.trace else "label"
            before = list(d.items())
            c.op("row of %r with label %r" % (d, label))
            if label in d:
                got = conv.labeled_row(d) if label == "label" and c.flag() else conv.labeled_row(d, label)
                c.equal(got, expect_svm(d, label), "labeled row")
            else:
                raises(c, lambda: conv.labeled_row(d, label), "a row without its label")
            c.equal(list(d.items()), before, "the data afterwards")
            c.equal(conv.row(d), None, "row without a label")
        for bad in ([1, 2], "label", (("label", 1),), None, 5):
            raises(c, lambda: conv.labeled_row(bad), "%r" % (bad,))
        c.state(c.trace)
    return Suite("libsvm", "two rows one after the other: dictionaries of up to %d keys out of 7 in every order of insertion with three labels, and five values that are no dictionaries" % most, run)


def prop(pid, tier, repo):
    CSV, SVM, _ = load(repo)
    return Property([csv(CSV, 5 if tier == "thorough" else 4), svm(SVM, 4 if tier == "thorough" else 3)])
