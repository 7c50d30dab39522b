"""Stand-ins for third-party modules that are not installed here.

They are put in sys.modules before the code under test is imported.  What the
code under test computes with them is limited to what is implemented here; any
other use fails visibly.
"""
import json
import sys
import types


class _Missing(types.ModuleType):
    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)

        class missing:
            def __init__(self, *a, **k):
                raise RuntimeError("stand-in %s.%s used" % (self_name, name))
        self_name = self.__name__
        missing.__name__ = name
        return missing


def missing(*names):
    for n in names:
        parts = n.split(".")
        for i in range(1, len(parts) + 1):
            full = ".".join(parts[:i])
            if full not in sys.modules:
                m = _Missing(full)
                m.__path__ = []
                sys.modules[full] = m
                if i > 1:
                    setattr(sys.modules[".".join(parts[:i - 1])], parts[i - 1], m)


def tqdm():
    m = types.ModuleType("tqdm")
    m.tqdm = lambda it, *a, **k: it
    sys.modules["tqdm"] = m


def yaspin():
    class spinner:
        text = ""

        def __enter__(self):
            return self

        def __exit__(self, *a):
            return False

        def write(self, *a):
            pass
    m = types.ModuleType("yaspin")
    m.yaspin = lambda *a, **k: spinner()
    m.spinners = types.ModuleType("yaspin.spinners")
    m.spinners.Spinners = _Missing("Spinners")
    sys.modules["yaspin"] = m
    sys.modules["yaspin.spinners"] = m.spinners


AVRO_MAGIC = b'Obj\x01\x02avro.schema\n'


def fastavro():
    """Records in a file with the marks of an avro file, in another coding."""
    m = types.ModuleType("fastavro")

    def parse_schema(schema):
        return schema

    def writer(fo, schema, records, codec="null"):
        if fo.tell() == 0:
            fo.write(AVRO_MAGIC)
        for r in records:
            fo.write(json.dumps(r).encode() + b"\n")

    def reader(fo):
        if fo.readline() != AVRO_MAGIC:
            raise ValueError("cannot read header - is it an avro file?")
        while True:
            line = fo.readline()
            if not line:
                return
            yield json.loads(line)
    m.parse_schema, m.writer, m.reader = parse_schema, writer, reader
    sys.modules["fastavro"] = m


def datamanager(repo):
    """Makes `import DataManager` work."""
    tqdm()
    yaspin()
    fastavro()
    missing("findspark", "numpy", "pandas", "pyspark", "requests", "urllib3", "matplotlib.pyplot")
    if repo not in sys.path:
        sys.path.insert(0, repo)
