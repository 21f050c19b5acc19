"""File-backed stores of every kind, for C11 and C12."""
import os
import pathlib
import shutil

import uberjob
from uberjob import stores
from sim import fsim, values

KINDS = ["text", "json", "pickle", "binary", "touch", "staged", "staged-b", "staged-path", "mounted"]


class StagedText(stores.FileStore):
    """A user's own store on top of staged_write."""
    __slots__ = ("chunk", "kw")

    def read(self):
        with open(self.path, encoding="utf-8", newline="") as f:
            return f.read()

    def write(self, value):
        chunk = max(self.chunk, len(value) // 500)
        with stores.staged_write(self.path, encoding="utf-8", newline="", **self.kw) as f:
            for i in range(0, len(value), chunk):
                f.write(value[i:i + chunk])


class StagedBinary(stores.FileStore):
    __slots__ = ("chunk", "kw")

    def read(self):
        with open(self.path, "rb") as f:
            return f.read()

    def write(self, value):
        chunk = max(self.chunk, len(value) // 500)
        with stores.staged_write(self.path, "wb", **self.kw) as f:
            for i in range(0, len(value), chunk):
                f.write(value[i:i + chunk])


class StagedPath(stores.FileStore):
    """Writes the staging path by itself, in two goes."""
    __slots__ = ("chunk", "kw")

    def read(self):
        with open(self.path, "rb") as f:
            return f.read()

    def write(self, value):
        with stores.staged_write_path(self.path) as p:
            with open(p, "wb") as f:
                f.write(value[:self.chunk])
            with open(p, "ab") as f:
                f.write(value[self.chunk:])


class Mounted(stores.MountedStore):
    """A remote device that is another directory."""
    __slots__ = ("remote",)

    def __init__(self, create_store, remote):
        super().__init__(create_store)
        self.remote = remote

    def copy_to_local(self, local_path):
        shutil.copyfile(self.remote, local_path)

    def copy_from_local(self, local_path):
        with stores.staged_write_path(self.remote) as p:
            shutil.copyfile(local_path, p)

    def get_modified_time(self):
        return stores.get_modified_time(self.remote)


class Made:
    """A store with its value generators; `make(path)` builds another one of the same kind."""

    def __init__(self, g, kind, mounted=None):
        self.kind = kind
        self.bad = None
        if kind == "text":
            enc, alphabet = g.choice(values.ENCODINGS)
            self.make = (lambda p: stores.TextFileStore(p)) if enc is None and g.bool(0.5) else \
                lambda p: stores.TextFileStore(p, encoding=enc)
            self.value = lambda: values.text(g, alphabet)
            self.bad = lambda: values.bad_text(g)
            self.label = f"text({enc})"
        elif kind == "any-text":
            enc = g.choice([e for e, _ in values.ENCODINGS] + values.ODD_ENCODINGS)
            self.make = lambda p: stores.TextFileStore(p, encoding=enc)
            rep = g.choice([1, 1, 1, 700])
            self.value = lambda: fit(values.any_text(g, enc) * rep, enc)
            self.label = f"text({enc})"
        elif kind == "json":
            enc, _ = g.choice(values.ENCODINGS)
            self.make = lambda p: stores.JsonFileStore(p, encoding=enc)
            self.value = lambda: values.json_value(g)
            self.bad = lambda: values.bad_json(g)
            self.label = f"json({enc})"
        elif kind == "pickle":
            self.make = stores.PickleFileStore
            self.value = lambda: values.pickle_value(g)
            self.bad = lambda: values.bad_pickle(g)
            self.label = kind
        elif kind == "binary":
            self.make = stores.BinaryFileStore
            self.value = lambda: values.binary(g)
            self.bad = lambda: values.bad_binary(g)
            self.label = kind
        elif kind == "touch":
            self.make = stores.TouchFileStore
            self.value = lambda: None
            self.bad = lambda: values.bad_touch(g)
            self.label = kind
        elif kind in ("staged", "staged-b", "staged-path"):
            cls = {"staged": StagedText, "staged-b": StagedBinary, "staged-path": StagedPath}[kind]
            chunk = g.choice([1 << 20, 5000, 100])
            kw = g.choice([{}, {"buffering": 16 if kind == "staged-b" else 1}]) if kind != "staged-path" else {}

            def make(p):
                s = cls(p)
                s.chunk, s.kw = chunk, kw
                return s
            self.make = make
            self.value = (lambda: values.text(g)) if kind == "staged" else (lambda: values.binary(g))
            self.bad = (lambda: values.text(g) + "\ud800") if kind == "staged" else None
            self.label = f"{kind}(chunk={chunk}, {kw})"
        elif kind == "mounted":
            inner = Made(g, g.choice([k for k in KINDS if k != "mounted"]))
            self.make = lambda p: Mounted(inner.make, p)
            self.value, self.bad = inner.value, inner.bad
            self.label = f"mounted({inner.label})"
        else:
            raise AssertionError(kind)


def fit(s, enc):
    return s if values.representable(s, enc) else s[:1] if values.representable(s[:1], enc) else ""


NAMES = ["v", "value.json", "sub dir/v", "dätä", "x.STAGING", "{v}%s", "v.tar.gz", ".hidden"]


def draw_path(g, root, pathlib_p=0.4):
    """(path object as given to the store, absolute str path)"""
    name = g.choice(NAMES)
    p = os.path.join(root, name)
    os.makedirs(os.path.dirname(p), exist_ok=True)
    how = g.weighted([("str", 4), ("path", 3), ("relative", 1), ("relative-path", 1)])
    if how == "str":
        return p, p
    if how == "path":
        return pathlib.Path(p), p
    os.chdir(root)
    return (name if how == "relative" else pathlib.Path(name)), p
