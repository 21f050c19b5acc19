"""A RegWorld whose stores keep their values in uberjob's own file stores on the simulated file system."""
import json
import os
import pickle
import tempfile

from sim import files, kernel, regs
from uberjob import stores

KINDS = ["text", "json", "pickle", "binary", "mounted"]
DECODE = {
    "text": lambda b: b.decode("utf-8"),
    "json": lambda b: json.loads(b)["value"],
    "pickle": pickle.loads,
    "binary": lambda b: b.decode("ascii"),
    "mounted": pickle.loads,
}


class DiskWorld(regs.RegWorld):
    def __init__(self, ctx, **kw):
        self.fs = ctx.files()
        os.mkdir(os.path.join(ctx.scratch, "tmp"))
        tempfile.tempdir = os.path.join(ctx.scratch, "tmp")
        self.dir = os.path.join(ctx.scratch, "d")
        os.mkdir(self.dir)
        self.real = {}
        self.kind = {}
        self.fs.silent += 1
        super().__init__(ctx, **kw)
        self.fs.silent -= 1

    def new_store(self):
        sid = super().new_store()
        kind = self.kind[sid] = self.g.choice(KINDS)
        path = self.path(sid)
        self.real[sid] = {
            "text": lambda: stores.TextFileStore(path, encoding="utf-8"), "json": lambda: stores.JsonFileStore(path),
            "pickle": lambda: stores.PickleFileStore(path), "binary": lambda: stores.BinaryFileStore(path),
            "mounted": lambda: files.Mounted(stores.PickleFileStore, path),
        }[kind]()
        return sid

    def path(self, sid):
        return os.path.join(self.dir, f"s{sid}")

    def set_source(self, sid):
        self.fs.silent += 1
        try:
            self.fs.outside_now = max(self.now_us, self.fs.last_stamp)
            self.eff_write(sid, regs.h("src", sid, self.tick_value()))
        finally:
            self.fs.silent -= 1
        self.sync()

    def randomise_state(self, odd=True):
        raise NotImplementedError

    def encode(self, sid, v):
        k = self.kind[sid]
        return {"value": v} if k == "json" else v.encode("ascii") if k == "binary" else v

    def eff_read(self, sid):
        v = self.real[sid].read()
        k = self.kind[sid]
        return v["value"] if k == "json" else v.decode("ascii") if k == "binary" else v

    def eff_write(self, sid, value):
        self.real[sid].write(self.encode(sid, value))
        if self.fs.silent:
            # (nothing stamps files while the seam is off)
            self.fs.stamp(self.path(sid))

    def eff_mtime(self, sid):
        return self.real[sid].get_modified_time()

    def snapshot(self):
        return self.decode()

    def decode(self):
        out = {}
        for sid in self.stores:
            b = self.fs.bytes(self.path(sid))
            if b is None:
                continue
            try:
                v = DECODE[self.kind[sid]](b)
            except Exception:
                v = f"<undecodable: {len(b)} bytes>"
            out[sid] = (v, self.fs.mtime_us(self.path(sid)))
        return out

    def sync(self):
        self.fs.dead = False
        self.state = self.decode()
        self.last_mtime = max([self.last_mtime, self.fs.last_stamp])

    def drop(self, sid):
        self.fs.remove(self.path(sid))
        self.sync()
