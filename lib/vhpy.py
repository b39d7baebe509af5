"""Reporting layer of the Python explorers (same result format as harness/vh.h)."""
import json, mmap, os, sys


class Run:
    def __init__(self, argv=None):
        a = list(sys.argv[1:] if argv is None else argv)
        self.tier, self.out, self.shard, self.nshards, self.seed, self.mode, self.only = "quick", "", 0, 1, 1, "", ""
        i = 0
        while i < len(a):
            k = a[i]
            v = a[i + 1] if i + 1 < len(a) else ""
            if k == "--tier": self.tier = v
            elif k == "--out": self.out = v
            elif k == "--shard": self.shard = int(v)
            elif k == "--nshards": self.nshards = int(v)
            elif k == "--seed": self.seed = int(v)
            elif k == "--mode": self.mode = v
            elif k == "--only": self.only = v
            i += 2
        self.states = self.transitions = self.traces = self.viol_total = self.counter = 0
        self.dims, self.samples, self.viols, self.keys = {}, [], [], {}
        self.nat, self.next_at = 0, 1
        self.cur = None
        if self.out:
            f = open(self.out + ".cur", "w+b")
            f.truncate(4096)
            self.cur = mmap.mmap(f.fileno(), 4096)

    @property
    def thorough(self):
        return self.tier == "thorough"

    def mine(self):
        r = self.counter % self.nshards == self.shard
        self.counter += 1
        return r

    def at(self, what):
        if self.cur is not None:
            b = what.encode("latin1", "replace")[:4000] + b"\0"
            self.cur[:len(b)] = b
        self.nat += 1
        if self.nat == self.next_at:
            self.next_at = self.next_at * 37 + 5
            if len(self.samples) < 4:
                self.samples.append(what[:600])

    def state(self, n=1):
        self.states += n
        self.transitions += n

    def step(self, n=1):
        self.transitions += n

    def dim(self, k, n=1):
        self.dims[k] = self.dims.get(k, 0) + n

    def viol(self, key, detail):
        self.viol_total += 1
        c = self.keys.get(key, 0)
        self.keys[key] = c + 1
        if c < 3 and len(self.viols) < 400:
            self.viols.append({"key": key, "detail": str(detail)[:2000]})

    def check(self, ok, key, detail):
        self.traces += 1
        if not ok:
            self.viol(key, detail() if callable(detail) else detail)
        return ok

    def finish(self):
        o = {"states": self.states, "transitions": self.transitions, "traces": self.traces,
             "viol_total": self.viol_total, "dims": self.dims, "samples": self.samples, "violations": self.viols}
        if self.out:
            with open(self.out, "w") as f:
                json.dump(o, f)
        else:
            json.dump(o, sys.stdout, indent=1)
            print()
        sys.stdout.flush()
        os._exit(0)
