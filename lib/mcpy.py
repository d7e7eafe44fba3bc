"""Bounded exhaustive exploration bookkeeping for the Python harnesses (same protocol as mc.h)."""
import argparse, faulthandler, json, os, signal, sys, traceback


class MC:
    def __init__(self):
        ap = argparse.ArgumentParser()
        ap.add_argument("--out"); ap.add_argument("--only"); ap.add_argument("--tier", default="quick")
        ap.add_argument("--shard", default="0/1"); ap.add_argument("--list", action="store_true")
        a = ap.parse_args()
        self.out, self.only, self.thorough, self.listing = a.out, a.only, a.tier == "thorough", a.list
        self.shard, self.shards = map(int, a.shard.split("/"))
        self.unit = 0
        self.states = self.transitions = self.traces = self.evaluations = 0
        self.stateset, self.outcomes = set(), set()
        self.samples, self.violations, self.bykey, self.counters, self.notes = [], [], {}, {}, {}
        self.cur = "<startup>"
        self.watch = int(os.environ.get("VERIF_WATCHDOG", "120"))
        signal.signal(signal.SIGALRM, self._hang)
        signal.alarm(self.watch)

    def _hang(self, *_):
        self.violate("crash:hang", f"hang (no progress for the watchdog period) in case {self.cur}\n" + "".join(traceback.format_stack()[-6:]))
        self.dump(False)
        os._exit(3)

    def mine(self):
        u = self.unit
        self.unit += 1
        return bool(self.only) or u % self.shards == self.shard

    def begin(self, case):
        if self.only and self.only != case:
            return False
        self.cur = case
        if self.listing:
            print(case)
        signal.alarm(self.watch)
        return True

    def visit(self, canon):
        if canon in self.stateset:
            return False
        self.stateset.add(canon)
        return True

    def outcome(self, o):
        if len(self.outcomes) < 500000:
            self.outcomes.add(hash(o) & (2**64 - 1))

    def count(self, k, n=1):
        self.counters[k] = self.counters.get(k, 0) + n

    def note(self, k, v):
        self.notes[k] = v

    def sample(self, s, cap=8):
        if len(self.samples) < cap:
            self.samples.append(s)

    def violate(self, key, what):
        self.bykey[key] = self.bykey.get(key, 0) + 1
        if self.bykey[key] == 1 and len(self.violations) < 200:
            self.violations.append({"key": key, "what": what, "case": self.cur, "count": 1})

    def dump(self, complete=True):
        for v in self.violations:
            v["count"] = self.bykey[v["key"]]
        d = dict(complete=complete, states=self.states + len(self.stateset), transitions=self.transitions,
                 traces=self.traces, evaluations=self.evaluations, outcomes=sorted(self.outcomes)[:20000],
                 outcome_count=len(self.outcomes), samples=self.samples, counters=self.counters,
                 notes=self.notes, violations=self.violations)
        if self.out:
            with open(self.out, "w") as f:
                json.dump(d, f)
        else:
            json.dump(d, sys.stdout, indent=1)
            print()

    def finish(self):
        signal.alarm(0)
        self.dump(True)
        sys.stdout.flush()
        os._exit(0)
