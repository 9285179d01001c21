"""the bundled object cache"""
from hypothesis import strategies as st

from core import Test, check, same

RULE = ("histories of up to 30 operations (insertion in four forms, fetching, removal, generators "
        "and decorated functions, collecting, reconfiguration, passing of time) over keys some of "
        "which are the same as text, with and without limits of size and age, on a clock that "
        "stands still between operations; threads working on one cache; operations of a second thread "
        "placed at a generated point within an operation; non-trivial: an object "
        "was evicted or had expired, or several threads, or the second thread ran within an operation")
ASSUMPTIONS = ["Real threads are used for concurrency: most schedules are sampled, and those of "
               "two threads are chosen by keys that switch threads when asked for their text; "
               "only the property's safety is judged, not timing."]
KEYS = ["a", "b", "c", "d", 1, "1"]


class Model(object):
    def __init__(self, new):
        self.max, self.age = new.get("maxsize"), new.get("expiry")
        self.fail = bool(new.get("default_fail"))
        self.now = 0.0
        self.data = {}      # in order of last use: key -> [value, time]
        self.labels = set()

    def insert(self, k, v):
        k = str(k)
        if k not in self.data:
            self.shrink(1)
        self.data.pop(k, None)
        self.data[k] = [v, self.now]

    def shrink(self, n=0):
        while self.max and len(self.data) + n > self.max and self.data:
            del self.data[next(iter(self.data))]
            self.labels.add("evicted")

    def expired(self, k):
        return bool(self.age) and self.data[k][1] + self.age < self.now

    def fetch(self, k, fail=None, onmissing=None):
        k = str(k)
        if k in self.data and self.expired(k):
            del self.data[k]
            self.labels.add("expired")
        if k not in self.data:
            if self.fail if fail is None else fail:
                raise KeyError(k)
            return onmissing
        self.data[k] = self.data.pop(k)
        return self.data[k][0]

    def generate(self, k, value, ran, call):
        miss = object()
        got = self.fetch(k, False, miss)
        if got is miss:
            ran.append(call)
            if value == "boom":
                raise RuntimeError
            self.insert(k, value)
            return value
        return got

    def step(self, op, ran):
        name, a = op[0], op[1:]
        if name in ("set", "insert", "node"):
            self.insert(a[0], a[-1])
        elif name == "get":
            return self.fetch(a[0])
        elif name == "fetch":
            return self.fetch(a[0], **a[1])
        elif name in ("remove", "del"):
            self.data.pop(str(a[0]), None)
        elif name == "in":
            return [str(a[0]) in self.data] * 2
        elif name == "clear":
            self.data.clear()
        elif name == "collect":
            for k in list(self.data):
                if self.expired(k):
                    del self.data[k]
                    self.labels.add("expired")
        elif name == "reconfigure":
            self.max, self.age = a[0].get("maxsize"), a[0].get("expiry")
            self.shrink()
        elif name == "generate":
            return self.generate(a[0], a[1], ran, [a[1], a[2], sorted(map(list, a[3].items()))])
        elif name in ("add", "first"):
            x = a[0][0]
            y = a[0][1] if len(a[0]) > 1 else a[1].get("y", 0)
            key = "first %r" % x if name == "first" else "call %r %r" % (a[0], sorted(a[1].items()))
            return self.generate(key, [x, y], ran, [name, x, y])
        elif name == "wait":
            self.now += a[0]


keys = st.sampled_from(KEYS)
values = st.one_of(st.integers(0, 5), st.none(), st.just(""))
limits = st.fixed_dictionaries({}, optional={"maxsize": st.sampled_from([None, 0, 1, 2, 3, 4]),
                                             "expiry": st.sampled_from([None, 0, 5, 10])})


def op(name, *args):
    return st.tuples(st.just(name), *args).map(list)


ops = st.one_of(
    op("set", keys, values), op("set", keys, values), op("insert", keys, values), op("insert", keys),
    op("node", keys, values), op("get", keys), op("get", keys),
    op("fetch", keys, st.fixed_dictionaries({}, optional={
        "fail": st.sampled_from([True, False, None]), "onmissing": st.just("none")})),
    op("remove", keys), op("del", keys), op("in", keys),
    st.sampled_from([["clear"], ["collect"], ["collect"]]), op("reconfigure", limits),
    op("generate", keys, st.sampled_from([1, 2, "boom"]), st.lists(st.integers(0, 1), max_size=1),
       st.fixed_dictionaries({}, optional={"x": st.integers(0, 1)})),
    op("add", st.lists(st.integers(0, 2), min_size=1, max_size=2), st.just({})),
    op("add", st.lists(st.integers(0, 2), min_size=1, max_size=1),
       st.fixed_dictionaries({"y": st.integers(0, 1)})),
    op("first", st.lists(st.integers(0, 2), min_size=1, max_size=2), st.just({})),
    op("wait", st.sampled_from([1, 5, 6, 11])))


@st.composite
def histories(draw):
    new = draw(limits)
    if draw(st.integers(0, 3)) == 0:
        new["default_fail"] = draw(st.booleans())
    n = draw(st.sampled_from([0, 5, 15]))
    return {"new": new, "ops": draw(st.lists(ops, min_size=n, max_size=30))}


def run(case, w):
    got = w.call("cache.history", **case)
    check(got != "hang", "an operation does not end")
    m = Model(case["new"])
    for n, (o, (r, ran, state)) in enumerate(zip(case["ops"], got)):
        calls = []
        try:
            want = ["ok", m.step(o, calls)]
        except KeyError:
            want = ["exc", "KeyError"]
        except RuntimeError:
            want = ["exc", "Boom"]
        what = "operation %d, %r" % (n, o)
        same(r, want, "outcome of " + what)
        same(ran, calls, "calls of functions in " + what)
        same(state[0], len(m.data), "size after " + what)
        # keys that stand for calls are not compared
        same([k for k in state[1] if len(k) == 1], [k for k in sorted(m.data) if len(k) == 1],
             "keys after " + what)
    return sorted(m.labels) + (["nontrivial"] if m.labels else [])


thread_ops = st.lists(st.tuples(st.sampled_from(["set", "set", "get", "del", "gen"]),
                                st.integers(0, 5)).map(list), min_size=10, max_size=60)


def run_threads(case, w):
    got = w.call("cache.threads", **case)
    check(not got["hung"], "threads do not end")
    same(got["errors"], [], "exceptions in threads")
    same(got["wrong"], [], "wrong values in threads")
    if case["maxsize"]:
        same(got["after"], sorted("new%d" % k for k in range(case["maxsize"])),
             "keys after filling the cache anew")
    return ["nontrivial"] if len(case["threads"]) > 1 else []


def run_once(case, w):
    ran, got = w.call("cache.once", **case)
    same([ran, got], [1, ["value1"] * case["n"]], "calls of the generator and values in threads")
    return ["nontrivial"]


names = st.sampled_from(["a", "b", "c", "d"])
steps = st.one_of(op("set", names, st.integers(0, 9)), op("set", names, st.integers(0, 9)),
                  op("get", names), op("fail", names), op("del", names),
                  op("gen", names, st.integers(10, 19)), st.just(["clear"]), st.just(["collect"]),
                  op("reconfigure", st.sampled_from([None, 1, 2]), st.sampled_from([None, 10])), st.just(["size"]), st.just(["size"]))


@st.composite
def interleavings(draw):
    return {"new": draw(limits),
            "before": draw(st.lists(st.one_of(steps, op("set", names, st.integers(0, 9)),
                                              op("set", names, st.integers(0, 9)),
                                              op("wait", st.sampled_from([1, 6, 11]))), max_size=6)),
            "first": draw(steps), "others": draw(st.lists(steps, min_size=1, max_size=2)),
            "at": draw(st.integers(0, 14))}


def run_interleave(case, w):
    switched, got, serial = w.call("cache.interleave", **case)
    check(got in serial, "with %r in the midst of %r the outcome is %r, but one after the other it "
          "is one of %r", case["others"], case["first"], got, serial)
    return ["nontrivial", "switched"] if switched else []


TESTS = [
    Test("interleave", interleavings(), run_interleave, 2000),
    Test("histories", histories(), run, 4000),
    Test("threads", st.fixed_dictionaries({"maxsize": st.sampled_from([None, 1, 2, 4]),
                                           "threads": st.lists(thread_ops, min_size=1, max_size=4)}),
         run_threads, 250),
    Test("once", st.fixed_dictionaries({"n": st.integers(2, 6), "new": st.fixed_dictionaries(
        {}, optional={"maxsize": st.integers(1, 3), "expiry": st.just(1000)})}), run_once, 100),
]
