# -*- coding: utf-8 -*-
"""the bundled object cache, on a clock of its own"""
import sys
import threading
import time as real_time
import types

import __main__
from base import s

# the package gets a clock that stands still, however it imports it
clock = types.ModuleType("time")
for _n in dir(real_time):
    try:
        if not _n.startswith("__"):
            setattr(clock, _n, getattr(real_time, _n))
    except AttributeError:
        pass
NOW = [1000.0]
clock.time = clock.clock = lambda: NOW[0]
sys.modules["time"] = clock
try:
    from daeso.thirdparty.GenericCache import GenericCache, CacheNode
    from daeso.thirdparty.GenericCache.decorators import cached
finally:
    sys.modules["time"] = real_time


class Boom(Exception):
    pass


def _state(c):
    return [len(c), sorted([str(k) for k in c.keys()])]


def _run(args):
    NOW[0] = 1000.0
    c = GenericCache(**dict((str(k), v) for k, v in args["new"].items()))
    ran = []

    def make(value, key=None):
        def generate(*a, **kw):
            ran.append([value, list(a), sorted(kw.items())])
            if value == "boom":
                raise Boom()
            return value
        return generate

    def add(x, y=0):
        ran.append(["add", x, y])
        return [x, y]

    def first(x, y=0):
        ran.append(["first", x, y])
        return [x, y]

    def step(op):
        name, a = op[0], op[1:]
        if name == "set":
            c[a[0]] = a[1]
        elif name == "insert":
            c.insert(*a)
        elif name == "node":
            c.insert(CacheNode(*a))
        elif name == "get":
            return c[a[0]]
        elif name == "fetch":
            return c.fetch(a[0], **dict((str(k), v) for k, v in a[1].items()))
        elif name == "remove":
            c.remove(a[0])
        elif name == "del":
            del c[a[0]]
        elif name == "in":
            return [bool(a[0] in c), bool(c.has_key(a[0]))]
        elif name == "clear":
            c.clear()
        elif name == "collect":
            c.collect()
        elif name == "reconfigure":
            c.reconfigure(**dict((str(k), v) for k, v in a[0].items()))
        elif name == "generate":
            return c.fetch_with_generator(a[0], make(a[1]), *a[2], **dict(
                (str(k), v) for k, v in a[3].items()))
        elif name == "add":
            return adds(*a[0], **dict((str(k), v) for k, v in a[1].items()))
        elif name == "first":
            return firsts(*a[0], **dict((str(k), v) for k, v in a[1].items()))
        elif name == "wait":
            NOW[0] += a[0]

    adds = cached(c)(add)
    firsts = cached(c, lambda f, *a, **kw: "first %r" % (a[0],))(first)
    out = []
    for op in s(args["ops"]):
        del ran[:]
        try:
            r = ["ok", step(op)]
        except Exception as e:
            r = ["exc", type(e).__name__]
        out.append([r, ran[:], _state(c)])
    return out


def history(args):
    try:
        return __main__.run_limited(_run, args, 300000)
    except __main__.StepLimit:
        return "hang"


def threads(args):
    """the same cache from several threads"""
    NOW[0] = 1000.0
    size = args["maxsize"]
    c = GenericCache(maxsize=size)
    errors, wrong, made = [], [], {}
    start = threading.Event()

    def work(n, ops):
        start.wait()
        try:
            for k, op in enumerate(ops):
                key = "k%d" % op[1]
                if op[0] == "set":
                    c[key] = [key, n, k]
                elif op[0] == "get":
                    v = c[key]
                    if v is not None and v[0] != key:
                        wrong.append([key, v])
                elif op[0] == "del":
                    del c[key]
                else:
                    def generate():
                        # only one thread may be in here
                        busy = made.setdefault("busy", [])
                        busy.append(n)
                        real_time.sleep(0.0005)
                        if len(busy) > 1:
                            wrong.append("two generators at a time")
                        busy.remove(n)
                        return [key, n, k]
                    v = c.fetch_with_generator(key, generate)
                    if v[0] != key:
                        wrong.append([key, v])
                if size and len(c) > size:
                    wrong.append("%d objects" % len(c))
        except Exception as e:
            errors.append("%s: %s" % (type(e).__name__, e))

    ts = [threading.Thread(target=work, args=(n, ops)) for n, ops in enumerate(s(args["threads"]))]
    for t in ts:
        t.setDaemon(True)
        t.start()
    start.set()
    end = real_time.time() + 60
    for t in ts:
        t.join(max(0.1, end - real_time.time()))
    hung = any([t.isAlive() for t in ts])
    out = {"errors": errors, "wrong": wrong, "hung": hung}
    if not hung and not errors and size:
        # the order of use is still in step with what is stored
        for k in range(size):
            c["new%d" % k] = k
        out["after"] = sorted(c.keys())
    return out


def once(args):
    """threads that ask for the same missing object"""
    c = GenericCache(**dict((str(k), v) for k, v in args["new"].items()))
    ran = []
    start = threading.Event()
    got = []

    def generate():
        ran.append(1)
        real_time.sleep(0.002)
        return "value%d" % len(ran)

    def work():
        start.wait()
        got.append(c.fetch_with_generator("key", generate))

    ts = [threading.Thread(target=work) for _ in range(args["n"])]
    for t in ts:
        t.setDaemon(True)
        t.start()
    start.set()
    for t in ts:
        t.join(60)
    return [len(ran), got]


class Key(object):
    """a key whose text takes a while"""
    hook = staticmethod(lambda: None)

    def __init__(self, name):
        self.name = name

    def __str__(self):
        Key.hook()
        return self.name


def _op(c, op):
    name, a = op[0], op[1:]
    try:
        if name == "set":
            c[Key(a[0])] = a[1]
        elif name == "get":
            return ["ok", c[Key(a[0])]]
        elif name == "fail":
            return ["ok", c.fetch(Key(a[0]), fail=True)]
        elif name == "del":
            del c[Key(a[0])]
        elif name == "gen":
            return ["ok", c.fetch_with_generator(Key(a[0]), lambda: a[1])]
        elif name == "clear":
            c.clear()
        elif name == "collect":
            c.collect()
        elif name == "reconfigure":
            c.reconfigure(a[0], a[1])
        elif name == "size":
            return ["ok", len(c)]
        elif name == "wait":
            NOW[0] += a[0]
        return ["ok", None]
    except Exception as e:
        return ["exc", type(e).__name__]


def _limited(c, op):
    try:
        return __main__.run_limited(lambda a: _op(*a), (c, op), 20000)
    except __main__.StepLimit:
        return ["hang", None]


def _fill(c):
    """what can be seen of the cache when it is used on"""
    out = [_state(c)]
    for n in range(4):
        c["new%d" % n] = n
        out.append(_state(c))
    return out


def _outcome(c, results):
    try:
        return [results, __main__.run_limited(_fill, c, 50000)]
    except __main__.StepLimit:
        return [results, "hang"]
    except Exception as e:
        return [results, type(e).__name__]


def interleave(args):
    """one operation, in the middle of which another thread does others"""
    new, before, first, others, at = s([args[k] for k in ("new", "before", "first", "others", "at")])

    def start():
        Key.hook = staticmethod(lambda: None)
        NOW[0] = 1000.0
        c = GenericCache(**new)
        for o in before:
            _op(c, o)
        return c

    serial = []
    for n in range(len(others) + 1):
        c = start()
        ro = [_limited(c, o) for o in others[:n]]
        ra = _limited(c, first)
        ro += [_limited(c, o) for o in others[n:]]
        serial.append(_outcome(c, [ra, ro]))

    c = start()
    ro, done = [], threading.Event()

    def rest():
        try:
            for o in others:
                ro.append(_limited(c, o))
        finally:
            done.set()

    second = threading.Thread(target=rest)
    second.setDaemon(True)
    me = threading.currentThread()
    count = [0]

    def hook():
        if threading.currentThread() is me:
            count[0] += 1
            if count[0] == at + 1:
                second.start()
                done.wait(0.02)

    Key.hook = staticmethod(hook)
    ra = _limited(c, first)
    Key.hook = staticmethod(lambda: None)
    switched = count[0] > at
    if not switched:
        second.start()
    second.join(30)
    if second.isAlive():
        return [switched, "hang", serial]
    return [switched, _outcome(c, [ra, ro]), serial]
