# -*- coding: utf-8 -*-
"""
Jython 2.7 side of the harness.

Reads one JSON request per line on stdin: {"mod": .., "fn": .., "args": {..}}
and answers with one JSON line on the original stdout:
{"ok": result} or {"exc": exception class, "msg": .., "tb": ..}.

The code under test is imported from JYTHONPATH (/repo/lib).  What it prints
goes to a buffer, never to the protocol channel.
"""
import json
import os
import sys
import traceback
import warnings

_real_out = sys.stdout
_real_in = sys.stdin
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)


class Sink(object):
    """stand-in for sys.stdout / sys.stderr; one object for the whole life of
    the process, since the code under test captures sys.stdout in default
    arguments at import time.  As a pipe, it has no encoding"""
    encoding = None
    softspace = 0

    def __init__(self):
        self.parts = []

    def write(self, s):
        if isinstance(s, unicode) and self is not ERR:
            s = s.encode("ascii")
        self.parts.append(s)

    def writelines(self, seq):
        for s in seq:
            self.write(s)

    def flush(self):
        pass

    def isatty(self):
        return False

    def reset(self):
        self.parts = []

    def getvalue(self, encoding="utf-8"):
        out = []
        for p in self.parts:
            if isinstance(p, unicode):
                out.append(p)
            else:
                out.append(str(p).decode(encoding, "replace"))
        return u"".join(out)


class StepLimit(BaseException):
    pass


OUT, ERR = Sink(), Sink()
sys.stdout, sys.stderr = OUT, ERR


def run_limited(fn, args, limit):
    """run with a bound on executed source lines: a deterministic stand-in
    for 'does not terminate'"""
    count = [0]

    def local(frame, event, arg):
        count[0] += 1
        if count[0] > limit:
            raise StepLimit()
        return local

    def tracer(frame, event, arg):
        return local

    sys.settrace(tracer)
    try:
        return fn(args)
    finally:
        sys.settrace(None)


def main():
    home = os.getcwd()
    mods = {}
    while True:
        line = _real_in.readline()
        if not line:
            break
        req = json.loads(line)
        OUT.reset()
        ERR.reset()
        os.chdir(home)
        try:
            name = req["mod"]
            if name not in mods:
                mods[name] = __import__("jops." + name, fromlist=["x"])
            fn = getattr(mods[name], req["fn"])
        except BaseException:
            resp = {"harness": traceback.format_exc()}
        else:
            try:
                if req.get("limit"):
                    res = run_limited(fn, req["args"], req["limit"])
                else:
                    res = fn(req["args"])
                resp = {"ok": res}
            except StepLimit:
                resp = {"steplimit": req["limit"]}
            except:
                # bare, since Java exceptions are no BaseExceptions
                e = sys.exc_info()[1]
                try:
                    msg = unicode(e)
                except Exception:
                    msg = repr(e)
                resp = {"exc": type(e).__name__, "msg": msg,
                        "tb": traceback.format_exc()}
                if resp["exc"] in ("OutOfMemoryError", "InternalError"):
                    resp = {"harness": resp["tb"]}
        try:
            text = json.dumps(resp)
        except Exception:
            # nothing that was asked for: left to the oracle to reject
            text = json.dumps({"exc": "UnserialisableAnswer", "msg": repr(resp)[:2000],
                               "tb": traceback.format_exc()})
        _real_out.write(text + "\n")
        _real_out.flush()


main()
