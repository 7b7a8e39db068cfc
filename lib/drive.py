"""Building abstract operators and analysing their methods."""
from values import *
from engine import Engine, State, Frame, BPtr
from prog import Prog, strip
from export import export_all, BrokenAnalysis

_prog = None


def prog():
    global _prog
    if _prog is None:
        _prog = Prog(export_all())
    return _prog


class An:
    def __init__(self):
        self.p = prog()
        self.e = Engine(self.p)

    def tu(self, cls=None):
        return self.p.classes[cls][0] if cls else self.p.order[0]

    def state(self, cls=None):
        s = State()
        tn = self.tu(cls)
        s.frames.append(Frame(tn, "<client>", None, {}, "<client>"))
        return s

    def cls(self, name):
        u = self.p.class_named(name)
        if u is None:
            raise BrokenAnalysis("class rtbot::%s not found" % name)
        return u

    def ctors(self, cls):
        tn, c = self.p.classes[cls]
        r = []
        for m in c["methods"]:
            f = self.p.ref(tn, m)
            if f and f.get("ctor") and not f.get("copy") and not f.get("move"):
                r.append((m, f, [self.p.ty(tn, t) for t in f["ps"]]))
        return r

    def construct(self, s, cls, usr, args, n=None):
        """-> [(state, LV or None when it throws)]"""
        l = self.e.alloc(s, Struct(cls, {}), "o")
        out = []
        for s2, _ in self.e.runctor(s, l, cls, usr, args, n or {"l": 0}):
            out.append((s2, None if s2.exc is not None else l))
        return out

    def method(self, s, obj, name, args, nargs=None, pred=None, qual=False):
        """calls method name on obj -> [(state, value)]"""
        cls = self.e.rv(s, obj).cls
        us = self.p.methods_named(cls, name)
        for u in us:
            r = self.p.ref(self.tu(cls), u)
            if pred is not None and not pred(r, [self.p.ty(self.tu(cls), t) for t in r["ps"]]):
                continue
            if pred is None and len(r["ps"]) < len(args):
                continue
            return self.e.call(s, u, obj, list(args), {"k": "mcall", "l": 0})
        raise BrokenAnalysis("no method %s in %s" % (name, cls))

    def msg(self, t, v):
        c = self.cls("Message")
        return Struct(c, {"Message::time": t, "Message::value": v})

    def fld(self, s, obj, name):
        v = self.e.rv(s, obj)
        for k, x in v.f.items():
            if k.split("::")[-1] == name:
                return x
        raise BrokenAnalysis("field %s" % name)

    def fkey(self, cls, name):
        for c in self.p.hier(cls):
            for f in self.p.cls(c)["fields"]:
                if f["n"] == name:
                    return self.p.fkey[f["usr"]]
        return None
