"""The resolved program: functions, classes, types of all translation units."""
import functools
import re
from values import Ty
from export import BrokenAnalysis


class Prog:
    def __init__(self, tus):
        self.tus = tus
        self.types = {}
        self.tyidx = {}
        self.funcs = {}     # usr -> (tu, func)
        self.classes = {}   # usr -> (tu, class)
        self.fkey = {}      # field usr -> storage key
        self.fty = {}       # storage key -> Ty
        self.order = list(tus)
        for tn, tu in tus.items():
            idx = []
            for t in tu["types"]:
                s = t["s"]
                o = Ty._tab.get(s)
                if o is None:
                    o = Ty()
                    o.s, o.k, o.n, o.usr = s, t["k"], t.get("n", ""), t.get("usr")
                    o.w, o.sg = t.get("w"), t.get("sg")
                    o.args, o.to = None, None
                    o.name = strip(t["n"] if isinstance(t.get("n"), str) and t["n"] else s)
                    Ty._tab[s] = o
                idx.append(o)
            for t, o in zip(tu["types"], idx):
                if o.args is None:
                    o.args = [idx[a] if isinstance(a, int) and 0 <= a < len(idx) else None for a in t.get("args", [])]
                if o.to is None and t.get("to") is not None and t["to"] >= 0:
                    o.to = idx[t["to"]]
            self.tyidx[tn] = idx
        for tn, tu in tus.items():
            for u, c in tu["classes"].items():
                if u not in self.classes:
                    self.classes[u] = (tn, c)
                    for f in c["fields"]:
                        k = "%s::%s" % (strip(c["n"]).replace("rtbot::", "", 1), f["n"])
                        self.fkey[f["usr"]] = k
                        self.fty[k] = self.tyidx[tn][f["t"]]
        for tn, tu in tus.items():
            for u, f in tu["funcs"].items():
                self.funcs.setdefault(u, []).append((tn, f))
        self._bases = {}
        self._shared = None
        self._vt = {}

    def ty(self, tn, i):
        return self.tyidx[tn][i] if i is not None and i >= 0 else None

    def tyof(self, pred):
        for s, t in Ty._tab.items():
            if pred(t):
                return t
        return None

    def ref(self, tn, usr):
        r = self.tus[tn]["fnrefs"].get(usr)
        if r is None:
            for t in self.order:
                r = self.tus[t]["fnrefs"].get(usr)
                if r is not None:
                    return r
        return r

    def func(self, tn, usr):
        l = self.funcs.get(usr)
        if not l:
            return None
        for t, f in l:
            if t == tn:
                return t, f
        for t, f in l:
            if f.get("body") is not None:
                return t, f
        return l[0]

    def gvar(self, tn, u):
        """(unit, description) of a static object, from the unit that defines it"""
        best = (None, None)
        for t in [tn] + self.order:
            g = self.tus[t].get("gvars", {}).get(u)
            if g is not None and (best[1] is None or g.get("def") and not best[1].get("def") or
                                  g.get("init") is not None and best[1].get("init") is None):
                best = (t, g)
        return best

    def shared(self):
        """static objects that change while the program runs"""
        if self._shared is None:
            import effects
            self._shared = frozenset(effects.Effects(self).changing())
        return self._shared

    def cls(self, usr):
        c = self.classes.get(usr)
        return c[1] if c else None

    def hier(self, usr):
        """class followed by its bases, most derived first"""
        if usr in self._bases:
            return self._bases[usr]
        r = [usr]
        c = self.cls(usr)
        if c:
            for b in c["bases"]:
                for x in self.hier(b):
                    if x not in r:
                        r.append(x)
        self._bases[usr] = r
        return r

    def class_named(self, name):
        """usr of the class (template instance) with this simple name in namespace rtbot"""
        r = [u for u, (t, c) in self.classes.items() if strip(c["n"]) == "rtbot::" + name]
        return sorted(r)[0] if r else None

    def simple(self, usr):
        c = self.cls(usr)
        return strip(c["n"]).replace("rtbot::", "", 1) if c else str(usr).split("@")[-1]

    def derived_from(self, usr):
        return [u for u in self.classes if usr in self.hier(u)]

    def overrider(self, cls, fusr):
        """final overrider of virtual function fusr for dynamic class cls"""
        key = (cls, fusr)
        if key in self._vt:
            return self._vt[key]
        res = None
        for c in self.hier(cls):
            cc = self.classes.get(c)
            if not cc:
                continue
            for m in cc[1].get("methods", []):
                mu = m if isinstance(m, str) else m.get("usr")
                if mu == fusr or fusr in self.allover(cc[0], mu):
                    res = mu
                    break
            if res:
                break
        self._vt[key] = res or fusr
        return self._vt[key]

    def allover(self, tn, u, seen=None):
        r = self.ref(tn, u)
        s = set()
        if r:
            for o in r.get("over", []):
                s.add(o)
                s |= self.allover(tn, o)
        return s

    def methods_named(self, cls, name):
        """usrs of the methods called name visible in cls (most derived first)"""
        out = []
        for c in self.hier(cls):
            cc = self.classes.get(c)
            if not cc:
                continue
            for m in cc[1].get("methods", []):
                mu = m if isinstance(m, str) else m.get("usr")
                r = self.ref(cc[0], mu)
                n = r["n"] if r else None
                if n == name:
                    out.append(mu)
        return out


@functools.lru_cache(maxsize=None)
def strip(s):
    """drops template arguments"""
    r, d = [], 0
    for ch in s:
        if ch == "<":
            d += 1
        elif ch == ">":
            d -= 1
        elif d == 0:
            r.append(ch)
    return "".join(r)
