"""Parses /repo's current sources with the libTooling exporter and returns the resolved program."""
import hashlib, json, os, pickle, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("RTBOT_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
EXP_SRC = os.path.join(VERIF, "exporter", "rtexport.cpp")


class BrokenAnalysis(Exception):
    pass


def build_exporter():
    os.makedirs(BUILD, exist_ok=True)
    h = hashlib.sha256(open(EXP_SRC, "rb").read()).hexdigest()[:16]
    out = os.path.join(BUILD, "rtexport-" + h)
    if os.path.exists(out):
        return out
    flags = subprocess.check_output(["llvm-config-18", "--cxxflags"], text=True).split()
    tmp = out + ".%d" % os.getpid()
    cmd = ["clang++", "-O1", "-fno-rtti"] + flags + ["-w", EXP_SRC, "-o", tmp,
           "/usr/lib/llvm-18/lib/libclang-cpp.so.18.1", "-L/usr/lib/llvm-18/lib", "-lLLVM-18"]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise BrokenAnalysis("cannot build the exporter: " + r.stderr[-2000:])
    os.replace(tmp, out)
    return out


def includes():
    inc = ["core", "std", "finance", "api"]
    a = ["-std=c++17", "-w"]
    for i in inc:
        a.append("-I%s/libs/%s/include" % (REPO, i))
    a.append("-I%s/libs/core/include/rtbot" % REPO)
    a.append("-I" + os.path.join(VERIF, "stubs"))
    a += ["-resource-dir", "/usr/lib/llvm-18/lib/clang/18"]
    return a


def sources():
    hs, cs = [], []
    for d, _, fs in os.walk(os.path.join(REPO, "libs")):
        rel = os.path.relpath(d, REPO).split(os.sep)
        if "test" in rel or "tests" in rel or "node_modules" in rel or "wrappers" in rel or "wasm" in rel:
            continue
        for f in fs:
            p = os.path.join(d, f)
            if f.endswith((".h", ".hpp")):
                hs.append(p)
            elif f.endswith((".cpp", ".cc")):
                cs.append(p)
    return sorted(hs), sorted(cs)


def run_export(exe, root, src, out):
    cmd = [exe, root.rstrip("/") + "/", out, src, "--"] + includes()
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode or not os.path.exists(out):
        raise BrokenAnalysis("the front end rejects %s: %s" % (src, r.stderr[-3000:]))
    with open(out) as f:
        return json.load(f)


def export_all():
    """-> dict tu-name -> exported JSON"""
    hs, cs = sources()
    if not hs:
        raise BrokenAnalysis("no sources under %s/libs" % REPO)
    h = hashlib.sha256()
    for p in hs + cs + [EXP_SRC, os.path.abspath(__file__)]:
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(hashlib.sha256(f.read()).digest())
    key = h.hexdigest()[:24]
    cdir = os.path.join(BUILD, "cache")
    os.makedirs(cdir, exist_ok=True)
    cfile = os.path.join(cdir, key + ".pickle")
    if os.path.exists(cfile):
        try:
            with open(cfile, "rb") as f:
                return pickle.load(f)
        except Exception:
            pass
    exe = build_exporter()
    tmp = tempfile.mkdtemp(prefix="rtx", dir=BUILD)
    try:
        # headers: one umbrella unit that instantiates every class template <uint64_t, double>
        def hdr_inc(p):
            return '#include "%s"\n' % p
        head = "#include <cstdint>\n" + "".join(hdr_inc(p) for p in hs if os.path.basename(p) != "bindings.h")
        u0 = os.path.join(tmp, "u0.cpp")
        open(u0, "w").write(head)
        jobs = {}
        with ThreadPoolExecutor(8) as ex:
            for i, c in enumerate(cs):
                if os.path.getsize(c) < 8:
                    continue
                jobs[os.path.relpath(c, REPO)] = ex.submit(run_export, exe, REPO, c,
                                                           os.path.join(tmp, "s%d.json" % i))
            t0 = run_export(exe, REPO, u0, os.path.join(tmp, "u0.json"))
            inst = ""
            for n, t in sorted(t0["templates"].items()):
                if t["nparams"] == 2 and t["file"] and "::" in n and n.count("::") == 1:
                    inst += "template struct %s<unsigned long, double>;\n" % n
            u1 = os.path.join(tmp, "u1.cpp")
            open(u1, "w").write(head + inst)
            res = {"headers": run_export(exe, REPO, u1, os.path.join(tmp, "u1.json"))}
            for k, j in jobs.items():
                res[k] = j.result()
        with open(cfile + ".%d" % os.getpid(), "wb") as f:
            pickle.dump(res, f, protocol=4)
        os.replace(cfile + ".%d" % os.getpid(), cfile)
        # keep the cache small
        fs = sorted((os.path.join(cdir, x) for x in os.listdir(cdir)), key=os.path.getmtime)
        for x in fs[:-6]:
            os.unlink(x)
        return res
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == "__main__":
    r = export_all()
    for k, v in r.items():
        print(k, len(v["funcs"]), "functions", len(v["classes"]), "classes")
