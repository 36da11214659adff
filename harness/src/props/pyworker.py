import sys, json, os

class Stop(Exception):
    pass

class Var:
    def __init__(s, rec, n): s.__dict__.update(r=rec, n=n)
    def prepend(s, v): s.r.append(["prepend", s.n, str(v)])
    def append(s, v): s.r.append(["append", s.n, str(v)])
    def set(s, v): s.r.append(["set", s.n, str(v)])
    def unset(s): s.r.append(["unset", s.n])

class Env:
    def __init__(s, rec): s.__dict__.update(r=rec)
    def setenv(s, k, v): s.r.append(["set", str(k), str(v)])
    def unsetenv(s, k): s.r.append(["unset", str(k)])
    def prepend_path(s, k, v): s.r.append(["prepend", str(k), str(v)])
    def append_path(s, k, v): s.r.append(["append", str(k), str(v)])
    def setenv_if_empty(s, k, v): s.r.append(["default", str(k), str(v)])
    def __setattr__(s, k, v): s.r.append(["set", k, str(v)])
    def __setitem__(s, k, v): s.r.append(["set", k, str(v)])
    def __getattr__(s, n): return Var(s.r, n)
    def __getitem__(s, n): return Var(s.r, n)

class Ver(str):
    def part(s, i):
        import re
        return re.split(r"[.\-+]", s)[i]
    major = property(lambda s: s.part(0))
    minor = property(lambda s: s.part(1))
    patch = property(lambda s: s.part(2))

class This:
    def __init__(s, g): s.g = g
    @property
    def name(s): return s.g["name"]
    @property
    def version(s):
        v = s.g["version"]
        return Ver(v) if type(v) is str else v

class System:
    platform = "linux"

FNS = ["commands", "pre_commands", "post_commands", "pre_test_commands"]
def enc(v):
    # values as the package sees them
    if v is None: return {"t": "none"}
    if isinstance(v, bool): return {"t": "bool", "v": v, "s": str(v)}
    if isinstance(v, int): return {"t": "int", "s": str(v)}
    if isinstance(v, (str, float)): return {"t": "str" if isinstance(v, str) else "float", "s": str(v)}
    if isinstance(v, (list, tuple)): return {"t": "list", "v": [enc(x) for x in v]}
    if isinstance(v, dict): return {"t": "dict", "v": [[enc(k), enc(x)] for k, x in v.items()]}
    return {"t": "other"}

def run(src):
    rec = []
    g = {"os": os, "system": System, "env": Env(rec)}
    g["this"] = This(g)
    def fn(kind):
        def f(*a):
            rec.append([kind] + [str(x) for x in a])
        return f
    two = lambda kind: (lambda k, v: rec.append([kind, str(k), str(v)]))
    one = lambda kind: (lambda k: rec.append([kind, str(k)]))
    g.update(alias=two("alias"), setenv=two("set"), prependenv=two("prepend"), appendenv=two("append"),
             command=one("command"), source=one("source"), info=one("info"), error=one("error"),
             resetenv=one("reset"), unsetenv=one("unset"),
             stop=lambda *a: rec.append(["stop"] + [str(x) for x in a]))
    base = set(g)
    exec(compile(src, "package.py", "exec"), g)
    out = {"fields": {}, "actions": {}}
    for k in list(g):
        if k in base or k.startswith("__"): continue
        if callable(g[k]):
            if k in FNS:
                del rec[:]
                g[k]()
                out["actions"][k] = [list(x) for x in rec]
        else:
            out["fields"][k] = enc(g[k])
    return out

for line in sys.stdin:
    src = json.loads(line)
    try:
        r = run(src)
    except RecursionError:
        r = {"error": "recursion"}
    except BaseException as e:
        r = {"error": type(e).__name__ + ": " + str(e)}
    sys.stdout.write(json.dumps(r) + "\n")
    sys.stdout.flush()
