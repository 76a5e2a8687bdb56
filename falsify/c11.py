"""C11: every scheduled field follows its schedule through steps, checkpoints and restores, and stays scheduled when saved."""
from lib import *
import dataclasses, os, shutil, hyperstate, pyron
from hyperstate import StateManager, Versioned
import c10
RULE = "random config classes with schedules in fields at any struct depth (and in struct fields with defaults), random histories of steps, checkpoints and restores; non-trivial: a nested schedule or a restore"
NAMES = ["a", "b", "lr", "steps", "opt", "m"]
def gconf(rng, g, depth=0):
    fs = []
    for f in rng.sample(NAMES, rng.randint(1, 4)):
        k = rng.random()
        if k < 0.45 or depth > 2 and k < 0.8: t = rng.choice(["float", "int", "float", "int", "str"])
        elif k < 0.85: t = gconf(rng, g, depth + 1)
        else: t = rng.choice(["str", "bool", ("list", "int"), ("opt", "str")])
        fs.append((f, t, (g.doc(t),) if rng.random() < 0.4 else None))
    return ("cls", g.uid("C"), tuple(fs), 2 if depth == 0 and rng.random() < 0.3 else None)
def cases(rng):
    while True:
        g = Gen(rng, unions=False)
        s = gconf(rng, g)
        for _ in range(3):
            sch = {}
            def doc(s, path=()):
                out = {}
                if s[3] is not None: out["version"] = s[3]
                for f in s[2]:
                    t = f[1]
                    if t in ("float", "int") and rng.random() < 0.6:
                        c = next(c10.cases(rng)); c = dict(c, api=None, at=None)
                        c["var"] = rng.choice(["step", "step", "epoch"])
                        c["text"] = c["var"] + c["text"][4:]
                        sch[path + (f[0],)] = dict(text=c["text"], xs=c["xs"], ys=c["ys"], joins=c["joins"], var=c["var"], type=t)
                        out[f[0]] = c["text"]
                    elif not isinstance(t, str) and t[0] == "cls": out[f[0]] = doc(t, path + (f[0],))
                    else: out[f[0]] = g.doc(t)
                return out
            d = doc(s)
            ops = []
            for _ in range(rng.randint(1, 6)): ops.append(rng.choice([("step", rng.choice([0, 1, 5, 20]) + rng.random() * 10, rng.randint(0, 30)), ("step", round(rng.random() * 150), rng.randint(0, 30)), ("restore",), ("copy",), ("export",)]))
            yield dict(spec=s, doc=d, schedules=sch, ops=ops, ckpt=rng.random() < 0.7)
def nontrivial(c): return any(len(p) > 1 for p in c["schedules"]) or ("restore",) in c["ops"]
def get(o, p):
    for k in p: o = getattr(o, k) if not isinstance(o, dict) else o[k]
    return o
def check(c):
    s = c["spec"]; w = world(s); cls = w.ty(s)
    S = dataclasses.make_dataclass("S", [("step", int, dataclasses.field(default=0)), ("epoch", float, dataclasses.field(default=0.0))])
    for x in ("ck", "cp", "ex"): shutil.rmtree(x, ignore_errors=True)
    with open("f.ron", "w") as f: f.write(ron(c["doc"]))
    def plain(d, s):
        """The document with each schedule replaced by a placeholder number."""
        return {k: (plain(v, [f for f in s[2] if f[0] == k][0][1]) if isinstance(v, dict) and k != "version" and [f for f in s[2] if f[0] == k][0][1][0] == "cls" else v) for k, v in d.items()}
    d0 = c["doc"]
    for p in c["schedules"]: d0 = put(d0, p, 0)
    base = build(w, s, d0)
    ck = "ck" if c["ckpt"] else None
    mk = lambda path="f.ron", ck=ck: StateManager(cls, S, lambda a, b: S(), init_path=path, checkpoint_dir=ck)
    what = ron(c["doc"]) + " after "
    done = []
    def verify(sm, state):
        for p, q in c["schedules"].items():
            r = c10.ref(q, getattr(state, q["var"]))
            v = get(sm.config, p)
            scale = max(map(abs, q["ys"]))
            if q["type"] == "int":
                if type(v) is not int or not (v == int(r) or c10.close(float(v), r, max(scale, 1.0)) or c10.close(float(v), int(r), scale)): return ("follow", "%s%r: %s is %r, its schedule says %r" % (what, done, p, v, r))
            elif type(v) is not float or not c10.close(v, r, scale): return ("follow", "%s%r: %s is %r, its schedule says %r" % (what, done, p, v, r))
        # everything else is as loaded
        cur = sm.config
        def walk(a, b, s, p):
            for f in s[2]:
                x, y = getattr(a, f[0]), getattr(b, f[0])
                if p + (f[0],) in c["schedules"]: continue
                if not isinstance(f[1], str) and f[1][0] == "cls":
                    r = walk(x, y, f[1], p + (f[0],))
                    if r: return r
                elif not same(x, y): return ("other", "%s%r: field %s changed from %r to %r" % (what, done, p + (f[0],), x, y))
        return walk(base, cur, s, ())
    def saved(dir):
        o = pyron.load(os.path.join(dir, "config.ron"))
        for p, q in c["schedules"].items():
            if get(o, p) != q["text"]: return ("saved", "%s%r: %s is saved as %r, not as its schedule %r" % (what, done, p, get(o, p), q["text"]))
    kind, sm = outcome(mk)
    if kind == "raise": return ("raised", "%s raised %s" % (what, sm))
    kind, st = outcome(lambda: (sm.config, sm.state)[1])
    if kind == "raise": return ("raised", "%s raised %s" % (what, st))
    r = verify(sm, sm.state)
    if r: return r
    keymax = 0
    for op in c["ops"]:
        done.append(op)
        if op[0] == "step":
            keymax += int(op[1]) + 1
            sm.state.step = keymax; sm.state.epoch = float(op[2])
            kind, e = outcome(sm.step)
            if kind == "raise": return ("raised", "%s%r raised %s" % (what, done, e))
            if ck:
                r = saved(os.path.join("ck", sorted(os.listdir("ck"))[-1]))
                if r: return r
        elif op[0] == "restore":
            if not ck or keymax == 0: continue
            sm = mk()
        elif op[0] == "copy":
            shutil.rmtree("cp", ignore_errors=True)
            kind, e = outcome(lambda: sm.checkpoint("cp"))
            if kind == "raise": return ("raised", "%s%r raised %s" % (what, done, e))
            r = saved("cp")
            if r: return r
            shutil.rmtree("ex", ignore_errors=True); shutil.copytree("cp", "ex")
            if keymax == 0: ck = None
            sm = mk("ex", None) if not ck else sm
        elif op[0] == "export":
            from hyperstate.schema.schema_checker import _upgrade_config
            with open("g.ron", "w") as f: f.write(ron(c["doc"]))
            if s[3] is None: continue
            import contextlib, io
            with contextlib.redirect_stdout(io.StringIO()): kind, e = outcome(lambda: _upgrade_config("g.ron", cls, False, False))
            if kind == "raise": return ("raised", "upgrading %s raised %s" % (ron(c["doc"]), e))
            o = pyron.load("g.ron")
            for p, q in c["schedules"].items():
                if get(o, p) != q["text"]: return ("exported", "%s: %s is written as %r by upgrade-config" % (ron(c["doc"]), p, get(o, p)))
        kind, st = outcome(lambda: sm.state)
        if kind == "raise": return ("raised", "%s%r raised %s" % (what, done, st))
        r = verify(sm, st)
        if r: return r
