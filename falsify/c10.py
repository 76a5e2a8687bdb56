"""C10: schedules are exact at their points, constant outside them, and follow the named interpolation in between."""
from lib import *
import math, dataclasses, hyperstate
from hyperstate import StateManager
RULE = "random schedule texts (2 to 6 points, every interpolation, many number formats) evaluated at points, between, before and after; non-trivial: at least three points or a non-linear interpolation"
XS = [0.0, -5.0, 1.0, 0.5, 100.0, 150e6, 1e-3, 7.25, -0.125, 3.0]
YS = [0.0, 1.0, -1.0, 0.3, 0.15, 1e-4, 100.0, -2.5, 5.0, 1e6]
def num(rng, x):
    forms = [repr(x)]
    if x == int(x): forms.append(str(int(x)))
    if abs(x) >= 1e3 or (x and abs(x) < 1e-2): forms.append("%e" % x)
    forms = [f for f in forms if float(f) == x]
    return rng.choice(forms)
def cases(rng):
    while True:
        n = rng.choice([2, 2, 3, 3, 4, 6])
        xs = sorted(set(rng.choice(XS) if rng.random() < 0.4 else round(rng.uniform(-20, 200), rng.choice([0, 1, 3])) for _ in range(n)))
        if len(xs) < 2: continue
        ys = [rng.choice(YS) if rng.random() < 0.5 else round(rng.uniform(-5, 5), 2) for _ in xs]
        joins = [rng.choice(["lin", "cos", "step", None]) for _ in xs[1:]]
        if rng.random() < 0.5: joins = [j or "lin" for j in joins]
        if joins and joins[0] is None: pass
        text = "step: %s@%s" % (num(rng, ys[0]), num(rng, xs[0]))
        for j, y, x in zip(joins, ys[1:], xs[1:]): text += (" " + j if j else "") + " %s@%s" % (num(rng, y), num(rng, x))
        at = []
        for a, b in zip(xs, xs[1:]):
            at += [a, a + (b - a) * rng.random(), (a + b) / 2]
        at += [xs[-1], xs[0] - 1, xs[0] - 1e9, xs[-1] + 0.001, xs[-1] + 1e9]
        yield dict(text=text, xs=xs, ys=ys, joins=joins, at=at, api=rng.random() < 0.2)
def nontrivial(c): return len(c["xs"]) > 2 or any(j in ("cos", "step") for j in c["joins"])
def ref(c, x):
    xs, ys = c["xs"], c["ys"]
    if x <= xs[0]: return ys[0]
    if x >= xs[-1]: return ys[-1]
    cur = "lin"
    for i in range(len(xs) - 1):
        cur = c["joins"][i] or cur
        if xs[i] <= x < xs[i + 1]:
            r = (x - xs[i]) / (xs[i + 1] - xs[i])
            w = {"lin": 1 - r, "cos": (math.cos(r * math.pi) + 1) / 2, "step": 1.0}[cur]
            return w * ys[i] + (1 - w) * ys[i + 1]
def close(a, b, scale): return abs(a - b) <= 1e-9 * max(scale, 1e-300)
def check(c):
    from hyperstate.schedule import _parse_schedule
    scale = max(map(abs, c["ys"]))
    kind, f = outcome(lambda: _parse_schedule(c["text"]))
    if kind == "raise": return ("parse", "%s raised %s" % (c["text"], f))
    if f.xname != "step": return ("name", "%s names the variable %r" % (c["text"], f.xname))
    for x in c["at"]:
        kind, v = outcome(lambda: f.get_value(x))
        if kind == "raise": return ("raised", "%s at %r raised %s" % (c["text"], x, v))
        w = ref(c, x)
        if not close(v, w, scale): return ("value", "%s at %r is %r instead of %r" % (c["text"], x, v, w))
        for a, b, p, q in zip(c["xs"], c["xs"][1:], c["ys"], c["ys"][1:]):
            if a <= x <= b and not (min(p, q) - 1e-9 * scale <= v <= max(p, q) + 1e-9 * scale): return ("range", "%s at %r is %r, outside its neighbours %r and %r" % (c["text"], x, v, p, q))
    if c["api"]:
        C = dataclasses.make_dataclass("C", [("lr", float)]); S = dataclasses.make_dataclass("S", [("step", float)])
        with open("f.ron", "w") as fh: fh.write('(lr: "%s")' % c["text"])
        sm = StateManager(C, S, lambda a, b: S(0.0), init_path="f.ron")
        for x in c["at"]:
            sm.state.step = x; sm.step()
            if not close(sm.config.lr, ref(c, x), scale): return ("step", "%s after a step to %r is %r instead of %r" % (c["text"], x, sm.config.lr, ref(c, x)))
