"""C13: a restart resumes from the newest automatic checkpoint, config and state together, whatever else is in the directory."""
from lib import *
import os, shutil, dataclasses
from pathlib import Path
from hyperstate import StateManager
RULE = "random directory contents (several checkpoints, temporary copies, foreign files and directories), initial paths and overrides; non-trivial: something besides one checkpoint is there"
def cases(rng):
    while True:
        ck = sorted(set(rng.choice([0, 1, 2, 5, 9, 10, 11, 99, 100, 12345, 999999999999, rng.randint(0, 10**6)]) for _ in range(rng.choice([0, 1, 1, 2, 3, 4]))))
        rng.shuffle(ck)
        junk = rng.sample(["file.txt", "latest", "latest-", "latest-foo", "best-000000999999", "step000000999999", "000000999999", "persistent-step000000999999", "xlatest-step000009999999",
                           "latest-step000009999999.3c1d2a3e-0000-4000-8000-000000000000.tmp", "latest-step.tmp", "latest-notanumber", "latest-abcdefghijkl", "F:latest-step000009999999", "F:notes", "tmp123", "latest-stepxx0009999999", "F:latest000000000000"], rng.randint(0, 6))
        yield dict(ck=ck, junk=junk, init=rng.choice([None, "file", "dir"]), overrides=rng.choice([None, [], ["a=77"], ["a=77", "b.c=8"]]), dir=rng.choice(["existing", "existing", "existing", "missing", "none"]), twice=rng.random() < 0.3, key=rng.choice(["step", "step", "it"]), nested=rng.random() < 0.2)
def nontrivial(c): return len(c["ck"]) != 1 or c["junk"]
def put_ckpt(d, a, step, key):
    os.makedirs(d)
    with open(os.path.join(d, "config.ron"), "w") as f: f.write("(a: %d, b: (c: %d))" % (a, a + 1))
    with open(os.path.join(d, "state.ron"), "w") as f: f.write("(%s: %d, name: \"s%d\")" % (key, step, a))
def check(c):
    key = c["key"]
    B = dataclasses.make_dataclass("B", [("c", int, dataclasses.field(default=2))])
    C = dataclasses.make_dataclass("C", [("a", int, dataclasses.field(default=1)), ("b", B, dataclasses.field(default_factory=B))])
    S = dataclasses.make_dataclass("S", [(key, int), ("name", str, dataclasses.field(default="init"))])
    for x in ("ck", "init", "up"): shutil.rmtree(x, ignore_errors=True)
    root = "ck/deep/er" if c["nested"] else "ck"
    if c["dir"] == "existing":
        os.makedirs(root)
        for i, k in enumerate(c["ck"]): put_ckpt(os.path.join(root, "latest-%s%012d" % (key, k)), 100 + i, k, key)
        for j in c["junk"]:
            j = j.replace("step", key)
            if j.startswith("F:"):
                if os.path.exists(os.path.join(root, j[2:])): continue
                with open(os.path.join(root, j[2:]), "w") as f: f.write("junk")
            elif not os.path.exists(os.path.join(root, j)):
                os.makedirs(os.path.join(root, j))
                with open(os.path.join(root, j, "config.ron"), "w") as f: f.write("(a: 666)")
                with open(os.path.join(root, j, "state.ron"), "w") as f: f.write("(%s: 666)" % key)
    put_ckpt("init", 50, 5, key)
    init = {None: None, "file": "init/config.ron", "dir": "init"}[c["init"]]
    calls = []
    def initial(cfg, ctx): calls.append(cfg); return S(-1)
    before = sorted(os.listdir(root)) if os.path.isdir(root) else None
    mk = lambda: StateManager(C, S, initial, init_path=init, checkpoint_dir=None if c["dir"] == "none" else root, overrides=c["overrides"], checkpoint_key=key)
    have = c["ck"] if c["dir"] == "existing" else []
    if have:
        k = max(have); a = 100 + c["ck"].index(k); want = (a, a + 1, k, "s%d" % a)
    elif init is not None: want = (50, 51) + ((5, "s50") if c["init"] == "dir" else (-1, "init"))
    else: want = (1, 2, -1, "init")
    for o in c["overrides"] or []:
        want = ((77,) + want[1:]) if o.startswith("a=") else (want[0], 8) + want[2:]
    for _ in range(2 if c["twice"] else 1):
        del calls[:]
        kind, sm = outcome(mk)
        what = "directory %r, initial path %r, overrides %r" % (before, init, c["overrides"])
        if kind == "raise": return ("raised", "%s: %s" % (what, sm))
        kind, got = outcome(lambda: (lambda st: (sm.config.a, sm.config.b.c, getattr(st, key), st.name))(sm.state))
        if kind == "raise": return ("raised", "%s: %s" % (what, got))
        if got != want: return ("wrong", "%s: resumed with %r instead of %r" % (what, got, want))
        if (want[2] == -1) != (len(calls) == 1): return ("initial", "%s: the initial state was made %d times" % (what, len(calls)))
        if calls and (calls[0].a, calls[0].b.c) != want[:2]: return ("initial", "%s: the initial state was made with %r" % (what, calls[0]))
        if c["dir"] != "none" and not os.path.isdir(root): return ("dir", "the checkpoint directory was not made")
        if before is not None and sorted(os.listdir(root)) != before: return ("touched", "%s: opening changed the directory to %r" % (what, sorted(os.listdir(root))))
