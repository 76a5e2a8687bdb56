"""C16: the upgrade commands rewrite a file only to an equivalent, current one."""
from lib import *
from pairs import *
import os, shutil, dataclasses, hyperstate, pyron
from click.testing import CliRunner
from hyperstate.schema import schema_checker
from hyperstate.schema.schema_checker import SchemaChecker, _dump_schema
from hyperstate.schema.schema_change import Severity
from hyperstate.schema.types import materialize_type, load_schema
from hyperstate.schema.rewrite_rule import RenameField, AddDefault, DeleteField
from hyperstate.hyperstate import _typed_load
import c05, c10
RULE = "the command line on schema files of the same, a compatible and an incompatible class, and on config files (older versions, schedules, invalid ones) with and without defaults and dry-run; non-trivial: every case"
def cases(rng):
    while True:
        g = Gen(rng, defaults=0.7, maxdepth=3, maxfields=3)
        s = g.cls(version=3)
        for _ in range(3):
            if rng.random() < 0.4:
                n = s if rng.random() < 0.3 else mutate(rng, g, s, 1)
                yield dict(mode="schema", old=s, new=("cls", n[1], n[2], rng.choice([3, 4])), cmd=rng.choice(["upgrade-schema", "upgrade-schema", "check-schema", "dump-schema"]))
            else:
                d = g.doc(s, full=False, drop=0.4)
                sch = {}
                for f in s[2]:
                    if f[1] in ("int", "float") and rng.random() < 0.6:
                        sch[(f[0],)] = next(c10.cases(rng))["text"]
                    elif not isinstance(f[1], str) and f[1][0] == "cls" and f[0] in d:
                        for h in f[1][2]:
                            if h[1] in ("int", "float") and rng.random() < 0.5: sch[(f[0], h[0])] = next(c10.cases(rng))["text"]
                for p, t in sch.items(): d = put(d, p, t)
                rules = []; old = dict(d); old["version"] = 0
                for f in s[2]:
                    if rng.random() < 0.3:
                        rules.append((rng.randint(0, 2), "rename", (f[0] + "_old",), (f[0],)))
                        if f[0] in old: old[f[0] + "_old"] = old.pop(f[0])
                bad = rng.random() < 0.15
                if bad: old[rng.choice(["zz", "unknown"])] = 1
                yield dict(mode="config", spec=s, doc=dict(d, version=3), old=old, rules=rules, schedules=sch, bad=bad, dry=rng.random() < 0.3, full=rng.random() < 0.5, files=rng.choice([1, 1, 2]))
def text_of(p):
    with open(p) as f: return f.read()
def cli(cls, *args):
    schema_checker.CONFIG_CLZ = cls
    r = CliRunner().invoke(schema_checker.cli, list(args))
    return r
def check(c):
    if c["mode"] == "schema":
        wo, wn = World(), World()
        old, new = wo.ty(c["old"]), wn.ty(c["new"])
        _dump_schema("s.ron", old)
        before = text_of("s.ron")
        _dump_schema("want.ron", new)
        cur = text_of("want.ron")
        ok = SchemaChecker(materialize_type(old), new).severity() == Severity.INFO
        ok2 = SchemaChecker(load_schema("s.ron"), new).severity() == Severity.INFO
        r = cli(new, c["cmd"], "s.ron")
        what = "%s with the schema of %r for %r" % (c["cmd"], c["old"], c["new"])
        if r.exception is not None and not isinstance(r.exception, SystemExit): return ("raised", "%s raised %r" % (what, r.exception))
        after = text_of("s.ron")
        if c["cmd"] == "check-schema": want = before
        elif c["cmd"] == "dump-schema": want = cur
        else: want = cur if ok2 else before
        if after != want: return ("schema", "%s (%s) left the file as\n%s" % (what, "compatible" if ok2 else "incompatible", after))
        if c["cmd"] != "check-schema" and want == cur:
            ch = SchemaChecker(load_schema("s.ron"), new)
            if ch.changes: return ("current", "%s wrote a schema that differs from the class: %r" % (what, ch.changes))
        return None
    s = c["spec"]; w = world(s, {s[1]: lambda: c05.mkrules(c["rules"])}); cls = w.ty(s)
    names = ["f%d.ron" % i for i in range(c["files"])]
    for n in names:
        with open(n, "w") as f: f.write(ron(c["old"]))
    before = text_of(names[0])
    kind, want = outcome(lambda: _typed_load(cls, file=__import__("pathlib").Path(names[0])))
    opts = (["--dry-run"] if c["dry"] else []) + (["--include-defaults"] if c["full"] else [])
    r = cli(cls, "upgrade-config", *(opts + names))
    what = "upgrade-config %s of\n%s\n" % (" ".join(opts), before)
    if kind == "raise":
        for n in names:
            if text_of(n) != before: return ("failed-write", "%s which does not load (%s) wrote\n%s" % (what, want, text_of(n)))
        return None
    if c["bad"]: return None
    if r.exception is not None and not isinstance(r.exception, SystemExit): return ("raised", "%s raised %r" % (what, r.exception))
    for n in names:
        after = text_of(n)
        if c["dry"]:
            if after != before: return ("dry-run", "%s wrote\n%s" % (what, after))
            continue
        kind, got = outcome(lambda: _typed_load(cls, file=__import__("pathlib").Path(n)))
        if kind == "raise": return ("unreadable", "%s wrote\n%s\nwhich raises %s" % (what, after, got))
        if not same(want[0], got[0]): return ("config", "%s wrote\n%s\nwhich loads as %r, not %r" % (what, after, got[0], want[0]))
        def flat(x, p=()): return {p: x.unparsed} if not isinstance(x, dict) else {q: u for k, v in x.items() for q, u in flat(v, p + (k,)).items()}
        if flat(want[1]) != flat(got[1]) or flat(got[1]) != c["schedules"]: return ("schedules", "%s wrote\n%s\nwith the schedules %r, not %r" % (what, after, flat(got[1]), c["schedules"]))
        o = pyron.loads(after)
        if o.get("version") != s[3]: return ("version", "%s wrote\n%s" % (what, after))
        if c["full"]:
            for f in s[2]:
                if f[0] not in o: return ("include-defaults", "%s left out %s:\n%s" % (what, f[0], after))
        cli(cls, "upgrade-config", *(opts + [n]))
        if text_of(n) != after: return ("idempotent", "%s wrote\n%s\nand then\n%s" % (what, after, text_of(n)))
