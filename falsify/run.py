"""Runs one falsifier on the real code: run.py PROP --seconds S --seed N --out FILE [--replay FILE] [--known FILE]."""
import sys, os, json, time, random, importlib, argparse, ast, tempfile, shutil, traceback, hashlib
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop"); ap.add_argument("--seconds", type=float, default=15); ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--out"); ap.add_argument("--replay"); ap.add_argument("--known", default=""); ap.add_argument("--max", type=int, default=10**9)
    a = ap.parse_args()
    if a.replay: a.replay = os.path.abspath(a.replay)
    if a.out: a.out = os.path.abspath(a.out)
    mod = importlib.import_module(a.prop.lower())
    known = set(filter(None, a.known.split(",")))
    scratch = tempfile.mkdtemp(prefix="falsify-")
    os.chdir(scratch)
    res = dict(evaluations=0, distinct_nontrivial=0, violation=None, known=[], samples=[], rule=mod.RULE)
    seen = set()
    t0 = time.time()
    def one(case):
        try: return mod.check(case)
        except Exception: return ("check-error", "the check itself raised: " + traceback.format_exc()[-1500:])
    try:
        if a.replay:
            with open(a.replay) as f: rep = json.load(f)
            r = one(ast.literal_eval(rep["case"]))
            print(r)
            sys.exit(1 if r else 0)
        i = 0
        for case in mod.cases(random.Random(a.seed)):
            if i >= a.max or time.time() - t0 > a.seconds: break
            i += 1
            res["evaluations"] += 1
            rep = repr(case)
            h = hashlib.md5(rep.encode()).digest()
            if h not in seen:
                seen.add(h)
                if mod.nontrivial(case) if hasattr(mod, "nontrivial") else True: res["distinct_nontrivial"] += 1
            if len(res["samples"]) < 3 and i % 7 == 1: res["samples"].append(rep[:400])
            r = one(case)
            if r:
                kind, msg = r
                if kind in known:
                    if kind not in res["known"]: res["known"].append(kind)
                    continue
                res["violation"] = dict(kind=kind, message=msg, case=rep)
                break
    finally:
        os.chdir("/")
        shutil.rmtree(scratch, ignore_errors=True)
    res["seconds"] = round(time.time() - t0, 2)
    if a.out:
        with open(a.out, "w") as f: json.dump(res, f)
    else: print(json.dumps(res, indent=1))
main()
