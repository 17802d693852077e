"""Property-based testing core and runner for the python package (mirrors harness/src/pbt.rs and
main.rs): every random decision is a bounded draw recorded on a tape; a case is a pure function of
its tape; failures are shrunk by editing the tape; workers are processes of their own, so that a
crash of the extension module is a failure of the case that caused it."""
import json, os, re, signal, subprocess, sys, time

M64 = (1 << 64) - 1


def mix(z):
    z = (z + 0x9E3779B97F4A7C15) & M64
    z = ((z ^ (z >> 30)) * 0xBF58476D1CE4E5B9) & M64
    z = ((z ^ (z >> 27)) * 0x94D049BB133111EB) & M64
    return z ^ (z >> 31)


def hash_str(s):
    h = 0xCBF29CE484222325
    for b in s.encode():
        h = ((h ^ b) * 0x100000001B3) & M64
    return mix(h)


def case_seed(seed, prop, sub, idx):
    a = mix((seed ^ hash_str(prop)) & M64)
    b = hash_str(sub)
    b = ((b << 17) | (b >> 47)) & M64
    return mix(a ^ b ^ mix(idx))


class G:
    def __init__(self, seed=None, tape=None):
        self.tape = list(tape or [])
        self.pos = 0
        self.state = None if seed is None else mix(seed)
        self.verbose = False
        self.notes = []
        self.labels = set()
        self.nontrivial = False
        self.excluded = 0
        self.echo = None

    def _next(self):
        self.state = (self.state + 0x9E3779B97F4A7C15) & M64
        z = self.state
        z = ((z ^ (z >> 30)) * 0xBF58476D1CE4E5B9) & M64
        z = ((z ^ (z >> 27)) * 0x94D049BB133111EB) & M64
        return z ^ (z >> 31)

    def below(self, n):
        assert n > 0
        if self.state is not None:
            v = (self._next() * n) >> 64
            self.tape.append(v)
            if self.echo:
                self.echo.write("%d\n" % v)
                self.echo.flush()
        elif self.pos < len(self.tape):
            v = min(self.tape[self.pos], n - 1)
            self.tape[self.pos] = v
        else:
            v = 0
            self.tape.append(0)
        self.pos += 1
        return v

    def consumed(self):
        t = self.tape[: self.pos]
        while t and t[-1] == 0:
            t.pop()
        return t

    def range(self, lo, hi):
        return lo + self.below(hi - lo + 1)

    def bool(self):
        return self.below(2) == 1

    def chance(self, num, den):
        return self.below(den) >= den - num

    def pick(self, xs):
        return xs[self.below(len(xs))]

    def weighted(self, ws):
        x = self.below(sum(ws))
        for i, w in enumerate(ws):
            if x < w:
                return i
            x -= w

    def label(self, s):
        self.labels.add(s)

    def note(self, f):
        if self.verbose:
            self.notes.append(str(f())[:1500])


class Fail(Exception):
    pass


def run_case(f, g):
    """None or a failure message"""
    try:
        f(g)
        return None
    except Fail as e:
        return str(e)
    except (KeyboardInterrupt, SystemExit, MemoryError):
        raise
    except BaseException as e:  # PanicException is not an Exception
        import traceback
        tb = traceback.extract_tb(e.__traceback__)
        where = [t for t in tb if "vxpbt" not in t.filename]
        loc = "%s:%s" % (os.path.basename(where[-1].filename), where[-1].lineno) if where else ""
        return "unexpected %s at %s: %s" % (type(e).__name__, loc, str(e)[:600])


def signature(m):
    return re.sub(r"[0-9]+", "#", m.split("\n")[0][:160])


def coarse(m):
    return re.sub(r"[0-9]+", "#", m.split("\n")[0].split(" | ")[0][:120])


def shrink(tape, msg, max_runs, seconds, try_tape):
    best, best_msg, runs, t0 = list(tape), msg, 0, time.time()

    def attempt(c):
        nonlocal best, best_msg, runs
        if runs >= max_runs or time.time() - t0 > seconds or c == best:
            return False
        runs += 1
        r = try_tape(c)
        if r and (len(r[0]), r[0]) < (len(best), best):
            best, best_msg = r
            return True
        return False

    while True:
        before = list(best)
        for size in (256, 64, 32, 16, 8, 4, 3, 2, 1):
            i = len(best) - size
            while i >= 0:
                if i + size <= len(best) and not attempt(best[:i] + best[i + size:]):
                    i -= max(1, size // 2)
                else:
                    i -= 1
        for size in (8, 4, 2, 1):
            for i in range(0, len(best) - size + 1, size):
                if any(best[i:i + size]):
                    attempt(best[:i] + [0] * size + best[i + size:])
        i = 0
        while i < len(best):
            lo, hi, n = 0, best[i], 0
            while lo < hi and n < 20 and i < len(best):
                n += 1
                mid = (lo + hi) // 2
                if attempt(best[:i] + [mid] + best[i + 1:]):
                    if i >= len(best):
                        break
                    hi = min(best[i], mid)
                else:
                    lo = mid + 1
            for k in (1, 2, 3, 4, 6):
                if i < len(best) and best[i] > 0 and i + 1 + k <= len(best):
                    attempt(best[:i] + [best[i] - 1] + best[i + 1 + k:])
            i += 1
        if best == before or runs >= max_runs or time.time() - t0 > seconds:
            return best, best_msg, runs


def worker(prop, tier, seed, w, nw, out, only, maxfail, scale, skip):
    res = {"subs": [], "failures": []}
    cur = open(out + ".cur", "wb", buffering=0)
    for si, (name, f, quick, thorough) in enumerate(prop["subs"]):
        if only and name != only:
            continue
        total = int((thorough if tier == "thorough" else quick) * scale)
        st = {"sub": name, "evals": 0, "nontrivial": [], "labels": {}, "excluded": 0, "samples": [], "secs": 0.0}
        seen, fails, t0 = set(), 0, time.time()
        for idx in range(w, total, nw):
            if (si, idx) in skip:
                continue
            cur.seek(0)
            cur.write(b"%d %d\n          " % (si, idx))
            g = G(seed=case_seed(seed, prop["id"], name, idx))
            m = run_case(f, g)
            st["evals"] += 1
            st["excluded"] += g.excluded
            for l in g.labels:
                st["labels"][l] = st["labels"].get(l, 0) + 1
            if g.nontrivial:
                h = hash(tuple(g.consumed())) & M64
                if h not in seen:
                    seen.add(h)
                    if w == 0 and len(st["samples"]) < 3 and m is None:
                        g2 = G(tape=g.consumed())
                        g2.verbose = True
                        run_case(f, g2)
                        st["samples"].append({"sub": name, "case": idx, "case_text": "; ".join(g2.notes)[:900]})
            if m is not None:
                fails += 1
                res["failures"].append({"sub": name, "idx": idx, "msg": m, "tape": g.consumed()})
                if fails >= maxfail:
                    break
        st["secs"] = time.time() - t0
        st["nontrivial"] = list(seen)
        res["subs"].append(st)
    json.dump(res, open(out, "w"))
    cur.seek(0)
    cur.write(b"done                  ")


def sub_of(prop, name):
    return next(s for s in prop["subs"] if s[0] == name)


def replay(prop, path, quiet=False, tape_only=None):
    rec = json.load(open(path))
    f = sub_of(prop, rec["sub"])[1]
    g = G(seed=rec["seed_case"]) if rec.get("tape") is None else G(tape=rec["tape"])
    g.verbose = not quiet
    if tape_only:
        g.echo = open(tape_only, "w")
    m = run_case(f, g)
    if os.environ.get("VX_USED"):
        json.dump(g.consumed(), open(os.environ["VX_USED"], "w"))
    if not quiet:
        for n in g.notes:
            print("  ", n)
        print("FAILS: " + m if m is not None else "passes")
    return 1 if m is not None else 0


def me(*a):
    return [sys.executable, os.path.abspath(sys.argv[0])] + [str(x) for x in a]


def run_limited(cmd, secs, env=None):
    p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=env)
    try:
        return p.wait(secs), False
    except subprocess.TimeoutExpired:
        p.kill()
        p.wait()
        return None, True


def check(prop, tier, seed, a):
    t0 = time.time()
    vd = os.environ.get("VERIF_DIR", "/verif")
    tmp = "%s/target/run/%s-%d" % (vd, prop["id"], os.getpid())
    os.makedirs(tmp, exist_ok=True)
    os.environ["VX_TMP"] = tmp
    nw, watchdog = 8, int(os.environ.get("VX_WATCHDOG", "60"))
    skips = {w: [] for w in range(nw)}
    crashes = []

    def spawn(w):
        c = me("worker", prop["id"], tier, seed, w, nw, "%s/w%d.json" % (tmp, w), a["only"] or "-", a["maxfail"], a["scale"],
               ",".join("%d:%d" % x for x in skips[w]) or "-")
        return subprocess.Popen(c, stderr=open("%s/w%d.err" % (tmp, w), "w"), stdout=subprocess.DEVNULL)

    def current(w):
        try:
            t = open("%s/w%d.json.cur" % (tmp, w), "rb").read().split()
            return (int(t[0]), int(t[1])) if t and t[0] != b"done" else None
        except OSError:
            return None

    kids = {w: [spawn(w), None, time.time()] for w in range(nw)}
    bad = None
    while kids and not bad:
        for w in list(kids):
            k = kids[w]
            rc = k[0].poll()
            if rc is None:
                c = current(w)
                if c != k[1]:
                    k[1], k[2] = c, time.time()
                elif time.time() - k[2] > watchdog:
                    k[0].kill()
                    k[0].wait()
                    if c is None:
                        bad = "worker %d made no progress between cases" % w
                        break
                    f = "%s/hang%d.json" % (tmp, w)
                    name = prop["subs"][c[0]][0]
                    json.dump({"property": prop["id"], "sub": name, "tape": None,
                               "seed_case": case_seed(seed, prop["id"], name, c[1])}, open(f, "w"))
                    _, hung = run_limited(me("replay", f, "--quiet"), watchdog)
                    if not hung:
                        bad = "worker %d made no progress in %s case %d, but the case ends on its own" % (w, name, c[1])
                        break
                    crashes.append((c[0], c[1], "no answer within %d s (twice)" % watchdog))
                    skips[w].append(c)
                    kids[w] = [spawn(w), None, time.time()]
            elif rc == 0:
                del kids[w]
            elif rc < 0 and -rc in (4, 6, 7, 8, 11) and current(w) and len(skips[w]) < (40 if a["dev"] else 2):
                c = current(w)
                err = open("%s/w%d.err" % (tmp, w)).read()[-600:]
                crashes.append((c[0], c[1], "process killed by signal %d | stderr: %s" % (-rc, err)))
                skips[w].append(c)
                kids[w] = [spawn(w), None, time.time()]
            elif rc < 0 and -rc in (4, 6, 7, 8, 11) and current(w):
                c = current(w)
                crashes.append((c[0], c[1], "process killed by signal %d" % -rc))
                del kids[w]
            else:
                bad = "worker %d ended with %d: %s" % (w, rc, open("%s/w%d.err" % (tmp, w)).read()[-900:])
                break
        time.sleep(0.03)
    if bad:
        for k in kids.values():
            k[0].kill()
        print("INCONCLUSIVE property=%s %s" % (prop["id"], bad))
        return 3
    subs = {s[0]: {"evals": 0, "labels": {}, "secs": 0.0} for s in prop["subs"]}
    nontrivial, excluded, samples, failures = set(), 0, [], []
    for w in range(nw):
        p = "%s/w%d.json" % (tmp, w)
        if not os.path.exists(p):
            continue
        v = json.load(open(p))
        for s in v["subs"]:
            t = subs[s["sub"]]
            t["evals"] += s["evals"]
            t["secs"] += s["secs"]
            excluded += s["excluded"]
            nontrivial.update((s["sub"], h) for h in s["nontrivial"])
            for k, n in s["labels"].items():
                t["labels"][k] = t["labels"].get(k, 0) + n
            samples += s["samples"]
        failures += [(f["sub"], f["idx"], f["msg"], f["tape"]) for f in v["failures"]]
    failures += [(prop["subs"][si][0], idx, m, None) for si, idx, m in crashes]
    order = [s[0] for s in prop["subs"]]
    failures.sort(key=lambda f: (order.index(f[0]), f[1]))
    seen, uniq = {}, []
    for f in failures:
        k = (f[0], signature(f[2]))
        seen[k] = seen.get(k, 0) + 1
        if seen[k] == 1:
            uniq.append(f)
    os.makedirs(vd + "/replays", exist_ok=True)
    limit = 200 if a["dev"] else 3
    running = []
    for k, (sub, idx, msg, tape) in enumerate(uniq[:limit]):
        path = "%s/replays/%s-%s-%d-%d.json" % (vd, prop["id"], sub, seed, idx)
        rec = {"property": prop["id"], "sub": sub, "seed": seed, "case": idx, "tape": tape, "message": msg,
               "seed_case": case_seed(seed, prop["id"], sub, idx), "original_message": msg, "shrink_runs": 0, "case_text": []}
        json.dump(rec, open(path, "w"), indent=1)
        cmd = me("shrink", path)
        if tape is None:
            tf = tmp + "/tape.txt"
            run_limited(me("tape", path, tf), watchdog)
            rec["tape"] = [int(x) for x in open(tf).read().split()] if os.path.exists(tf) else None
            json.dump(rec, open(path, "w"), indent=1)
            if not rec["tape"] or msg.startswith("no answer"):
                continue
            cmd = me("shrinkcrash", path)
        running.append(subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL))
        if len(running) >= 8:
            running.pop(0).wait()
    for p in running:
        try:
            p.wait(90)
        except subprocess.TimeoutExpired:
            p.kill()
    for k, (sub, idx, msg, tape) in enumerate(uniq[:limit]):
        path = "%s/replays/%s-%s-%d-%d.json" % (vd, prop["id"], sub, seed, idx)
        rec = json.load(open(path))
        print("# %s case %d (x%d): %s" % (sub, idx, seen[(sub, signature(msg))], rec["message"][:1500].replace("\n", " ")))
        for n in rec["case_text"]:
            print("#   %s" % n[:500].replace("\n", " "))
        print("VIOLATION property=%s replay=%s" % (prop["id"], path))
    listed = open(vd + "/known_findings.txt").read() if os.path.exists(vd + "/known_findings.txt") else ""
    kf = []
    for kid, f in prop.get("known", []):
        t = f()
        if t is None:
            continue
        if any(l.startswith("finding:") and "property=%s " % prop["id"] in l and "id=%s " % kid in l for l in listed.splitlines()):
            print("KNOWN-FINDING: property=%s %s %s" % (prop["id"], kid, t.replace("\n", " ")))
            kf.append({"id": kid, "what": t})
        else:
            print("# unlisted pinned finding %s: %s" % (kid, t))
            print("VIOLATION property=%s replay=%s/known_findings.txt#%s" % (prop["id"], vd, kid))
            return 1
    wall = time.time() - t0
    if not a["dev"]:
        os.makedirs(vd + "/evidence", exist_ok=True)
        json.dump({"property": prop["id"], "tier": tier, "seed": seed, "level": "exploration", "wall_s": wall,
                   "violations": len(uniq), "assumptions": prop["assumptions"],
                   "coverage": {"evaluations": sum(s["evals"] for s in subs.values()), "distinct_nontrivial": len(nontrivial),
                                "rule": prop["rule"], "samples": samples[:20], "excluded_by_known_findings": excluded,
                                "evaluations_per_subproperty": {k: s["evals"] for k, s in subs.items()},
                                "labels": {k: s["labels"] for k, s in subs.items()},
                                "cpu_seconds_per_subproperty": {k: s["secs"] for k, s in subs.items()}, "known_findings": kf}},
                  open("%s/evidence/%s.json" % (vd, prop["id"]), "w"), indent=1, sort_keys=True)
    else:
        for n, s in subs.items():
            print("labels %s: %d evals %.1f cpu s %s" % (n, s["evals"], s["secs"], dict(sorted(s["labels"].items()))))
    subprocess.run(["rm", "-rf", tmp])
    print("property=%s evaluations=%d distinct_nontrivial=%d violations=%d excluded=%d wall=%.1fs" % (
        prop["id"], sum(s["evals"] for s in subs.values()), len(nontrivial), len(uniq), excluded, wall))
    return 1 if uniq else 0


def main(props):
    argv = sys.argv[1:]
    byid = {p["id"]: p for p in props}
    os.environ.setdefault("VX_TMP", "/verif/target/run")
    if argv[0] == "check":
        dev = "--dev" in argv
        opt = lambda n, d: argv[argv.index(n) + 1] if n in argv else d
        return check(byid[argv[1]], os.environ.get("VERIF_TIER", "quick"), int(os.environ.get("VERIF_SEED", "1")),
                     {"dev": dev, "only": opt("--only", None), "maxfail": int(opt("--maxfail", 40 if dev else 3)),
                      "scale": float(opt("--scale", "1"))})
    if argv[0] == "worker":
        pid, tier, seed, w, nw, out, only, maxfail, scale, skip = argv[1:]
        worker(byid[pid], tier, int(seed), int(w), int(nw), out, None if only == "-" else only, int(maxfail), float(scale),
               set() if skip == "-" else {tuple(int(y) for y in x.split(":")) for x in skip.split(",")})
        return 0
    path = argv[1]
    rec = json.load(open(path))
    prop = byid[rec["property"]]
    if argv[0] == "replay":
        return replay(prop, path, "--quiet" in argv)
    if argv[0] == "tape":
        return replay(prop, path, True, argv[2])
    f = sub_of(prop, rec["sub"])[1]
    if argv[0] == "shrink":
        tag = coarse(rec["message"])

        def t(c):
            g = G(tape=c)
            m = run_case(f, g)
            return (g.consumed(), m) if m is not None and coarse(m) == tag else None

        secs = 45
    else:
        def t(c):
            p = path + ".try"
            json.dump(dict(rec, tape=c), open(p, "w"))
            rc, _ = run_limited(me("replay", p, "--quiet"), 30)
            os.remove(p)
            return (c, rec["message"]) if rc is not None and rc < 0 else None

        secs = 40
    tape, msg, runs = shrink(rec["tape"], rec["message"], 3000, secs, t)
    rec.update(tape=tape, message=msg, shrink_runs=runs)
    if argv[0] == "shrink":
        g = G(tape=tape)
        g.verbose = True
        run_case(f, g)
        rec["case_text"] = g.notes
    json.dump(rec, open(path, "w"), indent=1)
    return 0
