"""Driver shared by all checks: builds the configurations a check needs from
/repo's working tree, fans Hypothesis runs over 8 processes, re-confirms any
failure, writes the shrunk case as a replay file and the evidence file."""
import hashlib, importlib, json, multiprocessing as mp, os, random, sys, time, traceback, zlib
import hypothesis
from hypothesis import HealthCheck, Phase, given, seed as hseed, settings
from . import build as B

HERE = B.HERE


class Violation(Exception):
    pass


class Discard(Exception):
    """the program gave up with a documented diagnostic on a state outside its solver's domain"""


class _Stop(BaseException):
    pass


def need(cond, msg, *a):
    if not cond:
        raise Violation(msg % a if a else msg)


class Sub:
    """One generated-input search.

    fn(case, exe) -> (nontrivial, label); raises Violation when the oracle rejects.
    exe maps a build name to the executable path."""

    def __init__(self, name, strategy, fn, builds, quick, thorough=None, shards=1):
        self.name, self.strategy, self.fn = name, strategy, fn
        self.builds = builds            # dict name -> (cfg, opt, extra, harness) or callable
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 12
        self.shards = shards


def spec(c, opt="-O1", extra=(), harness=None):
    return (c, opt, tuple(extra), harness)


def _case_id(case):
    return hashlib.sha1(json.dumps(case, sort_keys=True, default=str).encode()).hexdigest()


_G = {}


def _search(task):
    subname, shard, n, seed, deadline, shrink_s = task
    sub = _G["subs"][subname]
    exe = _G["exe"][subname]
    st = dict(sub=subname, n=0, nontrivial=0, ids=set(), labels={}, samples=[], fail=None, skipped=False)
    if time.time() > deadline or _G["stop"].is_set():
        st["skipped"] = True
        st["ids"] = []
        return st
    best = [None, None, None]     # case, message, time of first failure

    def body(case):
        if best[2] is not None and time.time() - best[2] > shrink_s:
            raise _Stop()
        if best[2] is None and (time.time() > deadline or _G["stop"].is_set()):
            raise _Stop()
        st["n"] += 1
        try:
            nt, label = sub.fn(case, exe)
        except _Stop:
            raise
        except Discard as e:
            nt, label = False, "discarded: %s" % e
        except hypothesis.errors.UnsatisfiedAssumption:
            raise
        except Exception as e:
            msg = str(e) if isinstance(e, Violation) else "".join(
                traceback.format_exception(type(e), e, e.__traceback__))[-1500:]
            if best[0] is None or len(json.dumps(case, default=str)) <= len(json.dumps(best[0], default=str)):
                best[0], best[1] = case, msg
            if best[2] is None:
                best[2] = time.time()
            raise Violation("fail")
        st["labels"][label] = st["labels"].get(label, 0) + 1
        if nt:
            h = _case_id(case)
            if h not in st["ids"]:
                st["ids"].add(h)
                if len(st["samples"]) < 2:
                    st["samples"].append(case)

    t = hseed(seed)(settings(max_examples=n, database=None, deadline=None, derandomize=False,
                             suppress_health_check=list(HealthCheck), print_blob=False,
                             report_multiple_bugs=False,
                             phases=[Phase.generate, Phase.shrink])(given(sub.strategy)(body)))
    try:
        t()
    except _Stop:
        pass
    except Violation:
        pass
    except hypothesis.errors.HypothesisException as e:
        if best[0] is None:
            best[1] = "hypothesis: %r" % e
            st["hyp"] = best[1]
    if best[0] is not None:
        # confirm
        ok = 0
        for _ in range(3):
            try:
                sub.fn(best[0], exe)
            except Discard:
                pass
            except Exception:
                ok += 1
        if ok >= 2:
            st["fail"] = (best[0], best[1])
            if not os.environ.get("VP_KEEP"):
                _G["stop"].set()
        else:
            st["labels"]["unconfirmed"] = st["labels"].get("unconfirmed", 0) + 1
    st["ids"] = list(st["ids"])
    return st


def load(pid):
    return importlib.import_module("checks." + pid)


def run_check(pid, tier, only=None, scale=1.0):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    mod = load(pid)
    subs = [s for s in mod.subs(tier) if only is None or only in s.name]
    assert len({s.name for s in subs}) == len(subs)
    budget = float(os.environ.get("VP_BUDGET", "600" if tier == "quick" else "7200"))
    specs = []
    for s in subs:
        for b in s.builds.values():
            if not callable(b) and b not in specs:
                specs.append(b)
    built = B.build_many(specs)
    viol = []
    exes = {}
    for s in subs:
        e = {}
        for k, b in s.builds.items():
            if callable(b):
                try:
                    e[k] = b()
                except B.BuildError as x:
                    e[k] = x
            else:
                e[k] = built[b]
        bad = [x for x in e.values() if isinstance(x, Exception)]
        if bad:
            # a function-level harness may stop linking after a legitimate change of an internal interface: only the
            # program itself not building is a violation
            hs = [b for b in s.builds.values() if not callable(b) and b[3]]
            if hs and not any(isinstance(B.build_many([(b[0], b[1], b[2], None)])[(b[0], b[1], b[2], None)], Exception) for b in hs):
                print("NOTE %s: harness does not build, search skipped: %s" % (s.name, str(bad[0])[-300:]))
            else:
                viol.append((s.name, {"build": str(s.builds)[:400]}, "configuration does not build: %s" % bad[0]))
        exes[s.name] = e
    t1 = time.time()
    subs_ok = [s for s in subs if not any(isinstance(x, Exception) for x in exes[s.name].values())]
    _G.update(subs={s.name: s for s in subs_ok}, exe=exes, stop=mp.get_context("fork").Event())
    tasks = []
    deadline = t0 + budget
    for s in subs_ok:
        n = s.quick if tier == "quick" else s.thorough
        n = max(1, int(n * scale))
        sh = s.shards if tier == "quick" else max(s.shards, min(8, n // 50 + 1))
        for i in range(sh):
            sd = zlib.crc32(("%d/%s/%s/%d" % (seed, pid, s.name, i)).encode())
            tasks.append((s.name, i, max(1, n // sh), sd, deadline, float(os.environ.get("VP_SHRINK", 40 if tier == "quick" else 120))))
    # interleave so that cheap and dear ones mix
    random.Random(seed).shuffle(tasks)
    agg = dict(n=0, ids=set(), labels={}, samples=[], per={}, skipped=0)
    jobs = getattr(mod, "JOBS", 8)
    with mp.get_context("fork").Pool(jobs) as pool:
        for st in pool.imap_unordered(_search, tasks, chunksize=1):
            agg["n"] += st["n"]
            agg["skipped"] += st["skipped"]
            p = agg["per"].setdefault(st["sub"], [0, 0])
            p[0] += st["n"]
            new = set(st["ids"]) - agg["ids"]
            p[1] += len(new)
            agg["ids"] |= new
            for k, v in st["labels"].items():
                agg["labels"][k] = agg["labels"].get(k, 0) + v
            for c in st["samples"]:
                if len(agg["samples"]) < 6 and not any(x["sub"] == st["sub"] for x in agg["samples"]):
                    agg["samples"].append({"sub": st["sub"], "case": c})
            if st["fail"]:
                viol.append((st["sub"], st["fail"][0], st["fail"][1]))
            if st.get("hyp"):
                print("NOTE", st["sub"], st["hyp"][:300])
    wall = time.time() - t0
    ev = dict(property=pid, tier=tier, seed=seed, level="exploration",
              coverage=dict(evaluations=agg["n"], distinct_nontrivial=len(agg["ids"]), rule=mod.RULE,
                            samples=agg["samples"], labels=agg["labels"],
                            per_search={k: {"evaluations": v[0], "distinct_nontrivial": v[1]}
                                        for k, v in sorted(agg["per"].items())},
                            configurations_built=len(specs), searches_skipped_on_time_budget=agg["skipped"]),
              assumptions=getattr(mod, "ASSUMPTIONS", []), wall_s=round(wall, 2), violations=len(viol))
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    if only is None:
        with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
    known = known_findings(pid)
    out = 0
    for sname, case, msg in viol:
        rdir = os.path.join(HERE, "replays")
        os.makedirs(rdir, exist_ok=True)
        rp = os.path.join(rdir, "%s-%s-%s.json" % (pid, "".join(ch if ch.isalnum() else "_" for ch in sname)[:60],
                                                   _case_id(case)[:8]))
        with open(rp, "w") as f:
            json.dump(dict(property=pid, sub=sname, case=case, message=msg, seed=seed), f, indent=1, default=str)
        print("  [%s] %s" % (sname, msg[-800:]))
        if not os.environ.get("VP_KEEP"):
            print("  case: %s" % json.dumps(case, default=str)[:1200])
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        out = 1
    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (pid, k))
    print("%s %s: %d evaluations, %d distinct non-trivial, %d configs, build %.1fs, total %.1fs, violations %d%s"
          % (pid, tier, agg["n"], len(agg["ids"]), len(specs), t1 - t0, wall, len(viol),
             " (%d searches skipped on time)" % agg["skipped"] if agg["skipped"] else ""))
    return out


def known_findings(pid):
    p = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [k["what"] for k in json.load(open(p)).get("known", []) if k["property"] == pid]


def replay(path):
    r = json.load(open(path))
    mod = load(r["property"])
    for tier in ("quick", "thorough"):
        for s in mod.subs(tier):
            if s.name == r["sub"]:
                exe = {}
                for k, b in s.builds.items():
                    exe[k] = b() if callable(b) else B.build(*b)
                try:
                    s.fn(r["case"], exe)
                except Exception as e:
                    print("replay fails: %s" % (str(e)[:2000]))
                    print("VIOLATION property=%s replay=%s" % (r["property"], path))
                    return 1
                print("replay passes")
                return 0
    print("no such search:", r["sub"])
    return 1
