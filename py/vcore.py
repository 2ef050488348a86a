"""Driver shared by all checks: build a harness against /repo's working tree, run it in parallel over disjoint case
ranges, confirm failures, write the evidence file and print VIOLATION / KNOWN-FINDING lines."""
import concurrent.futures, glob, hashlib, json, os, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
CACHE = os.path.join(VERIF, ".cache")
REPLAYS = os.path.join(VERIF, "replays")
EVID = os.path.join(VERIF, "evidence")
JOBS = int(os.environ.get("VERIF_JOBS", "8"))
WORKERS = int(os.environ.get("VERIF_WORKERS", "8"))


def tree_hash(paths, extra):
    h = hashlib.sha256()
    h.update(extra.encode())
    for p in sorted(paths):
        h.update(p.encode() + b"\0")
        with open(p, "rb") as f:
            h.update(f.read())
        h.update(b"\0")
    return h.hexdigest()[:24]


def repo_sources():
    r = []
    for pat in ("*.cc", "*.hh", "*.h", "*.c"):
        r += glob.glob(os.path.join(REPO, pat))
    return r


def config_h():
    p = os.path.join(REPO, "config.h")
    return p if os.path.exists(p) else os.path.join(VERIF, "harness", "config_fallback.h")


def run_proc(cmd, timeout, **kw):
    return subprocess.run(cmd, timeout=timeout, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)


class BuildError(Exception):
    pass


def build(name, h):
    """h: dict(srcs=[harness files], repo=[repo .cc files], cxx, flags, srcflags={file: flags}, ldflags, inst=[files that get instflags])"""
    cxx = h.get("cxx", "g++")
    base = ["-std=gnu++17", "-pthread", "-g1", "-w", "-include", config_h(), "-I" + REPO, "-I" + os.path.join(VERIF, "harness")]
    flags = h.get("flags", ["-O1"])
    hs = [os.path.join(VERIF, "harness", x) for x in h["srcs"]] + glob.glob(os.path.join(VERIF, "harness", "*.hh"))
    key = tree_hash(repo_sources() + [p for p in hs if os.path.isfile(p)] + [config_h()], name + json.dumps(h, sort_keys=True))
    d = os.path.join(CACHE, name + "-" + key)
    exe = os.path.join(d, name)
    if os.path.exists(exe):
        return exe
    for old in glob.glob(os.path.join(CACHE, name + "-*")):
        shutil.rmtree(old, ignore_errors=True)
    os.makedirs(d, exist_ok=True)
    jobs = []
    objs = []
    for kind, lst in (("h", h["srcs"]), ("r", h.get("repo", []))):
        for s in lst:
            src = os.path.join(VERIF, "harness", s) if kind == "h" else os.path.join(REPO, s)
            o = os.path.join(d, kind + "_" + s.replace("/", "_") + ".o")
            f = h.get("srcflags", {}).get(s, flags)
            jobs.append([cxx] + base + f + ["-c", src, "-o", o])
            objs.append(o)

    def comp(cmd):
        try:
            return cmd, run_proc(cmd, 600)
        except subprocess.TimeoutExpired:
            return cmd, None
    with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
        for cmd, r in ex.map(comp, jobs):
            if r is None or r.returncode != 0:
                msg = "compilation failed: " + " ".join(cmd) + "\n" + (r.stdout.decode(errors="replace")[-6000:] if r else "timeout")
                shutil.rmtree(d, ignore_errors=True)
                raise BuildError(msg)
    cmd = [cxx, "-pthread", "-o", exe + ".tmp"] + objs + h.get("ldflags", []) + ["-lnuma", "-lm"]
    r = run_proc(cmd, 300)
    if r.returncode != 0:
        shutil.rmtree(d, ignore_errors=True)
        raise BuildError("link failed: " + " ".join(cmd) + "\n" + r.stdout.decode(errors="replace")[-6000:])
    os.rename(exe + ".tmp", exe)
    return exe


def scratch(prop):
    base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else "/tmp"
    d = os.path.join(base, "verif-%s-%d" % (prop, os.getpid()))
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    return d


def known_for(prop):
    """Entries 'known: property=<id> replay=<path under /verif> <what fails>' of known_findings.txt."""
    r = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            if line.startswith("known: property=%s " % prop):
                r.append(line.strip())
    return r


def main(prop, CHECKS, HARNESS):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    chk = CHECKS[prop]
    os.makedirs(EVID, exist_ok=True)
    os.makedirs(REPLAYS, exist_ok=True)
    for old in glob.glob(os.path.join(REPLAYS, prop + "-*")):
        os.unlink(old)
    work = scratch(prop)
    rc = 0
    violations = []
    total = dict(cases=0, nontrivial=0, discarded=0)
    distinct = set()
    tags, samples, runinfo, unstable = {}, [], [], []
    try:
        exes = {}
        names = sorted(set(r["harness"] for r in chk["runs"]))
        with concurrent.futures.ThreadPoolExecutor(len(names)) as ex:
            for n, e in zip(names, ex.map(lambda n: build(n, HARNESS[n]), names)):
                exes[n] = e
        for k in known_for(prop):
            # the listed input is replayed: the line is printed while it still fails
            fields = dict(f.split("=", 1) for f in k.split()[1:4] if "=" in f)
            text = k.split(" what=", 1)[1] if " what=" in k else k
            env = dict(os.environ, VERIF_SCRATCH=work, **HARNESS[fields["harness"]].get("env", {}))
            if fields["harness"] not in exes:
                exes[fields["harness"]] = build(fields["harness"], HARNESS[fields["harness"]])
            run = [r for r in chk["runs"] if r["harness"] == fields["harness"]][0]
            try:
                r = subprocess.run([exes[fields["harness"]]] + run.get("argv", []) + ["--replay", os.path.join(VERIF, fields["replay"])],
                                   cwd=work, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=120)
                bad = r.returncode != 0
            except subprocess.TimeoutExpired:
                bad = True
            if bad:
                print("KNOWN-FINDING: property=%s %s" % (prop, text))
        for ri, run in enumerate(chk["runs"]):
            h = HARNESS[run["harness"]]
            cases, tcap = run[tier] if tier in run else run["quick"]
            nw = min(WORKERS, run.get("workers", WORKERS))
            procs = []
            for j in range(nw):
                w = os.path.join(work, "r%d-w%d" % (ri, j))
                os.makedirs(w)
                cmd = [exes[run["harness"]]] + run.get("argv", []) + [
                    "--seed", str(seed), "--start", str(j * 10000000 + run.get("base", 0)), "--cases", str(cases),
                    "--time", str(tcap), "--out", w + "/stats.json", "--fail", w + "/fail.txt", "--hashes", w + "/hashes",
                    "--shrink-s", str(run.get("shrink_s", 40))]
                env = dict(os.environ, VERIF_SCRATCH=w, **h.get("env", {}))
                lf = open(w + "/log", "wb")
                procs.append((w, subprocess.Popen(cmd, cwd=w, env=env, stdout=lf, stderr=lf), lf))
            rt0 = time.time()
            limit = tcap + 300
            rcases = 0
            for w, p, lf in procs:
                try:
                    p.wait(max(1, limit - (time.time() - rt0)))
                except subprocess.TimeoutExpired:
                    p.kill()
                    p.wait()
                    unstable.append("worker %s exceeded its wall-clock limit" % os.path.basename(w))
                lf.close()
                try:
                    st = json.load(open(w + "/stats.json"))
                except Exception:
                    print("worker %s left no statistics; log tail:" % w, file=sys.stderr)
                    sys.stderr.write(open(w + "/log", errors="replace").read()[-3000:] + "\n")
                    unstable.append("worker without statistics")
                    continue
                for k in total:
                    total[k] += st[k]
                rcases += st["cases"]
                for t, (a, b) in st["tags"].items():
                    x = tags.setdefault(t, [0, 0])
                    x[0] += a
                    x[1] += b
                if len(samples) < 3 * len(chk["runs"]):
                    samples += [x[:3000] for x in st["samples"][: max(0, 3 * (ri + 1) - len(samples))]]
                try:
                    raw = open(w + "/hashes", "rb").read()
                    for i in range(0, len(raw) - 7, 8):
                        distinct.add((ri, raw[i:i + 8]))
                except FileNotFoundError:
                    pass
                if st["failed"]:
                    if st["kind"] in ("choices", "range") and os.path.exists(w + "/fail.txt"):
                        dst = os.path.join(REPLAYS, "%s-%s-%d-%s.txt" % (prop, run["harness"], ri, os.path.basename(w)))
                        text = open(w + "/fail.txt", errors="replace").read()
                        with open(dst, "w") as f:
                            f.write("# replay: bin/check %s --replay THIS_FILE\n# harness=%s argv=%s\n" % (prop, run["harness"], " ".join(run.get("argv", []))))
                            f.write(text)
                            f.write("# log tail:\n" + "".join("# " + l + "\n" for l in open(w + "/log", errors="replace").read()[-3000:].splitlines()))
                        violations.append((dst, st["why"]))
                    else:
                        unstable.append("not reproduced: " + st["why"])
            runinfo.append(dict(harness=run["harness"], argv=run.get("argv", []), workers=nw, evaluations=rcases,
                                wall_s=round(time.time() - rt0, 1)))
            if violations:
                break
    except BuildError as e:
        print(str(e), file=sys.stderr)
        print("ERROR: check %s could not build its harness" % prop)
        return 2
    finally:
        shutil.rmtree(work, ignore_errors=True)
    ev = dict(property=prop, tier=tier, seed=seed, level=chk["level"],
              coverage=dict(evaluations=total["cases"], distinct_nontrivial=len(distinct), rule=chk["rule"], samples=samples,
                            nontrivial=total["nontrivial"], discarded=total["discarded"],
                            tags={k: dict(cases=v[0], total=v[1]) for k, v in sorted(tags.items())}, runs=runinfo),
              assumptions=chk.get("assumptions", []), wall_s=round(time.time() - t0, 1), violations=len(violations))
    if unstable:
        ev["unstable"] = unstable
    tmp = os.path.join(EVID, prop + ".json.tmp")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.rename(tmp, os.path.join(EVID, prop + ".json"))
    for u in unstable:
        print("note: " + u)
    print("%s: %d cases, %d distinct non-trivial, %.1f s" % (prop, total["cases"], len(distinct), time.time() - t0))
    for dst, why in violations:
        print("  " + why.splitlines()[0] if why else "")
    if violations:
        print("VIOLATION property=%s replay=%s" % (prop, violations[0][0]))
        rc = 1
    elif total["cases"] == 0:
        print("ERROR: nothing was explored")
        rc = 2
    return rc


def replay(prop, path, CHECKS, HARNESS):
    head = open(path).read(4000)
    hn, argv = None, []
    for line in head.splitlines():
        if line.startswith("# harness="):
            hn = line.split("=", 1)[1].split(" ")[0]
            argv = line.split("argv=", 1)[1].split()
    if hn is None:
        hn = CHECKS[prop]["runs"][0]["harness"]
        argv = CHECKS[prop]["runs"][0].get("argv", [])
    exe = build(hn, HARNESS[hn])
    work = scratch(prop)
    try:
        env = dict(os.environ, VERIF_SCRATCH=work, **HARNESS[hn].get("env", {}))
        return subprocess.run([exe] + argv + ["--replay", os.path.abspath(path)], cwd=work, env=env).returncode
    finally:
        shutil.rmtree(work, ignore_errors=True)
