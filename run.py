#!/usr/bin/env python3
"""Builds a property's model-checking harness from /repo's working tree, explores it exhaustively
(8 shards in parallel), confirms and reports violations, and writes evidence/<id>.json.

  run.py C01                check property C01 (tier from VERIF_TIER, default quick; or --thorough)
  run.py --replay FILE      re-run one recorded violation
  run.py --build [NAME..]   only build
  run.py --setup            what MANIFEST's setup_cmd runs
"""
import array, fcntl, glob, json, os, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("ION_REPO", "/repo")
BUILD = os.environ.get("ION_MC_BUILD", os.path.join(ROOT, ".build"))
NPROC = os.cpu_count() or 4
CXX = "clang++-19"

# harness -> properties, uses (lib: all of /repo/lib; app: all of /repo/app but telemetry.cpp;
# appstats: the same without main.cpp), extra sources
SIM = ["mc/refhpack.cpp", "mc/h2.cpp", "mc/sim.cpp", "mc/srv.cpp"]
HARNESS = {
    "h_hpack": dict(props=["C01", "C02", "C03", "C04", "C05"], src=["mc/refhpack.cpp"], uses=["lib"],
                    fast_thorough=["C04"]),
    "h_conn": dict(props=["C01", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13"], src=SIM, uses=["lib"]),
    "h_server": dict(props=["C14", "C15", "C16", "C17"], src=SIM, uses=["lib"]),
    "h_tls": dict(props=["C15", "C16", "C19", "C20"], src=SIM + ["mc/tlsc.cpp"], uses=["lib"]),
    "h_static": dict(props=["C21", "C22"], src=SIM, uses=["lib"]),
    "h_router": dict(props=["C23", "C24"], src=SIM, uses=["lib"]),
    "h_applog": dict(props=["C25", "C26"], src=SIM, uses=["lib", "appstats"]),
    "h_trace": dict(props=["C30"], src=SIM, uses=["lib", "appstats"]),
    "h_app": dict(props=["C27", "C28", "C30"], src=SIM + ["mc/tlsc.cpp"], uses=["lib", "app"]),
    "h_mem": dict(props=["C29"], src=SIM + ["mc/tlsc.cpp"], uses=["lib"]),
    "h_poller": dict(props=["C18"], src=SIM, uses=["lib"]),
}
LEVEL = {}
try:
    with open(os.path.join(ROOT, "tools", "checks.json")) as f:
        CHECKS = json.load(f)
except OSError:
    CHECKS = {}

BASE_FLAGS = ("-std=gnu++23 -fPIE -DFMT_SHARED -DSPDLOG_COMPILED_LIB -DSPDLOG_FMT_EXTERNAL "
              "-DSPDLOG_SHARED_LIB -w -fno-omit-frame-pointer -gline-tables-only "
              "-D_GLIBCXX_ASSERTIONS -ftrivial-auto-var-init=pattern")
SAN = ("-O1 -fsanitize=address,undefined -fno-sanitize=vptr,function -fno-sanitize-recover=all "
       "-fsanitize-address-use-after-return=always")
FAST = "-O2"


def sh(*a, **k):
    return subprocess.run(a, **k)


def uniq(path):
    return re.sub(r"[^A-Za-z0-9_.]", "_", path)


def write_ninja(fast=False):
    """One ninja file for everything; targets are built on demand."""
    d = os.path.join(BUILD, "fast" if fast else "san")
    gen = os.path.join(d, "gen")
    os.makedirs(gen, exist_ok=True)
    tmpl = open(os.path.join(REPO, "lib", "version.h.in")).read()
    ver = re.sub(r"@[A-Z_]+@", "0.0.0-mc", tmpl)
    vf = os.path.join(gen, "version.h")
    if not os.path.exists(vf) or open(vf).read() != ver:
        open(vf, "w").write(ver)
    inc = f"-I{ROOT}/stubs -I{REPO}/app -I{REPO}/lib -I{gen} -I{ROOT}"
    san = FAST if fast else SAN
    out = [f"cxx = {CXX}", f"flags = {BASE_FLAGS} {san} {inc}",
           f"ldflags = {san} -fuse-ld=lld -rdynamic",
           "rule cxx\n  command = $cxx $flags $extra -MMD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc\n  description = CXX $in",
           "rule ld\n  command = $cxx $ldflags $in -o $out -lspdlog -lfmt -lssl -lcrypto -lpthread -ldl\n  description = LD $out",
           "pool heavy\n  depth = 8"]

    def obj(src, tag="", extra=""):
        o = os.path.join(d, "obj", tag + uniq(os.path.relpath(src, "/")) + ".o")
        if o not in seen:
            seen.add(o)
            out.append(f"build {o}: cxx {src}")
            if extra:
                out.append(f"  extra = {extra}")
        return o

    seen = set()
    lib = sorted(glob.glob(os.path.join(REPO, "lib", "**", "*.cpp"), recursive=True))
    app = sorted(p for p in glob.glob(os.path.join(REPO, "app", "**", "*.cpp"), recursive=True)
                 if os.path.basename(p) != "telemetry.cpp")
    # the slowest translation units first
    slow = ["http2_conn", "http2_server", "tls_", "router"]
    lib.sort(key=lambda p: next((i for i, s in enumerate(slow) if s in p), 99))
    bins = {}
    for h, spec in HARNESS.items():
        objs = [obj(os.path.join(ROOT, "harness", h + ".cpp")), obj(os.path.join(ROOT, "mc", "core.cpp")), obj(os.path.join(ROOT, "mc", "mem.cpp"))]
        objs += [obj(os.path.join(ROOT, s)) for s in spec["src"]]
        if "lib" in spec["uses"]:
            objs += [obj(p) for p in lib]
        if "app" in spec["uses"]:
            objs += [obj(p, extra="-Dmain=ion_app_main" if os.path.basename(p) == "main.cpp" else "") for p in app]
            objs.append(obj(os.path.join(ROOT, "mc", "telemetry_stub.cpp")))
        elif "appstats" in spec["uses"]:
            objs += [obj(p) for p in app if os.path.basename(p) != "main.cpp"]
            objs.append(obj(os.path.join(ROOT, "mc", "telemetry_stub.cpp")))
        b = os.path.join(d, h)
        bins[h] = b
        out.append(f"build {b}: ld {' '.join(objs)}")
    nf = os.path.join(d, "build.ninja")
    txt = "\n".join(out) + "\n"
    if not os.path.exists(nf) or open(nf).read() != txt:
        open(nf, "w").write(txt)
    return nf, bins, d


def build(names, fast=False):
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        nf, bins, d = write_ninja(fast)
        r = sh("ninja", "-f", nf, "-C", d, *[bins[n] for n in names], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode != 0:
            sys.stdout.write(r.stdout.decode("utf8", "replace")[-6000:])
            print("run.py: build failed")
            sys.exit(2)
    return bins


ENV = dict(os.environ,
           ASAN_OPTIONS="abort_on_error=0:exitcode=99:detect_leaks=0:handle_segv=1:allocator_may_return_null=0:"
                        "max_allocation_size_mb=2048:detect_stack_use_after_return=1:strict_string_checks=0:symbolize=1:"
                        "use_sigaltstack=1:malloc_fill_byte=171:max_malloc_fill_size=65536:quarantine_size_mb=16",
           UBSAN_OPTIONS="print_stacktrace=1:halt_on_error=1:exitcode=99", LC_ALL="C.UTF-8", TZ="UTC")
for v in ("SSLKEYLOGFILE", "ION_TLS_CERT_PATH", "ION_TLS_KEY_PATH"):
    ENV.pop(v, None)
ENV["OTEL_SDK_DISABLED"] = "true"
# exploration does not need allocation stacks (replays do)
ENV_X = dict(ENV, ASAN_OPTIONS=ENV["ASAN_OPTIONS"] + ":malloc_context_size=0")


def read_journal(path):
    try:
        raw = open(path, "rb").read()
    except OSError:
        return None, []
    a = array.array("I")
    a.frombytes(raw[:len(raw) // 4 * 4])
    if len(a) < 130:
        return None, []
    name = raw[:256].split(b"\0")[0].decode()
    n = min(a[64], len(a) - 128)
    return name, list(a[128:128 + n])


def crash_summary(text):
    for pat in (r"SUMMARY: (.*)", r"(.*runtime error: .*)", r"(mc: watchdog: .*)", r"(.*[Aa]ssertion .*)",
                r"(terminate called.*)", r"(==\d+==ERROR: .*)", r"(mc: .*)"):
        m = re.search(pat, text)
        if m:
            s = re.sub(r"0x[0-9a-f]+", "0x..", m.group(1)).strip()
            return s.replace(REPO, "/repo")[:300]
    return text.strip().splitlines()[-1][:300] if text.strip() else "process ended without a report"


class Shard:
    def __init__(self, binary, prop, tier, seed, i, n, work, budget, only=None):
        self.i, self.n = i, n
        self.out = os.path.join(work, f"s{i}.json")
        self.journal = os.path.join(work, f"s{i}.journal")
        self.log = os.path.join(work, f"s{i}.log")
        self.cmd = [binary, "--prop", prop, "--tier", tier, "--seed", str(seed), "--shard", f"{i}/{n}",
                    "--out", self.out, "--journal", self.journal, "--budget", str(budget)]
        if only:
            self.cmd += ["--only", only]

    def run(self, limit):
        for f in (self.out, self.journal, self.out + ".hashes"):
            if os.path.exists(f):
                os.unlink(f)
        with open(self.log, "wb") as lf:
            p = subprocess.Popen(self.cmd, stdout=lf, stderr=lf, stdin=subprocess.DEVNULL, env=ENV_X, start_new_session=True)
            try:
                self.rc = p.wait(limit)
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, 9)
                p.wait()
                self.rc = "timeout"
        return self

    def text(self):
        return open(self.log, "rb").read().decode("utf8", "replace")[-20000:]


def replay_case(binary, prop, tier, section, choices, work, tag, hang=60, limit=150):
    out = os.path.join(work, f"replay_{tag}.json")
    log = os.path.join(work, f"replay_{tag}.log")
    if os.path.exists(out):
        os.unlink(out)
    cmd = [binary, "--prop", prop, "--tier", tier, "--out", out, "--hang", str(hang), "--replay", section,
           ",".join(map(str, choices))]
    with open(log, "wb") as lf:
        p = subprocess.Popen(cmd, stdout=lf, stderr=lf, stdin=subprocess.DEVNULL, env=ENV, start_new_session=True)
        try:
            rc = p.wait(limit)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, 9)
            p.wait()
            rc = "timeout"
    text = open(log, "rb").read().decode("utf8", "replace")[-20000:]
    if rc == 0 and os.path.exists(out):
        return 0, json.load(open(out))["violations"], text
    return rc, [], text


def load_known():
    known, path = [], os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"known: property=(\S+) section=(\S+) key=(\S+) (.*)", line)
            if m:
                known.append(m.groups())
    return known


def check(prop, only=None):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    hs = [k for k, v in HARNESS.items() if prop in v["props"]]
    if not hs:
        print(f"run.py: no harness checks {prop}")
        sys.exit(2)
    bins = build(hs)
    tb = time.time() - t0
    work = os.path.join(BUILD, "work", prop)
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    budget = float(os.environ.get("MC_BUDGET", 420 if tier == "quick" else 780))
    shards = []
    for h in hs:
        for fast in (False, True):
            if fast and not (tier == "thorough" and prop in HARNESS[h].get("fast_thorough", [])):
                continue
            w = os.path.join(work, h + ("-fast" if fast else ""))
            os.makedirs(w)
            b = build([h], fast=True)[h] if fast else bins[h]
            for i in range(NPROC):
                s = Shard(b, prop, "exhaustive" if fast else tier, seed, i, NPROC, w, budget / len(hs), only)
                s.harness, s.binary, s.tier = h, b, "exhaustive" if fast else tier
                shards.append(s)
    with ThreadPoolExecutor(NPROC) as ex:
        list(ex.map(lambda s: s.run(budget + 60), shards))

    viol = []      # (section, key, msg, choices, replay-kind)
    errors = []
    res = []
    for s in shards:
        if s.rc == 0 and os.path.exists(s.out):
            r = json.load(open(s.out))
            r["shard_obj"] = s
            res.append(r)
            continue
        text = s.text()
        section, choices = read_journal(s.journal)
        if s.rc == 4 or section is None or section == "":
            if s.rc in (99, 77, "timeout") or (isinstance(s.rc, int) and s.rc < 0):
                section = section or "(start)"
            else:
                errors.append(f"shard {s.i}: exit {s.rc}: {text[-2000:]}")
                continue
        kind = "hang" if s.rc in (77, "timeout") else "crash"
        viol.append(dict(section=section, key=kind, msg=f"{kind}: {crash_summary(text)}", choices=choices, shard=s, crash=True, cost=0))
    for r in res:
        for v in r["violations"]:
            viol.append(dict(v, crash=False, shard=r["shard_obj"]))

    # shortest first, one per (section, key); confirm each by replaying it in a fresh process
    viol.sort(key=lambda v: (v["cost"], len(v["choices"])))
    best = {}
    for v in viol:
        best.setdefault((v["section"], v["key"]), v)
    known = load_known()
    confirmed, knowns = [], []
    todo = list(best.values())
    unknown_done = 0
    for n, v in enumerate(todo):
        k = next((k for k in known if k[0] == prop and k[1] == v["section"] and k[2] == v["key"]), None)
        if k is None and unknown_done >= 3:
            continue
        ok = False
        for t in range(2):
            rc, vs, text = replay_case(v["shard"].binary, prop, v["shard"].tier, v["section"], v["choices"], work, f"{n}")
            if v["crash"]:
                if rc not in (0, 4):
                    v["msg"] = f"{v['key']}: {crash_summary(text)}"
                    ok = True
            elif rc == 0 and any(x["key"] == v["key"] for x in vs):
                ok = True
            elif rc not in (0, 4):
                v["msg"] += f" (on replay: {crash_summary(text)})"
                ok = True
            if ok:
                break
        v["replay_kind"] = "case"
        if not ok:
            # needs the state earlier executions left behind: repeat the whole deterministic shard
            for s in [v["shard"]]:
                again = Shard.__new__(Shard)
                again.__dict__.update(s.__dict__)
                again.out, again.journal, again.log = (x + ".again" for x in (s.out, s.journal, s.log))
                again.cmd = [again.out if c == s.out else again.journal if c == s.journal else c for c in s.cmd]
                again.run(budget + 240)
                if v["crash"]:
                    ok = again.rc not in (0, 4)
                elif again.rc == 0:
                    ok = any(x["key"] == v["key"] and x["section"] == v["section"] for x in json.load(open(again.out))["violations"])
                else:
                    ok = again.rc != 4
                if ok:
                    v["replay_kind"] = "shard"
                    v["replay_shard"] = f"{s.i}/{s.n}"
                    break
        if not ok:
            errors.append(f"not reproducible: {v['section']} {v['key']} {v['msg']}")
            continue
        if k:
            knowns.append((k, v))
        else:
            confirmed.append(v)
            unknown_done += 1

    # evidence
    states, outcomes = set(), set()
    for s in shards:
        hp = s.out + ".hashes"
        if s.rc == 0 and os.path.exists(hp):
            a = array.array("Q")
            a.frombytes(open(hp, "rb").read())
            if len(a):
                ns = a[0]
                states.update(a[1:1 + ns])
                outcomes.update(a[1 + ns:])
    secs = {}
    for r in res:
        for x in r["sections"]:
            y = secs.setdefault(x["name"], dict(executions=0, transitions=0, deviation_bound=x["bound"], capped=False, max_choice_points=0))
            y["executions"] += x["executions"]
            y["transitions"] += x["transitions"]
            y["capped"] |= x["capped"]
            y["max_choice_points"] = max(y["max_choice_points"], x["max_points"])
    notes, samples = [], []
    for r in res:
        notes += [n for n in r["notes"] if n not in notes]
        samples += r["samples"][:6]
    capped = [k for k, v in secs.items() if v["capped"]]
    meta = CHECKS.get(prop, {})
    ev = dict(property=prop, tier=tier, seed=seed, level=meta.get("level", "model_checking"),
              coverage=dict(states=len(states), transitions=sum(r["transitions"] for r in res),
                            traces_validated_against_impl=sum(r["validated"] for r in res),
                            executions=sum(r["executions"] for r in res), distinct_outcomes=len(outcomes),
                            exhaustive=not capped and not errors and len(res) == len(shards),
                            capped_sections=capped, sections=secs, bounds=notes, samples=samples[:24] or ["(none)"]),
              assumptions=meta.get("assumptions", []), wall_s=round(time.time() - t0, 2),
              violations=len(confirmed), build_s=round(tb, 2), known_findings=len(knowns))
    evdir = os.environ.get("ION_MC_EVIDENCE", os.path.join(ROOT, "evidence"))
    os.makedirs(evdir, exist_ok=True)
    with open(os.path.join(evdir, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    c = ev["coverage"]
    print(f"{prop} [{tier}] executions={c['executions']} states={c['states']} transitions={c['transitions']} "
          f"validated={c['traces_validated_against_impl']} outcomes={c['distinct_outcomes']} "
          f"build={tb:.0f}s wall={ev['wall_s']}s" + (f" CAPPED: {capped}" if capped else ""))
    for k, v in knowns:
        print(f"KNOWN-FINDING: property={prop} {k[3]}")
    for e in errors:
        print("ERROR:", e)
    if confirmed:
        rpdir = os.path.join(evdir, "replays") if "ION_MC_EVIDENCE" in os.environ else os.path.join(ROOT, "replays")
        os.makedirs(rpdir, exist_ok=True)
        for n, v in enumerate(confirmed):
            path = os.path.join(rpdir, f"{prop}-{n}.json")
            with open(path, "w") as f:
                json.dump(dict(property=prop, harness=v["shard"].harness, tier=v["shard"].tier, section=v["section"], key=v["key"], message=v["msg"],
                               choices=v["choices"], kind=v["replay_kind"], shard=v.get("replay_shard")), f, indent=1)
            print(f"VIOLATION property={prop} replay={path}")
            print(f"  section {v['section']}, key {v['key']}: {v['msg']}")
        sys.exit(1)
    if errors:
        sys.exit(2)
    shutil.rmtree(work, ignore_errors=True)
    sys.exit(0)


def replay(path):
    r = json.load(open(path))
    binary = build([r["harness"]])[r["harness"]]
    work = os.path.join(BUILD, "work", "replay")
    os.makedirs(work, exist_ok=True)
    if r.get("kind") == "shard":
        s, n = r["shard"].split("/")
        sd = Shard(binary, r["property"], r["tier"], 1, int(s), int(n), work, 600).run(900)
        print(sd.text()[-4000:])
        print("exit", sd.rc)
        if sd.rc == 0:
            print(json.dumps(json.load(open(sd.out))["violations"], indent=1))
        return
    rc, vs, text = replay_case(binary, r["property"], r["tier"], r["section"], r["choices"], work, "x")
    print(text)
    print("exit", rc)
    print(json.dumps(vs, indent=1))


if __name__ == "__main__":
    a = sys.argv[1:]
    if "--thorough" in a:
        a.remove("--thorough")
        os.environ["VERIF_TIER"] = "thorough"
    if not a:
        print(__doc__)
    elif a[0] == "--replay":
        replay(a[1])
    elif a[0] == "--build":
        build(a[1:] or list(HARNESS))
    elif a[0] == "--setup":
        for tool in (CXX, "ninja", "ld.lld"):
            if not shutil.which(tool):
                sys.exit(f"missing tool {tool}")
        json.load(open(os.path.join(ROOT, "MANIFEST.json")))
        print("ok")
    else:
        check(a[0], a[1] if len(a) > 1 else None)
