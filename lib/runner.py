"""Runs the proof jobs of one property against /repo's current working tree.

Outcome per job
  proved    every obligation generated from the current source was discharged (contract mode, or direct
            mode with passing unwinding assertions), and every reachability guard was falsified
  bounded   the contract proof could not be carried out on the current shape of the code (loop annotation
            gone, helper renamed, solver out of time ...) and the bounded direct check of the same
            specification found no counterexample
  violated  an obligation fails: with a counterexample replayed on the real code (gcc + ASan), or without
  error     nothing could be decided
"""
import concurrent.futures as cf, json, os, re, resource, shutil, signal, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
INC = ["src/util", "src", "src/verifier", "src/prover", "src/chains/eth", "src/chains/eth/verifier", "src/chains/eth/ssz",
       "src/chains/eth/prover", "src/chains/eth/zk_verifier", "src/chains/eth/bn254", "src/chains/eth/precompiles",
       "libs/crypto", "libs/intx"]
CBMC_FLAGS = ["--no-signed-overflow-check", "--no-undefined-shift-check", "--no-pointer-primitive-check",
              "--no-malloc-may-fail", "--object-bits", "12"]
# classes of automatically generated checks that are not obligations of any listed property
IGNORED = re.compile(r"\.(pointer_arithmetic|overflow|undefined-shift|enum-range-check|bit_count|NaN)\.\d+$")
# failures that say "this shape of the code is outside the annotations", not "the property is broken"
STRUCT = re.compile(r"(VPS:|loop_assigns|loop_step_unwinding|unwind|recursion|\.assigns\.)")
MEM = 7 * 1024 ** 3


def incs():
    r = ["-I%s/lib" % VERIF, "-I%s/contracts" % VERIF, "-I%s/stubs" % VERIF]
    return r + ["-I%s/%s" % (REPO, i) for i in INC if os.path.isdir("%s/%s" % (REPO, i))]


def base_defs():
    """the compile definitions of the real build (cmake -DTEST=ON -DPROVER_CACHE=ON -DEVMONE=OFF)"""
    return ["-DBLOCK_HASH_CACHE", "-DBLS_DESERIALIZE", '-DC4_VERSION="0.1.0-dev"', "-DCHAIN_ETH", "-DETH_ZKPROOF", "-DFILE_STORAGE",
            "-DMESSAGES", "-DPRECOMPILE_ZERO_HASHES", "-DPROVER", "-DPROVER_CACHE", "-DTEST", "-DWITNESS_SIGNER",
            '-DVERIFIERS_PATH="%s/stubs/verifiers.h"' % VERIF, '-DPROVERS_PATH="%s/stubs/provers.h"' % VERIF,
            '-DCHAIN_PROPS_PATH="%s/stubs/chain_props.h"' % VERIF]


PROCS = set()
STOP = threading.Event()  # a failing input was replayed: no need to go on


def stop_all():
    STOP.set()
    with PL:
        for p in list(PROCS):
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass


PL = threading.Lock()


def sh(cmd, timeout, cwd=None, mem=MEM):
    """-> (rc, out, seconds); rc 'timeout' when the time ran out"""
    def pre():
        os.setsid()
        resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
    t = time.time()
    if STOP.is_set():
        return "timeout", "", 0.0
    try:
        p = subprocess.Popen(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, preexec_fn=pre)
    except FileNotFoundError as e:
        return 127, str(e), 0.0
    with PL:
        PROCS.add(p)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out.decode("utf-8", "replace"), time.time() - t
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        p.communicate()
        return "timeout", "", time.time() - t
    finally:
        with PL:
            PROCS.discard(p)


def defflag(d):
    return "-U%s" % d[1:] if d.startswith("!") else "-D%s" % d


class Res:
    def __init__(self):
        self.rc = None; self.props = []; self.fail = []; self.open = []; self.unreach = []; self.ok = 0; self.reach = 0
        self.why = ""; self.secs = 0.0; self.cmds = []; self.values = []; self.log = ""; self.status = "error"; self.nobody = []; self.guards = {}


def parse_cbmc(out, res):
    try:
        js = json.loads(out)
    except ValueError:
        # a trailing message may be cut by a crash
        res.why = "unreadable verifier output: " + out[-300:].replace("\n", " ")
        return False
    msgs = []
    found = False
    for e in js:
        if isinstance(e, dict) and "messageText" in e and e.get("messageType") in ("ERROR", "WARNING"):
            msgs.append(e["messageText"])
            m = re.search(r"no body for (?:function|callee) '?([A-Za-z0-9_]+)", e["messageText"])
            if m and not m.group(1).startswith("nondet_"):
                res.nobody.append(m.group(1))
        if isinstance(e, dict) and "result" in e:
            found = True
            for p in e["result"]:
                d, st, name = p.get("description", ""), p.get("status"), p.get("property", "")
                if d.startswith("VP_REACH:"):
                    # a guard may be instantiated several times (inlining): one reachable copy is enough
                    seen = res.guards.setdefault(d, False)
                    res.guards[d] = seen or st == "FAILURE"
                    continue
                if IGNORED.search(name):
                    continue
                loc = p.get("sourceLocation", {})
                rec = {"name": name, "desc": d, "status": st, "file": loc.get("file", ""), "line": loc.get("line", ""),
                       "function": loc.get("function", "")}
                if st == "SUCCESS":
                    res.ok += 1
                elif st == "FAILURE":
                    rec["trace"] = p.get("trace")
                    res.fail.append(rec)
                else:
                    res.open.append(name)
    res.reach = len(res.guards)
    res.unreach = [d for d, ok in res.guards.items() if not ok]
    res.log = "\n".join(msgs)
    if not found:
        res.why = "verifier gave no result: " + " | ".join(msgs)[-400:]
    return found


def drawn_values(trace):
    vals = []
    for s in trace or []:
        if s.get("stepType") == "assignment" and s.get("lhs") == "vp_drawn" and s.get("sourceLocation", {}).get("function", "").startswith("vp_draw"):
            v = s.get("value", {})
            b = v.get("binary")
            if b is not None:
                vals.append(int(b, 2))
            else:
                d = re.sub(r"[^0-9-]", "", v.get("data", "0")) or "0"
                vals.append(int(d) & (2 ** 64 - 1))
    return vals


def compile_goto(job, mode, cfg, wd):
    defs = ["-D%s" % mode] + [defflag(d) for d in job.get("defs", []) + cfg.get("defs", [])]
    if mode == "VP_T1":
        defs.append("-DC4_VERIFY")
    srcs = ["%s/%s" % (VERIF, job["file"])] + ["%s/%s" % (REPO, s) for s in cfg.get("srcs", [])]
    cmd = ["goto-cc"] + base_defs() + defs + incs() + ["--function", cfg["harness"]] + srcs + ["-o", "a.gb"]
    return cmd, sh(cmd, 120, cwd=wd)


def cbmc(res, cfg, gb, wd, trace, unwind_assert=True, extra=()):
    cmd = ["cbmc", "--json-ui"] + CBMC_FLAGS + list(cfg.get("flags", [])) + list(extra)
    if cfg.get("unwind"):
        cmd += ["--unwind", str(cfg["unwind"])]
    us = {"vp_draw_const.0": 4097, "vp_draw_object.0": 4097, "memcmp.0": 180}
    if cfg.get("hunwind"):  # loops of the harness itself (concrete): own bound
        o = sh(["goto-instrument", "--show-loops", gb], 120, cwd=wd)[1]
        for i, f in re.findall(r"^Loop (\S+):\s*\n\s*file (\S+)", o, re.M):
            if f.startswith(VERIF) or f.startswith("units/"):
                us.setdefault(i, cfg["hunwind"])
    us.update(cfg.get("unwindset", {}))
    for k, v in us.items():
        cmd += ["--unwindset", "%s:%d" % (k, v)]
    cmd += ["--unwinding-assertions"] if unwind_assert else ["--no-unwinding-assertions"]
    if cfg.get("solver") == "cvc5":
        cmd += ["--cvc5"]
    elif cfg.get("solver") == "z3":
        cmd += ["--z3"]
    else:
        cmd += ["--sat-solver", cfg.get("solver", "minisat2" if trace else "cadical")]
    if trace:
        cmd += ["--trace"]
    cmd += [gb]
    rc, out, s = sh(cmd, cfg.get("timeout", 300), cwd=wd)
    res.secs += s
    res.cmds.append(" ".join(cmd))
    if rc == "timeout":
        res.why = "verifier time-out after %ds" % cfg.get("timeout", 300)
        res.status = "timeout"
        return False
    return parse_cbmc(out, res)


def finish(res, min_ob):
    if res.fail:
        res.status = "fail"
    elif res.open:
        res.status = "error"; res.why = "undecided: " + ", ".join(res.open[:5])
    elif res.unreach:
        res.status = "error"; res.why = "vacuous: not reachable: " + "; ".join(res.unreach)
    elif res.ok < min_ob:
        res.status = "error"; res.why = "only %d obligations generated (expected at least %d)" % (res.ok, min_ob)
    else:
        res.status = "ok"
    return res


def prepare(res, cfg, wd, contracts):
    """a.gb -> b.gb: drop what the harness does not reach, unwind loops without contract, apply contracts"""
    steps = [["goto-instrument", "--drop-unused-functions", "a.gb", "a1.gb"]] if not cfg.get("calls") else [["cp", "a.gb", "a1.gb"]]
    cur = "a1.gb"
    rc, out, _ = sh(steps[0], 120, cwd=wd)
    res.cmds.append(" ".join(steps[0]))
    if rc != 0:
        res.why = "goto-instrument failed: " + out[-800:]; res.status = "build"
        return None
    if cfg.get("calls"):
        """calls of a function are replaced by calls of its contract function (assert pre, havoc frame, assume post)"""
        cmd = ["goto-instrument"]
        for f, g in cfg["calls"].items():
            cmd += ["--replace-calls", "%s:%s" % (f, g)]
        cmd += [cur, "a1c.gb"]
        rc, out, _ = sh(cmd, 120, cwd=wd)
        res.cmds.append(" ".join(cmd))
        if rc == 0:
            rc, out, _ = sh(["goto-instrument", "--drop-unused-functions", "a1c.gb", "a1d.gb"], 120, cwd=wd)
        if rc != 0:
            res.why = "replacing calls failed: " + out[-800:]; res.status = "build"
            return None
        cur = "a1d.gb"
    if not contracts:
        return cur
    if cfg.get("loops"):
        rc, out, _ = sh(["goto-instrument", "--show-loops", cur], 120, cwd=wd)
        ids = [i for i in re.findall(r"^Loop (\S+):", out, re.M) if i.rsplit(".", 1)[0] not in cfg["loops"] and i not in cfg["loops"]]
        if ids:
            u = cfg.get("unwindset", {})
            cmd = ["goto-instrument", "--unwindset", ",".join("%s:%d" % (i, u.get(i, cfg.get("unwind", 10))) for i in ids), "--unwinding-assertions", cur, "a2.gb"]
            rc, out, _ = sh(cmd, 120, cwd=wd)
            res.cmds.append(" ".join(cmd))
            if rc != 0:
                res.why = "unwinding failed: " + out[-800:]; res.status = "build"
                return None
            cur = "a2.gb"
    cmd = ["goto-instrument"]
    for f in cfg.get("enforce", []):
        cmd += ["--enforce-contract", f]
    for f in cfg.get("replace", []):
        cmd += ["--replace-call-with-contract", f]
    if cfg.get("loops"):
        cmd += ["--apply-loop-contracts"]
    if len(cmd) > 1:
        cmd += [cur, "b.gb"]
        rc, out, _ = sh(cmd, 120, cwd=wd)
        res.cmds.append(" ".join(cmd))
        if rc != 0:
            res.why = "contract instrumentation failed: " + out[-800:]; res.status = "build"
            return None
        cur = "b.gb"
    return cur


def run_t1(job, trace=False):
    cfg, res = job["t1"], Res()
    wd = tempfile.mkdtemp(prefix="vp_")
    try:
        cmd, (rc, out, s) = compile_goto(job, "VP_T1", cfg, wd)
        res.cmds.append(" ".join(cmd))
        if rc != 0:
            res.why = "contract build failed: " + out[-800:]; res.status = "build"; return res
        gb = prepare(res, cfg, wd, True)
        if not gb or not cbmc(res, cfg, gb, wd, trace=trace):
            return res
        return finish(res, cfg.get("min", 3))
    finally:
        shutil.rmtree(wd, ignore_errors=True)


def run_t2(job, unwind_assert):
    cfg, res = job["t2"], Res()
    wd = tempfile.mkdtemp(prefix="vp_")
    try:
        cmd, (rc, out, s) = compile_goto(job, "VP_T2", cfg, wd)
        res.cmds.append(" ".join(cmd))
        if rc != 0:
            res.why = "direct build failed: " + out[-800:]; res.status = "build"; return res
        gb = prepare(res, cfg, wd, False)
        if not gb or not cbmc(res, cfg, gb, wd, trace=True, unwind_assert=unwind_assert):
            return res
        for f in res.fail:
            f["values"] = drawn_values(f.pop("trace", None))
        return finish(res, cfg.get("min", 1))
    finally:
        shutil.rmtree(wd, ignore_errors=True)


def native(job, values, replay_path):
    """compile the harness with the real code, feed the counterexample -> (reproduced, text)"""
    cfg = job["t2"]
    if cfg.get("native") is False:
        return None, "no native replay for this unit"
    wd = tempfile.mkdtemp(prefix="vp_")
    try:
        open(wd + "/in.txt", "w").write("\n".join(str(v) for v in values) + "\n")
        defs = ["-DVP_NATIVE", "-DVP_T2", "-DVP_HARNESS=%s" % cfg["harness"]] + [defflag(d) for d in job.get("defs", []) + cfg.get("defs", []) if d != "union=struct"]
        cc = ["gcc", "-g", "-O1", "-w", "-fsanitize=address", "-fno-omit-frame-pointer", "-ffunction-sections", "-fdata-sections", "-Wl,--gc-sections"]
        sup = [VERIF + "/lib/" + s for s in ("native_main.c", "native_hash.c", "native_stubs.c")] + ["%s/libs/crypto/%s" % (REPO, s) for s in ("sha2.c", "sha3.c", "memzero.c")]
        own = ["%s/%s" % (VERIF, s) for s in [job["file"]] + cfg.get("nsrcs", [])] + ["%s/%s" % (REPO, s) for s in cfg.get("srcs", []) + cfg.get("nrepo", [])]
        objs = []
        for i, (f, d) in enumerate([(f, ["-DVP_HARNESS=%s" % cfg["harness"]]) for f in sup] + [(f, defs) for f in own]):
            rc, out, _ = sh(cc + base_defs() + d + incs() + ["-c", f, "-o", "n%d.o" % i], 120, cwd=wd, mem=resource.RLIM_INFINITY)
            if rc != 0:
                return None, "native build failed: " + out[-600:]
            objs.append("n%d.o" % i)
        rc, out, _ = sh(cc + objs + ["-no-pie", "-Wl,--unresolved-symbols=ignore-all", "-lm", "-o", "replay"], 120, cwd=wd, mem=resource.RLIM_INFINITY)
        if rc != 0:
            return None, "native link failed: " + out[-600:]
        os.environ["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=99"
        rc, out, _ = sh([wd + "/replay", wd + "/in.txt"], 60, cwd=wd, mem=resource.RLIM_INFINITY)
        bad = "VP-REPLAY-STUB" not in out and "pc 0x000000000000" not in out and ("VP-REPLAY-FAIL" in out or "AddressSanitizer" in out or rc == "timeout" or (isinstance(rc, int) and rc < 0))
        return bad, "exit %s\n%s" % (rc, out[-4000:])
    finally:
        shutil.rmtree(wd, ignore_errors=True)


def is_struct(f):
    return bool(STRUCT.search(f["name"]) or STRUCT.search(f["desc"]))


def is_hard(fails):
    """an obligation of the specification fails, and the proof attempt was well formed"""
    return bool(fails) and not any(is_struct(f) for f in fails)


def run_job(job, tier):
    o = {"job": job["name"], "functions": job.get("fns", []), "what": job.get("what", ""), "status": "error", "detail": "",
         "obligations": 0, "discharged": 0, "reach": 0, "secs": 0.0, "mode": "", "cmds": [], "backend": ""}
    t1 = job.get("t1"); t2 = job.get("t2")
    r1 = None
    if t1:
        r1 = run_t1(job)
        o["nobody"] = sorted(set(r1.nobody)); o["cmds"] += r1.cmds; o["secs"] += r1.secs; o["reach"] = r1.reach
        o["obligations"] = r1.ok + len(r1.fail); o["discharged"] = r1.ok; o["backend"] = t1.get("solver", "cadical (SAT)")
        o["mode"] = "contract"
        if r1.status == "ok":
            o["status"] = "proved"
            if not (tier == "thorough" and t2):
                return o
    if not t2:
        o["status"] = "violated-noinput" if r1 is not None and r1.status == "fail" and is_hard(r1.fail) else o["status"] if o["status"] == "proved" else "error"
        o["detail"] = (r1.why if r1 else "") + " " + "; ".join("%s %s (%s:%s)" % (f["name"], f["desc"], f["file"], f["line"]) for f in (r1.fail if r1 else [])[:20])
        o["failed"] = [{k: f[k] for k in ("name", "desc", "file", "line")} for f in (r1.fail if r1 else [])]
        if o["status"] == "error" and job.get("covered"):
            # the annotations do not fit the shape of the code any more: the direct checks of the same functions decide
            o["status"] = "bounded"
            o["detail"] = "contract proof not carried out (%s); decided by the direct checks of the same functions" % o["detail"][:600]
        return o
    complete = t2.get("complete", False)
    r2 = run_t2(job, unwind_assert=complete)
    o["secs"] += r2.secs; o["cmds"] += r2.cmds; o["nobody"] = sorted(set(o.get("nobody", []) + r2.nobody))
    if complete and r2.status == "fail" and all("unwind" in f["name"] or "recursion" in f["name"] for f in r2.fail):
        r2b = run_t2(job, unwind_assert=False)
        o["secs"] += r2b.secs
        r2b.why = (r2b.why + " unwinding bound exceeded: bounded").strip()
        r2 = r2b; complete = False
    if not t1:
        o["obligations"] = r2.ok + len(r2.fail); o["discharged"] = r2.ok; o["reach"] = r2.reach
        o["backend"] = t2.get("solver", "minisat2 (SAT)"); o["mode"] = "direct"
    else:
        o["direct"] = {"obligations": r2.ok + len(r2.fail), "discharged": r2.ok, "bounded": not complete}
    if r2.status == "ok":
        if o["status"] == "proved":
            return o
        if not t1 and complete:
            o["status"] = "bounded" if job.get("bounded") else "proved"
            o["detail"] = "every input within the stated bound, all loops unwound completely" if job.get("bounded") else ""
            return o
        if r1 is not None and r1.status == "fail" and is_hard(r1.fail) and not job.get("t2_decides"):
            o["status"] = "violated-noinput"
            o["failed"] = [{k: f[k] for k in ("name", "desc", "file", "line")} for f in r1.fail]
            o["detail"] = "contract obligation failed; bounded direct check found no failing input: " + "; ".join(
                "%s %s (%s:%s)" % (f["name"], f["desc"], f["file"], f["line"]) for f in r1.fail[:20])
            return o
        o["status"] = "bounded"
        o["detail"] = "contract proof not carried out (%s); bounded direct check passed" % (r1.why or "; ".join(f["name"] for f in r1.fail))[:600] if r1 else "bounded check passed " + r2.why
        return o
    if r2.status == "fail":
        o["failed"] = [{k: f[k] for k in ("name", "desc", "file", "line")} for f in r2.fail]
        tries = sorted(r2.fail, key=lambda f: 0 if f["desc"].startswith("VP:") else 1)
        txt = ""
        for f in tries[:4]:
            ok, t = native(job, f.get("values", []), None)
            txt += "--- obligation %s: %s (%s:%s)\nnative replay: %s\n" % (f["name"], f["desc"], f["file"], f["line"], t)
            if ok:
                o["status"] = "violated"; o["values"] = f["values"]; o["detail"] = txt
                return o
        o["status"] = "violated-noinput"
        o["values"] = tries[0].get("values", [])
        o["detail"] = "counterexample of the verifier not reproduced natively\n" + txt
        return o
    if o["status"] == "proved":
        o["detail"] = "direct check undecided: " + r2.why
        return o
    if r1 is not None and r1.status == "fail" and is_hard(r1.fail):
        o["status"] = "violated-noinput"
        o["failed"] = [{k: f[k] for k in ("name", "desc", "file", "line")} for f in r1.fail]
        o["detail"] = "contract obligation failed: " + "; ".join("%s %s (%s:%s)" % (f["name"], f["desc"], f["file"], f["line"]) for f in r1.fail[:20])
        return o
    o["status"] = "error"
    o["detail"] = "contract: %s / direct: %s" % ((r1.why or [f["name"] for f in r1.fail]) if r1 else "-", r2.why)
    return o
