"""Building the replay driver against /repo, running TLC, replaying behaviours.  Used by tools/check.py."""
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import threading
import time
import xml.etree.ElementTree as ET
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("XKCP_REPO", "/repo")
B = os.environ.get("XKCP_BUILD", f"{VERIF}/build")
XI = "{http://www.w3.org/2001/XInclude}include"
NCPU = os.cpu_count() or 4


class ToolError(Exception):
    """Something other than the property failed: the check gives no answer."""


# ---------------------------------------------------------------------------------------------------------------------
# The library, from its own build description
# ---------------------------------------------------------------------------------------------------------------------
TOOLS = {  # name -> (compiler, compile flags, link flags, run prefix)
    "x86_64": ("gcc", [], [], []),
    "native": ("gcc", ["-march=native", "-mtune=native"], [], []),
    "clang": ("clang", ["-Wno-error=implicit-function-declaration"], [], []),
    "msan": ("clang", ["-fsanitize=memory", "-g", "-Wno-error=implicit-function-declaration"], ["-fsanitize=memory"], []),
    "tsan": ("gcc", ["-fsanitize=thread", "-g"], ["-fsanitize=thread"], []),
    "asan": ("gcc", ["-fsanitize=address,bounds", "-fno-sanitize-recover=bounds", "-g"], ["-fsanitize=address,bounds"], []),
    "i686": ("i686-linux-gnu-gcc", ["-msse2"], ["-static"], []),
    "armv6": ("arm-linux-gnueabi-gcc", ["-march=armv6", "-mtune=arm1136j-s"], ["-static"], ["qemu-arm-static"]),
    "armv6t2": ("arm-linux-gnueabi-gcc", ["-march=armv6t2"], ["-static"], ["qemu-arm-static"]),
    "armv7a": ("arm-linux-gnueabi-gcc", ["-march=armv7-a", "-mtune=cortex-a15"], ["-static"], ["qemu-arm-static"]),
    "aarch64": ("aarch64-linux-gnu-gcc", ["-march=armv8.6-a", "-mtune=cortex-a75"], ["-static"], ["qemu-aarch64-static"]),
}

_frag = None
_lock = threading.Lock()


def fragments():
    global _frag
    if _frag is None:
        found = {}

        def walk(node):
            for child in node:
                if child.tag == XI:
                    p = f"{REPO}/{child.get('href')}"
                    walk(ET.parse(p).getroot())
                elif child.tag == "fragment":
                    found[child.get("name")] = child
                else:
                    walk(child)

        walk(ET.parse(f"{REPO}/Makefile.build").getroot())
        _frag = found
    return _frag


def resolve(names):
    seen, out = set(), []

    def visit(name):
        if name in seen:
            return
        seen.add(name)
        node = fragments()[name]
        for parent in (node.get("inherits") or "").split():
            visit(parent)
        for e in node:
            if isinstance(e.tag, str):
                item = (e.tag, (e.text or "").strip(), e.get("gcc") or "")
                if item not in out:
                    out.append(item)

    for n in names:
        visit(n)
    return out


_tree = None


def tree_hash():
    """Of everything the compilation of the library and of the driver can read."""
    global _tree
    with _lock:
        if _tree is None:
            h = hashlib.sha1()
            for root in (f"{REPO}/lib", f"{REPO}/Makefile.build", f"{REPO}/tests/UnitTests", f"{REPO}/Standalone", f"{REPO}/util", f"{VERIF}/driver"):
                files = [root] if os.path.isfile(root) else sorted(
                    os.path.join(d, f) for d, _, fs in os.walk(root) for f in fs)
                for f in files:
                    h.update(f.encode())
                    with open(f, "rb") as fh:
                        h.update(fh.read())
            _tree = h.hexdigest()
    return _tree


POOL = ThreadPoolExecutor(NCPU)
_jobs = {}


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


RENAME = [f"--rename-section=.{s}=xk{t},alloc,load,data,contents" for s, t in
          (("data", "data"), ("data.rel.local", "data"), ("data.rel", "data"), ("bss", "bss"))]


def _compile(cmd, out, out_last=False):
    if os.path.exists(out):
        return out
    os.makedirs(os.path.dirname(out), exist_ok=True)
    tmp = f"{out}.{os.getpid()}.{threading.get_ident()}.tmp"
    r = run(cmd + ([tmp] if out_last else ["-o", tmp]), cwd=REPO)
    if r.returncode:
        raise ToolError(f"compilation failed: {' '.join(cmd)}\n{r.stdout[-3000:]}")
    os.replace(tmp, out)
    return out


def _submit(cmd, out):
    with _lock:
        if out not in _jobs:
            _jobs[out] = POOL.submit(_compile, cmd, out)
        return _jobs[out]


class Target:
    """A selection of low-level fragments for one compiler."""

    def __init__(self, name, tool, low, extra=(), sources=()):
        self.name, self.tool, self.low, self.extra, self.sources = name, tool, low.split(), list(extra), list(sources)


class Program:
    """An implementation in another language, or a program that the library comes with, replayed by tools/programs.py."""

    def __init__(self, name, kind, path=None, target=None, high=None):
        self.name, self.kind, self.path, self.target, self.high = name, kind, path, target, high

    def build(self):
        return binary(self.target, self.high, "", main=None) if self.target else None

    def replay(self, path, impl=None, seconds=600):
        try:
            e = dict(os.environ, PROGRAM_PREFIX=" ".join(TOOLS[self.target.tool][3]) if self.target else "", ASAN_OPTIONS="detect_leaks=0")
            r = run(["python3-vt", f"{VERIF}/tools/programs.py", self.kind, impl or f"{REPO}/{self.path}", path], timeout=seconds, env=e)
        except subprocess.TimeoutExpired:
            return dict(ok=False, target=self.name, behaviours=0, calls=0, detail="no answer in time")
        m = re.search(r"REPLAYED behaviours=(\d+) calls=(\d+) failed=(\d+)", r.stdout)
        if not m:
            raise ToolError(f"{self.name}: {r.stdout[-2000:]}")
        bad = [l for l in r.stdout.splitlines() if l.startswith("MISMATCH")]
        return dict(ok=r.returncode == 0, target=self.name, behaviours=int(m.group(1)), calls=int(m.group(2)), detail=bad[0] if bad else "")


def binary(target, high, ops, defines=(), main="drv.c", extra=(), watch=False):
    """Schedules the build of driver/<main> with the operations `ops` on library parts `high` for `target`.
    Gives a function that waits for the binary and returns its path."""
    if isinstance(target, Program):
        return target.build()
    cc, cflags, ldflags, _ = TOOLS[target.tool]
    items = resolve(high.split() + target.low)
    config = "".join(f"#define {t}\n" for tag, t, _ in items if tag == "config")
    gcc = [t for tag, t, _ in items if tag == "gcc" and not t.endswith("=native") and not t.startswith("-l")]
    if "-O2" not in gcc:
        gcc.append("-O2" if target.tool != "tsan" else "-O1")
    gas = [f for tag, t, _ in items if tag == "gas" for f in t.split()]
    dirs = list(dict.fromkeys(os.path.dirname(t) for tag, t, _ in items if tag in ("h", "inc")))
    defs = [f"-D{t}" for tag, t, _ in items if tag == "define"]
    th = tree_hash()
    conf = f"{B}/conf/{hashlib.sha1(config.encode()).hexdigest()[:12]}"
    os.makedirs(conf, exist_ok=True)
    if not os.path.exists(f"{conf}/config.h"):
        with open(f"{conf}/config.h.{os.getpid()}", "w") as f:
            f.write(config)
        os.replace(f"{conf}/config.h.{os.getpid()}", f"{conf}/config.h")
    incs = [f"-I{conf}"] + [f"-I{REPO}/{d}" for d in dirs]
    futures = []

    def add(src, flags):
        cmd = [cc, *flags, "-c", src]
        key = hashlib.sha1((th + "\0".join(cmd)).encode()).hexdigest()[:20]
        futures.append(_submit(cmd, f"{B}/obj/{key}.o"))

    for tag, src, own in items:
        if tag == "c":
            add(f"{REPO}/{src}", [*gcc, *own.split(), *defs, *cflags, *target.extra, *extra, *incs, "-w"])
        elif tag == "s":
            add(f"{REPO}/{src}", ["-x", "assembler", *gas, *[f for f in cflags if not f.startswith("-fsan")]])
    for src in target.sources:
        add(f"{REPO}/{src}", ["-O2", *cflags, *target.extra, *extra, "-w"])
    own = range(len(futures), 1000)
    for src in ([main] if main else []) + [f"ops_{o}.c" for o in ops.split()]:
        add(f"{VERIF}/driver/{src}", ["-O1", "-g0", *[f"-D{d}" for d in defines], *defs, *cflags, *target.extra, *extra, *incs,
                                       f"-I{VERIF}/driver", "-w", *(["-mfpu=neon"] if "-mfpu=neon" in gcc else [])])

    def finish():
        objs = [f.result() for f in futures]
        if watch:       # the library's writable data in sections of its own
            objs = [o if k in own else _compile(["objcopy", *RENAME, o], o[:-2] + ".w.o", out_last=True) for k, o in enumerate(objs)]
        key = hashlib.sha1((th + "\0".join(objs) + target.tool).encode()).hexdigest()[:20]
        out = f"{B}/bin/{target.name.replace('/', '_')}.{key}"
        _compile([cc, *objs, *ldflags, "-lpthread", "-lm"], out)
        return out

    return finish


# ---------------------------------------------------------------------------------------------------------------------
# TLC
# ---------------------------------------------------------------------------------------------------------------------
TLAJAR = "/opt/veriftools/tla/tla2tools.jar"
CMJAR = "/opt/veriftools/tla/CommunityModules-deps.jar"
CON = dict(Width="CWidth", Perm="CPerm", XorS="CXorS", XorAt="CXorAt", Byt="CByt", Low="CLow", Data="CData")
SYM = dict(Width="SWidth", Perm="SPerm", XorS="SXorS", XorAt="SXorAt", Byt="SByt", Low="SLow", Data="SData")


def java_classes():
    src = f"{VERIF}/java/tlc2/overrides/XkcpOverrides.java"
    with open(src, "rb") as f:
        key = hashlib.sha1(f.read()).hexdigest()[:16]
    out = f"{B}/classes.{key}"
    with _lock:
        if not os.path.exists(out):
            tmp = f"{out}.{os.getpid()}"
            os.makedirs(tmp, exist_ok=True)
            r = run(["javac", "-nowarn", "-cp", TLAJAR, "-d", tmp, src])
            if r.returncode:
                raise ToolError("javac: " + r.stdout)
            try:
                os.replace(tmp, out)
            except OSError:
                shutil.rmtree(tmp, ignore_errors=True)
    return out


_n = [0]


def tlc(module, consts=None, subst=None, invariants=(), properties=(), workers=4, emit=None, timeout=1800, spec="Spec",
        overrides=True, heap="6g", constraint=None, extra="", specdir=None, checkdeadlock=False, view=None):
    """Runs TLC on spec/<module>.tla.  Returns dict(ok, states, distinct, out, violated)."""
    with _lock:
        _n[0] += 1
        n = _n[0]
    work = f"{B}/tlc/{os.getpid()}.{n}.{module}"
    os.makedirs(work, exist_ok=True)
    cfg = []
    for k, v in (consts or {}).items():
        if isinstance(v, bool):
            v = "TRUE" if v else "FALSE"
        cfg.append(f"CONSTANT {k} = {v}")
    for k, v in (subst or {}).items():
        cfg.append(f"CONSTANT {k} <- {v}")
    if spec:
        cfg.append(f"SPECIFICATION {spec}")
    cfg += [f"INVARIANT {i}" for i in invariants] + [f"PROPERTY {p}" for p in properties]
    if constraint:
        cfg.append(f"CONSTRAINT {constraint}")
    if view:
        cfg.append(f"VIEW {view}")
    cfg.append(f"CHECK_DEADLOCK {'TRUE' if checkdeadlock else 'FALSE'}")
    if extra:
        cfg.append(extra)
    with open(f"{work}/{module}.cfg", "w") as f:
        f.write("\n".join(cfg) + "\n")
    ov = "tlc2.overrides.XkcpOverrides:" if overrides else ""
    path = f"{java_classes()}:" if overrides else ""
    cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=4", "-Xss64m", f"-Xmx{heap}", f"-Djava.io.tmpdir={work}"]
    if emit:
        cmd.append(f"-Dxkcp.emit={emit}")
    libs = f"{VERIF}/spec"
    cmd += [f"-DTLA-Library={libs}", f"-Dtlc2.overrides.TLCOverrides={ov}tlc2.overrides.CommunityModules",
            "-cp", f"{path}{TLAJAR}:{CMJAR}", "tlc2.TLC", "-metadir", f"{work}/meta", "-workers", str(workers),
            "-noGenerateSpecTE", "-config", f"{work}/{module}.cfg", f"{specdir or libs}/{module}.tla"]
    t0 = time.time()
    try:
        r = run(cmd, cwd=work, timeout=timeout)
        out, rc = r.stdout, r.returncode
    except subprocess.TimeoutExpired:
        raise ToolError(f"TLC on {module} ran out of time ({timeout} s)")
    finally:
        shutil.rmtree(f"{work}/meta", ignore_errors=True)
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
    d = re.search(r"depth of the complete state graph search is (\d+)", out)
    res = dict(module=module, ok=rc == 0, rc=rc, out=out, states=int(m[-1][1]) if m else 0,
               transitions=int(m[-1][0]) if m else 0, depth=int(d.group(1)) if d else 0, wall=round(time.time() - t0, 1),
               consts={k: str(v) for k, v in (consts or {}).items()})
    viol = re.search(r"(Invariant|Action property|Temporal properties|property) ?(\w*) ?(is|was|were) violated", out)
    res["violated"] = viol.group(0) if viol else None
    if rc == 0:
        shutil.rmtree(work, ignore_errors=True)
    return res


def must(res):
    """A model that does not satisfy its own invariants is an error of the machinery."""
    if not res["ok"]:
        raise ToolError(f"TLC on {res['module']} ended with {res['rc']}:\n" + res["out"][-4000:])
    return res


def generate(module, consts, subst, name, invariants=("InstancesOK",), workers=4, timeout=1800, heap="6g", con=True):
    """Behaviours of the specification: runs TLC on a generator module; returns (tlc result, path of the sorted file)."""
    os.makedirs(f"{B}/gen", exist_ok=True)
    raw = f"{B}/gen/{os.getpid()}.{name}.raw"
    s = dict(CON) if con else {}
    s.update(subst)
    res = must(tlc(module, consts, s, invariants, workers=workers, emit=raw, timeout=timeout, heap=heap))
    seen, lines = set(), []
    with open(raw) as f:
        for line in f:
            a, b, _ = line.split(" ", 2)
            lines.append((int(a), int(b), line))
    os.unlink(raw)
    lines.sort()
    out = f"{B}/gen/{os.getpid()}.{name}.txt"
    prev = None
    with open(out, "w") as f:
        for a, b, line in lines:
            if (a, b) == prev:
                raise ToolError(f"two different calls at behaviour {a} step {b}")
            prev = (a, b)
            seen.add(a)
            f.write(line)
    res["behaviours"], res["calls"] = len(seen), len(lines)
    return res, out


# ---------------------------------------------------------------------------------------------------------------------
# Replay
# ---------------------------------------------------------------------------------------------------------------------
def replay(target, binpath, path, args=(), seconds=300, env=None):
    """Replays the behaviours in `path`.  Returns dict(ok, behaviours, calls, detail)."""
    prefix = TOOLS[target.tool][3]
    for attempt in (1, 2):
        try:
            e = dict(os.environ, ASAN_OPTIONS="detect_leaks=0")
            e.update(env or {})
            r = run(prefix + [binpath, "-t", str(seconds), *args, path], timeout=seconds + 60, env=e)
            out, rc = r.stdout, r.returncode
        except subprocess.TimeoutExpired as ex:
            out, rc = (ex.stdout or b"").decode(errors="replace") if isinstance(ex.stdout, bytes) else (ex.stdout or ""), 124
            return dict(ok=False, target=target.name, behaviours=0, calls=0, detail="no answer in time " + out[-300:], out=out)
        m = re.search(r"REPLAYED behaviours=(\d+) calls=(\d+) failed=(\d+)", out)
        if rc == 0 and m:
            return dict(ok=True, target=target.name, behaviours=int(m.group(1)), calls=int(m.group(2)), out=out)
        if rc == 1 or re.search(r"^(MISMATCH|CRASH)", out, re.M) or rc < 0 or rc in (66,):
            bad = [l for l in out.splitlines() if l.startswith(("MISMATCH", "CRASH"))]
            return dict(ok=False, target=target.name, behaviours=int(m.group(1)) if m else 0, calls=int(m.group(2)) if m else 0,
                        detail=bad[0] if bad else f"exit {rc}: {out[-1500:]}", bad=bad, out=out)
    raise ToolError(f"driver {target.name} ended with {rc}: {out[-2000:]}")


def behaviour(path, bid):
    with open(path) as f:
        return [l for l in f if l.startswith(f"{bid} ")]
