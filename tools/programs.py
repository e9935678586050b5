#!/usr/bin/env python3
"""programs.py <kind> <file> <behaviours>: replays behaviours on an implementation that is not C.

kind: python (a module with Keccak() and the FIPS 202 functions), rust (k12.rs, compiled here),
      ksum (the program KeccakSum), pysum (KeccakSum.py): the calls of a behaviour are the arguments of one command."""
import importlib.util
import multiprocessing
import os
import shlex
import subprocess
import sys
import tempfile

import numpy as np


def gen(seed, off, n):
    """The bytes of a data descriptor, as driver/drv.c and spec/ConPrim.tla have them."""
    if seed == 0:
        return bytes(n)
    if seed == 1:
        return b"\xff" * n
    i = np.arange(off, off + n, dtype=np.int64)
    m = ((seed % 100003) * 7919 + 12345) % 32749 + 1
    t = ((i % 65521) + 1) * m
    return (t // 257 + (t // 65536) * 3 + i // 251 + (t % 251) * (i % 13 + 1)).astype(np.uint8).tobytes()


def data(v):
    if v[0] == "g":
        s, o, n = (int(x) for x in v[1:].split(":"))
        return gen(s, o, n)
    if v[0] == "x":
        return bytes.fromhex(v[1:])
    if v[0] == "c":         # seed, period, offset, whole periods, rest
        s, T, o, q, r = (int(x) for x in v[1:].split(":"))
        t = gen(s, 0, T)
        return (t[o:] + t[:o]) * q + (t[o:] + t[:o])[:r]
    raise SystemExit("unknown data " + v[:20])


def expected(x, out):
    """What `out` has to be: all of it, or its length and its end."""
    if "outn" not in x:
        return out, data(x["out"])
    n, tail = int(x["outn"]), data(x["tail"])
    return (out, bytes(n)) if len(out) != n else (out[-len(tail):], tail)


def parse(path):
    with open(path) as f:
        for line in f:
            w = line.split()
            yield int(w[0]), int(w[1]), w[2], dict(x.split("=", 1) for x in w[3:])


def differs(out, want):
    if len(out) != len(want):
        return f"output has {len(out)} bytes instead of {len(want)}"
    k = next(i for i in range(len(out)) if out[i] != want[i])
    return f"output differs at byte {k} of {len(want)}: expected {want[k]:02x} got {out[k]:02x}"


def python(a):
    path, calls = a
    sys.dont_write_bytecode = True
    spec = importlib.util.spec_from_file_location("impl", path)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    bad = []
    for bid, step, op, x in calls:
        d = bytearray(data(x["d"]))
        given = bytes(d)
        try:
            if op == "co.keccak":
                out = m.Keccak(int(x["rate"]), int(x["cap"]), d, int(x["delim"]), int(x["n"]))
            else:
                f = int(x["f"])
                fn = (m.SHAKE128, m.SHAKE256, m.SHA3_224, m.SHA3_256, m.SHA3_384, m.SHA3_512)[f - 1]
                out = fn(d, int(x["n"])) if f < 3 else fn(d)
            out, want = expected(x, bytes(out))
        except Exception as e:  # noqa: BLE001
            bad.append(f"MISMATCH bid={bid} step={step} op={op} {type(e).__name__}: {e}")
            continue
        if out != want:
            bad.append(f"MISMATCH bid={bid} step={step} op={op} {differs(out, want)}")
        elif bytes(d) != given:
            bad.append(f"MISMATCH bid={bid} step={step} op={op} the input was changed")
    return bad


MAIN = """#![allow(warnings)]
#[path = "%s"] mod k12;
use std::io::{BufRead, Write};
fn hex(s: &str) -> Vec<u8> { (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect() }
fn main() {
    let i = std::io::stdin();
    for l in i.lock().lines() {
        let l = l.unwrap();
        let w: Vec<&str> = l.split(' ').collect();
        let (m, c, n) = (hex(w[0]), hex(w[1]), w[2].parse::<usize>().unwrap());
        let r = std::panic::catch_unwind(|| k12::KangarooTwelve(&m, &c, n));
        match r { Ok(o) => println!("{}", o.iter().map(|b| format!("{:02x}", b)).collect::<String>()), Err(_) => println!("panic") }
    }
}
"""


def rust(a):
    binary, calls = a
    text = "".join(f"{data(x['d']).hex()} {data(x['c']).hex()} {x['l']}\n" for _, _, _, x in calls)
    r = subprocess.run([binary], input=text, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=600)
    outs = r.stdout.splitlines()
    bad = []
    for (bid, step, op, x), o in zip(calls, outs):
        if o == "panic":
            bad.append(f"MISMATCH bid={bid} step={step} op={op} panics: {r.stderr[-200:]!r}")
            continue
        out, want = expected(x, bytes.fromhex(o))
        if out != want:
            bad.append(f"MISMATCH bid={bid} step={step} op={op} {differs(out, want)}")
    if len(outs) < len(calls):
        bid, step, op, _ = calls[len(outs)]
        bad.append(f"MISMATCH bid={bid} step={step} op={op} ends with {r.returncode}: {r.stderr[-200:]!r}")
    return bad


def command(a):
    """One command per behaviour, in a directory of its own."""
    impl, calls = a
    bad, per = [], {}
    for c in calls:
        per.setdefault(c[0], []).append(c)
    for bid, cs in per.items():
        args, want, rc, given = [], [], 0, b""
        with tempfile.TemporaryDirectory() as tmp:
            for _, step, op, x in cs:
                if op == "ks.start":
                    given = data(x["d"])
                elif op == "ks.opt":
                    args.append(x["o"])
                elif op == "ks.bits":
                    args += ["--outputbits" if step % 2 else "-n", x["n"]]
                elif op == "ks.blk":
                    args += ["-B", x["n"]]
                elif op == "ks.string":
                    args += ["--string", data(x["s"])]
                elif op == "ks.stdin":
                    args.append("-")
                elif op in ("ks.missing", "ks.bad", "ks.file"):
                    args.append(data(x["name"]))
                    if op == "ks.file":
                        f = os.path.join(tmp.encode(), args[-1])
                        os.makedirs(os.path.dirname(f), exist_ok=True)
                        with open(f, "wb") as fh:
                            fh.write(data(x["d"]))
                want.append((step, data(x.get("out", "x"))))
                rc = int(x["rc"])
            with open(f"{tmp}/.stdin", "wb") as f:
                f.write(given)
            for pipe in (False, True)[:1 + bid % 2]:        # standard input: a file, or a pipe
                try:
                    k = dict(input=given) if pipe else dict(stdin=open(f"{tmp}/.stdin", "rb"))
                    r = subprocess.run(impl + args, cwd=tmp, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120,
                                       env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1"), **k)
                except subprocess.TimeoutExpired:
                    bad.append(f"MISMATCH bid={bid} step=0 op=command no answer in time")
                    continue
                out = r.stdout
                for step, w in want:
                    if not out.startswith(w):
                        bad.append(f"MISMATCH bid={bid} step={step} op={cs[0][2]} {differs(out[:len(w)], w)}: {out[:60]!r} for {w[:60]!r}")
                        break
                    out = out[len(w):]
                else:
                    if r.returncode != rc or (rc == 0 and out):
                        bad.append(f"MISMATCH bid={bid} step={len(cs)} op=command ends with {r.returncode} instead of {rc} {out[:100]!r} {r.stderr[-200:]!r}")
    return bad


def main():
    kind, impl, path = sys.argv[1:4]
    calls = list(parse(path))
    with tempfile.TemporaryDirectory() as tmp:
        if kind == "rust":
            with open(f"{tmp}/main.rs", "w") as f:
                f.write(MAIN % impl)
            # overflow checks and debug assertions on: arithmetic that wraps is a defect
            r = subprocess.run(["rustc", "--edition", "2015", "-O", "-C", "overflow-checks=on", "--cap-lints", "allow", "-o", f"{tmp}/k12", f"{tmp}/main.rs"],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=tmp)
            if r.returncode:
                print(r.stdout[-3000:])
                return 2
            impl = f"{tmp}/k12"
        n = os.cpu_count() or 4
        if kind == "ksum":
            impl = shlex.split(os.environ.get("PROGRAM_PREFIX", "")) + [impl]
        if kind == "pysum":
            impl = [sys.executable, impl]
        parts = [(impl, [c for c in calls if c[0] % n == k]) for k in range(n)]
        with multiprocessing.Pool(n) as pool:
            bad = [b for p in pool.map(dict(python=python, rust=rust, ksum=command, pysum=command)[kind], parts) for b in p]
    for b in bad[:20]:
        print(b)
    print(f"REPLAYED behaviours={len({c[0] for c in calls})} calls={len(calls)} failed={len(bad)}")
    return 1 if bad else 0


if __name__ == "__main__":
    sys.exit(main())
