"""Builds the compiler-IR dumps of /repo's current working tree."""
import fcntl
import hashlib
import json
import os
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
BUILD = os.path.join(HERE, ".build")
REPO = "/repo"
OUTPUTS = ("harness.lib.json", "poppy-filters.lib.json", "poppy-filters.bin.json", "poppy-py.lib.json")


class BuildError(Exception):
    pass


def run(cmd, env=None, cwd=None):
    e = dict(os.environ)
    e["CARGO_NET_OFFLINE"] = "true"
    e.update(env or {})
    p = subprocess.run(cmd, env=e, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise BuildError("%s failed:\n%s" % (" ".join(cmd), p.stdout[-6000:]))
    return p.stdout


def sysroot():
    return run(["rustc", "+nightly", "--print", "sysroot"]).strip()


def driver():
    """the compiler driver that writes the dumps"""
    src = os.path.join(HERE, "driver")
    h = digest([src])
    stamp = os.path.join(BUILD, "driver.stamp")
    exe = os.path.join(BUILD, "driver", "debug", "mirdump")
    if not (os.path.exists(exe) and os.path.exists(stamp) and open(stamp).read() == h):
        run(["cargo", "+nightly", "build", "--offline", "--manifest-path", os.path.join(src, "Cargo.toml")],
            {"CARGO_TARGET_DIR": os.path.join(BUILD, "driver")})
        with open(stamp, "w") as f:
            f.write(h)
    return exe, h


def digest(roots):
    h = hashlib.sha256()
    for root in roots:
        for d, ds, fs in os.walk(root):
            ds[:] = sorted(x for x in ds if x not in (".git", "target", ".build", "__pycache__", "node_modules"))
            for f in sorted(fs):
                if not (f.endswith((".rs", ".toml", ".lock")) or f == "config"):
                    continue
                p = os.path.join(d, f)
                h.update(os.path.relpath(p, root).encode() + b"\0")
                with open(p, "rb") as x:
                    h.update(hashlib.sha256(x.read()).digest())
    return h.hexdigest()


def forget(target, own=("poppy", "harness")):
    for sub in (".fingerprint", "build", "incremental"):
        base = os.path.join(target, "debug", sub)
        if os.path.isdir(base):
            for d in os.listdir(base):
                if d.startswith(own):
                    shutil.rmtree(os.path.join(base, d), ignore_errors=True)


def entries(env, left_out):
    """dumps the entry points; one that the current sources no longer offer is left out, so that only
    the checks that need it end without a decision, and is written to left_out"""
    src = os.path.join(HERE, "harness")
    e = dict(os.environ)
    e["CARGO_NET_OFFLINE"] = "true"
    e.update(env)
    while True:
        p = subprocess.run(["cargo", "+nightly", "check", "--offline", "--message-format=json", "--manifest-path", os.path.join(src, "Cargo.toml")],
                           env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        if p.returncode == 0:
            return
        lines, shown = set(), ""
        for l in p.stdout.splitlines():
            m = json.loads(l) if l.startswith("{") else {}
            if m.get("reason") == "compiler-message" and m["message"]["level"] == "error":
                shown += m["message"].get("rendered") or ""
                for sp in m["message"]["spans"]:
                    # an error inside a macro stands where the macro is used
                    while sp["file_name"] != "src/lib.rs" and sp.get("expansion"):
                        sp = sp["expansion"]["span"]
                    if sp["is_primary"] or sp["file_name"] == "src/lib.rs":
                        lines.add((m["target"]["name"], sp["file_name"], sp["line_start"]))
        if not lines or any(t != "harness" or f != "src/lib.rs" for t, f, _ in lines):
            raise BuildError("/repo does not build:\n%s%s" % (shown[-6000:], p.stderr[-2000:]))
        with open(os.path.join(src, "src", "lib.rs")) as f:
            text = f.read().split("\n")
        gone = sorted(n for _, _, n in lines)
        if any(not text[n - 1].startswith(("pub fn ", "use ", "pub type ", "impl ")) for n in gone):
            raise BuildError("the entry points do not build:\n" + shown[-6000:])
        with open(left_out, "a") as f:
            f.writelines(text[n - 1] + "\n" for n in gone)
        red = os.path.join(BUILD, "harness")
        if src != red:
            shutil.rmtree(red, ignore_errors=True)
            shutil.copytree(src, red, ignore=shutil.ignore_patterns("target"))
            src = red
        with open(os.path.join(src, "src", "lib.rs"), "w") as f:
            f.write("\n".join("" if n + 1 in gone else t for n, t in enumerate(text)))
        forget(env["CARGO_TARGET_DIR"], ("harness",))


def dump(force=False):
    """directory holding dumps of exactly the current sources"""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        exe, dh = driver()
        key = hashlib.sha256((digest([REPO]) + digest([os.path.join(HERE, "harness")]) + dh).encode()).hexdigest()[:24]
        out = os.path.join(BUILD, "dumps", key)
        if not force and all(os.path.exists(os.path.join(out, o)) for o in OUTPUTS):
            return out, key
        tmp = os.path.join(BUILD, "dumps", "tmp")
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        target = os.path.join(BUILD, "target")
        # cargo decides freshness by modification times and would then not call
        # the wrapper: our own crates are always rebuilt
        forget(target)
        env = {"RUSTC_WRAPPER": exe, "MIRDUMP_OUT": tmp, "CARGO_TARGET_DIR": target, "PYO3_PYTHON": "/usr/bin/python3",
               "LD_LIBRARY_PATH": os.path.join(sysroot(), "lib")}
        entries(env, os.path.join(tmp, "left_out"))
        forget(target)
        run(["cargo", "+nightly", "check", "--offline", "--workspace", "--manifest-path", os.path.join(REPO, "Cargo.toml")], env)
        for o in OUTPUTS:
            if not os.path.exists(os.path.join(tmp, o)):
                raise BuildError("the compiler wrote no %s" % o)
        shutil.rmtree(out, ignore_errors=True)
        # keep only the newest few
        old = sorted((os.path.join(BUILD, "dumps", d) for d in os.listdir(os.path.join(BUILD, "dumps")) if d != "tmp"), key=os.path.getmtime)
        for d in old[:-3]:
            shutil.rmtree(d, ignore_errors=True)
        os.rename(tmp, out)
        return out, key


def witnesses():
    """what the compiler says about each program of witness/: its errors as (code, message, line)"""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        target = os.path.join(BUILD, "witness")
        forget(target, ("poppy", "witness"))
        e = dict(os.environ)
        e.update({"CARGO_NET_OFFLINE": "true", "CARGO_TARGET_DIR": target})
        d = os.path.join(HERE, "witness")
        p = subprocess.run(["cargo", "+nightly", "check", "--offline", "--keep-going", "--bins", "--message-format=json", "--manifest-path",
                            os.path.join(d, "Cargo.toml")], env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    out = {f[:-3]: None for f in sorted(os.listdir(os.path.join(d, "src", "bin"))) if f.endswith(".rs")}
    for l in p.stdout.splitlines():
        m = json.loads(l) if l.startswith("{") else {}
        name = (m.get("target") or {}).get("name")
        if m.get("reason") == "compiler-artifact" and name in out and out[name] is None:
            out[name] = []
        if m.get("reason") == "compiler-message" and m["message"]["level"] == "error" and name in out:
            code = (m["message"].get("code") or {}).get("code")
            if code:
                sp = next((x for x in m["message"]["spans"] if x["is_primary"]), None)
                out[name] = (out[name] or []) + [(code, m["message"]["message"], sp["text"][0]["text"].strip() if sp and sp["text"] else "")]
    lost = [n for n in out if out[n] is None]
    if lost:
        raise BuildError("the compiler did not get to %s:\n%s" % (", ".join(lost), p.stderr[-3000:]))
    return out


if __name__ == "__main__":
    try:
        if "--setup" in sys.argv:
            witnesses()
        print(dump(force="--force" in sys.argv or "--setup" in sys.argv)[0])
    except BuildError as e:
        print(e, file=sys.stderr)
        sys.exit(2)
