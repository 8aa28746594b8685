"""Builds everything a check needs from /repo's current working tree, outside /repo.

Artefacts live in /verif/target and are reused only when the content of every source they come from is
unchanged (hashed, not time stamps)."""
import fcntl, glob, hashlib, json, os, shutil, subprocess, sys, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
TARGET = os.path.join(VERIF, "target")
TOOLCHAIN = "stable-x86_64-unknown-linux-gnu"
ZFLAGS = ["-O1", "-fno-vectorize", "-fno-slp-vectorize", "-DZSTD_TRACE=0", "-DZSTD_DISABLE_ASM", "-DDYNAMIC_BMI2=0",
          "-DZSTD_NO_INTRINSICS", "-DXXH_VECTOR=0", "-DZSTD_LEGACY_SUPPORT=0", "-w"]
# the hooks, and what remains of them where a change of /repo no longer lets one compile
HOOKS = [("grenad_verif", "grenad_verif_varint", "grenad_verif_writer"), ("grenad_verif", "grenad_verif_writer"),
         ("grenad_verif", "grenad_verif_varint"), ("grenad_verif",)]


class BuildError(Exception):
    pass


def env(**kw):
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "CARGO_BUILD_TARGET", "CARGO_TARGET_DIR", "RUSTC_WRAPPER", "CARGO_ENCODED_RUSTFLAGS"):
        e.pop(k, None)
    e["RUSTUP_TOOLCHAIN"] = TOOLCHAIN
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e.update(kw)
    return e


def run(cmd, cwd, log, **kw):
    with open(log, "ab") as f:
        f.write(("$ " + " ".join(cmd) + "\n").encode())
        f.flush()
        r = subprocess.run(cmd, cwd=cwd, env=env(**kw), stdout=f, stderr=subprocess.STDOUT)
    if r.returncode != 0:
        tail = open(log, "rb").read()[-3000:].decode("utf8", "replace")
        raise BuildError("%s failed (%d)\n%s" % (" ".join(cmd), r.returncode, tail))


def digest(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in paths:
        if os.path.isdir(p):
            for d, ds, fs in sorted(os.walk(p)):
                ds[:] = sorted(x for x in ds if x not in ("target", ".git"))
                for f in sorted(fs):
                    q = os.path.join(d, f)
                    h.update(q.encode() + b"\0")
                    if os.path.isfile(q):
                        h.update(open(q, "rb").read())
        elif os.path.exists(p):
            h.update(p.encode() + b"\0" + open(p, "rb").read())
    return h.hexdigest()


def repo_sources():
    return [os.path.join(REPO, x) for x in ("src", "Cargo.toml", "Cargo.lock", "build.rs")]


_sysroot = None


def llvm(tool):
    global _sysroot
    if _sysroot is None:
        _sysroot = subprocess.run(["rustc", "--print", "sysroot"], env=env(), capture_output=True, text=True).stdout.strip()
    return os.path.join(_sysroot, "lib/rustlib/x86_64-unknown-linux-gnu/bin", tool)


def build_hooked(variant, base_flags, sdir, cmd, cwd, log, **kw):
    """a -hook variant is built with as many hooks as compile; which ones is left in the file hooks"""
    sets = HOOKS if "hook" in variant else [()]
    for i, hs in enumerate(sets):
        fl = (base_flags + "".join(" --cfg " + h for h in hs)).strip()
        if fl:
            kw["RUSTFLAGS"] = fl
        try:
            run(cmd, cwd, log, **kw)
            break
        except BuildError:
            if i == len(sets) - 1:
                raise
    open(os.path.join(sdir, "hooks"), "w").write(" ".join(hs))


def hooks(variant):
    p = os.path.join(TARGET, "ir-" + variant, "hooks")
    return open(p).read().split() if os.path.exists(p) else []


class Stamp:
    """one artefact: rebuilt when the digest changes; builders of the same artefact wait for each other"""

    def __init__(self, name, dig):
        self.dir = os.path.join(TARGET, name)
        self.dig = dig

    def __enter__(self):
        os.makedirs(self.dir, exist_ok=True)
        self.lock = open(os.path.join(self.dir, ".lock"), "w")
        fcntl.flock(self.lock, fcntl.LOCK_EX)
        p = os.path.join(self.dir, ".stamp")
        self.fresh = os.path.exists(p) and open(p).read() == self.dig
        if not self.fresh and os.path.exists(p):
            os.unlink(p)
        return self

    def done(self):
        open(os.path.join(self.dir, ".stamp"), "w").write(self.dig)

    def __exit__(self, *a):
        self.lock.close()


def forget(target, names):
    """make cargo rebuild these crates whatever their time stamps say"""
    for prof in ("release", "debug"):
        for n in names:
            for p in glob.glob(os.path.join(target, prof, ".fingerprint", n + "-*")):
                shutil.rmtree(p, ignore_errors=True)


def engine():
    d = digest([os.path.join(VERIF, "engine/src"), os.path.join(VERIF, "engine/Cargo.toml"), os.path.join(VERIF, "engine/Cargo.lock")])
    with Stamp("engine", d) as s:
        if not s.fresh:
            forget(s.dir, ["symex"])
            run(["cargo", "build", "--release", "--offline"], os.path.join(VERIF, "engine"), os.path.join(s.dir, "log"), CARGO_TARGET_DIR=s.dir)
            s.done()
        return os.path.join(s.dir, "release/symex")


def zstd_source():
    c = sorted(glob.glob(os.path.join(os.environ.get("CARGO_HOME", os.path.expanduser("~/.cargo")), "registry/src/*/zstd-sys-*/zstd/lib")))
    lockf = open(os.path.join(VERIF, "symlib/Cargo.lock")).read()
    for p in c:
        v = p.split("zstd-sys-")[1].split("/")[0]
        if 'name = "zstd-sys"\nversion = "%s"' % v in lockf:
            return p
    raise BuildError("zstd sources not found")


def zstd():
    z = zstd_source()
    with Stamp("zstd", digest([z], " ".join(ZFLAGS))) as s:
        out = os.path.join(s.dir, "zstd.bc")
        if not s.fresh:
            procs, objs = [], []
            for f in sorted(glob.glob(z + "/common/*.c") + glob.glob(z + "/compress/*.c") + glob.glob(z + "/decompress/*.c")):
                o = os.path.join(s.dir, os.path.basename(f) + ".bc")
                objs.append(o)
                procs.append(subprocess.Popen(["clang"] + ZFLAGS + ["-I" + z, "-c", "-emit-llvm", f, "-o", o], env=env()))
            if any(p.wait() for p in procs):
                raise BuildError("compiling zstd to LLVM IR failed")
            run([llvm("llvm-link")] + objs + ["-o", out], s.dir, os.path.join(s.dir, "log"))
            s.done()
        return out


def harness_sources():
    return [os.path.join(VERIF, x) for x in ("harness/src", "harness/Cargo.toml")]


def ir(variant):
    """variant: dev (overflow checks and debug assertions on), rel (off), with -hook: /repo's hooks on"""
    z = zstd()
    me = [os.path.join(VERIF, "symlib/src"), os.path.join(VERIF, "symlib/rayon-core"), os.path.join(VERIF, "symlib/tempfile"), os.path.join(VERIF, "symlib/Cargo.toml"), os.path.join(VERIF, "symlib/Cargo.lock"), z, __file__]
    with Stamp("ir-" + variant, digest(repo_sources() + harness_sources() + me, variant)) as s:
        out = os.path.join(s.dir, "b.ll")
        if not s.fresh:
            log = os.path.join(s.dir, "log")
            open(log, "w").close()
            forget(s.dir, ["grenad", "vh", "symlib", "rayon-core"])
            for p in glob.glob(os.path.join(s.dir, "release/deps/*.bc")):
                os.unlink(p)
            fl = "-C no-vectorize-loops -C no-vectorize-slp"
            kw = {"CARGO_TARGET_DIR": s.dir}
            if variant.startswith("rel"):
                kw["CARGO_PROFILE_RELEASE_OVERFLOW_CHECKS"] = "false"
                kw["CARGO_PROFILE_RELEASE_DEBUG_ASSERTIONS"] = "false"
            build_hooked(variant, fl, s.dir, ["cargo", "rustc", "--offline", "--release", "--", "-C", "save-temps"], os.path.join(VERIF, "symlib"), log, **kw)
            b = glob.glob(os.path.join(s.dir, "release/deps/*.lto.after-restriction.bc"))
            if not b:
                raise BuildError("no linked bitcode")
            x = max(b, key=os.path.getmtime)
            j = lambda n: os.path.join(s.dir, n)
            run([llvm("llvm-link"), x, z, "-o", j("all.bc")], s.dir, log)
            run([llvm("opt"), "--strip-debug", "-passes=internalize,globaldce", j("all.bc"), "-o", j("b.bc")], s.dir, log)
            run([llvm("llvm-dis"), j("b.bc"), "-o", out], s.dir, log)
            for n in ("all.bc", "b.bc"):
                os.unlink(j(n))
            for p in b:
                os.unlink(p)
            s.done()
        return out


def native(variant):
    me = [os.path.join(VERIF, "native/src"), os.path.join(VERIF, "native/Cargo.toml"), os.path.join(VERIF, "native/Cargo.lock"), __file__]
    with Stamp("native-" + variant, digest(repo_sources() + harness_sources() + me, variant)) as s:
        rel = variant.startswith("rel")
        out = os.path.join(s.dir, "release" if rel else "debug", "vh-native")
        if not s.fresh:
            log = os.path.join(s.dir, "log")
            open(log, "w").close()
            forget(s.dir, ["grenad", "vh", "vh-native"])
            kw = {"CARGO_TARGET_DIR": s.dir}
            build_hooked(variant, "", s.dir, ["cargo", "build", "--offline"] + (["--release"] if rel else []), os.path.join(VERIF, "native"), log, **kw)
            s.done()
        return out


def build(irs, natives):
    """builds in parallel; returns {name: path}; a failed artefact maps to its BuildError"""
    res = {}
    jobs = [("engine", engine, ())] + [("ir-" + v, ir, (v,)) for v in irs] + [("native-" + v, native, (v,)) for v in natives]

    def go(n, f, a):
        try:
            res[n] = f(*a)
        except Exception as e:
            res[n] = e

    try:
        zstd()
    except Exception as e:
        res["zstd"] = e
    ts = [threading.Thread(target=go, args=j) for j in jobs]
    [t.start() for t in ts]
    [t.join() for t in ts]
    return res
