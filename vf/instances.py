"""What each check runs: harness, parameters, build variant, tier."""


class Inst:
    def __init__(self, fn, need=(), var="dev", tier="q", time=400, cost=1, solver=60, steps=300_000_000, gb=8, fallback=None, **params):
        self.fn, self.need, self.var, self.tier, self.time, self.cost = fn, tuple(need), var, tier, time, cost
        self.solver, self.steps, self.gb, self.params = solver, steps, gb, params
        # parameters of a bounded variant, for when a fixpoint is not reached in time
        self.fallback = fallback

    def bounded(self):
        p = dict(self.params)
        p.update(self.fallback)
        return Inst(self.fn, (), self.var, self.tier, self.time, self.cost, self.solver, self.steps, self.gb, **p)

    def name(self):
        return "%s[%s]%s" % (self.fn, ",".join("%s=%d" % kv for kv in sorted(self.params.items())), "" if self.var == "dev" else "@" + self.var)


PROPS = {}
COMMON = [
    "the LLVM IR rustc emits for the harness, /repo's current source, its dependencies and the standard library (opt-level 1, one 64-bit target) is what runs; "
    "the symbolic executor and Z3 are trusted, and spot-checked: models of explored paths are replayed natively and must behave identically",
    "allocation never fails below 1.8 GB (80 GB in the instances with heapgb); threads are not modelled (rayon's join runs its two closures one after the other, in either order)",
]


def prop(pid, bounds, instances, assumptions=()):
    PROPS[pid] = {"bounds": bounds, "instances": instances, "assumptions": COMMON + list(assumptions)}


END = ["end"]
GB = "; files, blocks and buffers of more than 4 GB (5 to 7 values of 1 GB, 0xFF but for their ends)"
# entries of a gigabyte: files, blocks and buffers longer than 32 bits count (their pages are shared, so they are cheap)
HUGE = dict(symk=0, vlen=1 << 30, heapgb=80, cost=15)


def far(L, v1=0):
    """the entries written after any number of bytes and entries"""
    f = lambda var="dev-hook", **k: L.append(Inst("far", END, var=var, **{**dict(klo=1, khi=1, v1=v1), **k}))
    for lv in (0,) if v1 else (0, 1):
        f(n=3, levels=lv)
    f(n=5, levels=0, vlen=520)
    f(n=6, vlen=3, interval=2)
    f(n=5, levels=0, vlen=520, var="rel-hook")
    if not v1:
        f(n=6, levels=2, vlen=520, cost=3)
        f(n=9, plen=500, vlen=520, levels=2, edge=1)
        f(n=12, plen=500, vlen=520, levels=3, edge=1)
        f(n=9, plen=500, vlen=520, levels=2, tier="t", time=3000, cost=20)
    for c in (1, 2, 3, 4, 5):
        f(n=6, symk=0, vlen=520, levels=0 if v1 else c % 3, codec=c, edge=1)


FAR = ("; files of up to 6 entries written after any number of bytes below 2^62 and any number of entries (the verification hook sets both counters), and of up to 12 entries after four such numbers")


# any of the 2^64 block sizes and any in-block index interval: both stay symbolic in the code under test
SYM = dict(symblock=1, syminterval=1)
SYMT = "; with every block size (all 2^64) and every in-block index interval (both symbolic) for the files of up to %s"


# any budget and any number of chunks (with reallocation the budget is only compared with)
SB = dict(symbudget=1, symchunks=1, realloc=1)


# ---- C01 -------------------------------------------------------------------------------------------
def c01():
    L = []
    far(L)
    a = lambda **k: L.append(Inst("c01", END, **k))
    for lv in (0, 1, 2, 255):
        a(n=4, upto=1, klo=0, khi=2, vlen=2, symv=1, levels=lv)
    a(n=3, upto=1, klo=0, khi=3, vlen=1, symv=1)
    # several blocks: two values of 520 fill a block
    for lv in (0, 1, 2, 3):
        a(n=6, klo=1, khi=1, vlen=520, symv=1, levels=lv)
    # an entry larger than a block, alternating with small ones
    for lv in (0, 2):
        a(n=6, klo=1, khi=1, vlen=1, vbig=3000, levels=lv)
    # long keys: index blocks of several levels are cut too
    for n, lv in ((9, 2), (12, 2), (9, 3), (17, 3), (33, 4)):
        a(n=n, plen=500, klo=1, khi=1, vlen=520, levels=lv)
    a(n=20, plen=500, klo=1, khi=1, vlen=100, levels=2)
    # in-block index intervals
    for iv in (1, 2, 3, 5, 1000):
        a(n=7, klo=1, khi=1, vlen=3, interval=iv)
        a(n=12, klo=1, khi=1, vlen=200, interval=iv, levels=1)
    for iv in (4, 6, 7, 8, 9, 10, 12, 15, 16, 17, 20, 31, 32, 33, 50, 63, 64, 65, 100, 120):
        a(n=2 * iv + 5, symk=0, vlen=1, interval=iv, block=1 << 20)
    for iv in (127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1024):
        L.append(Inst("c01_many", END, n=2 * iv + 5, block=1 << 40, interval=iv, cost=5, steps=3_000_000_000))
    for lv in (4, 5, 6, 7, 8, 9, 15, 16, 31, 32, 63, 64, 127, 128, 254):
        a(n=5, klo=1, khi=1, vlen=520, levels=lv)
    # growing entries, several sizes of block
    for b in (0, 1, 255, 256, 1000, 1023, 1024, 1025, 1100, 1536, 2000, 2047, 2048, 4095, 4096, 4097, 8192, 65535, 65536, 1 << 20, 1 << 32, 1 << 40, (1 << 63) - 1, 1 << 63, (1 << 64) - 1):
        a(n=16, klo=1, khi=1, vlen=0, vstep=40, block=b, levels=1)
    # one file with many entries
    a(n=36, klo=1, khi=1, vlen=60, levels=1)
    # more entries, bytes of a block and blocks than 16 bits count
    for iv in (1, 8):
        L.append(Inst("c01_many", END, n=70000, block=1 << 40, interval=iv, cost=9, steps=3_000_000_000))
    L.append(Inst("c01_many", END, n=9000, vlen=40, block=1 << 18, levels=1, cost=5, steps=3_000_000_000))
    L.append(Inst("c01_many", END, n=66000, vlen=1020, levels=0, seek=0, cost=9, steps=3_000_000_000))
    L.append(Inst("c01_many", END, n=66000, vlen=1020, levels=2, seek=0, cost=9, steps=3_000_000_000))
    # every value / key length in a range
    for key in (0, 1):
        L.append(Inst("c01_len", END, lo=0, hi=300, key=key))
        L.append(Inst("c01_len", END, lo=960, hi=1100, key=key, levels=1))
        L.append(Inst("c01_len", END, lo=16370, hi=16400, key=key))
    # codecs
    for c in (1, 2, 3, 4, 5):
        for lv in (0, 2):
            a(n=5, upto=1, symk=0, vlen=3, codec=c, levels=lv)
            a(n=12, symk=0, plen=500, vlen=520, codec=c, levels=lv)
            a(n=8, symk=0, vlen=0, vbig=5000, codec=c, levels=lv)
        a(n=40, symk=0, vlen=30, vstep=9, codec=c, levels=1, interval=3)
        L.append(Inst("c01_lenc", END, lo=0, hi=130, codec=c))
        L.append(Inst("c01_lenc", END, lo=1000, hi=1040, codec=c, levels=1))
    # symbolic content through the codecs whose arithmetic the solver can follow
    a(n=1, klo=1, khi=1, vlen=1, symv=1, codec=2)
    a(n=1, klo=0, khi=2, vlen=2, symv=1, codec=2)
    for c in (1, 3, 5):
        a(n=1, symk=0, vlen=1, symv=1, codec=c, cost=9)
    # compression levels
    for lvl in (1, 2, 3, 6, 9, 10, 11, 12, 22, 23, 100, 2**31 - 1, 2**31, 2**32 - 1):
        for c in (2, 4):
            a(n=10, symk=0, vlen=60, codec=c, level=lvl, cost=5)
    for c in (1, 3, 5):
        a(n=4, symk=0, vlen=300, codec=c, level=2**32 - 1)
    # without overflow checks and debug assertions
    for lv in (0, 2, 255):
        a(n=4, upto=1, klo=0, khi=2, vlen=2, symv=1, levels=lv, var="rel")
    a(n=12, plen=500, klo=1, khi=1, vlen=520, levels=2, var="rel")
    a(n=12, klo=1, khi=1, vlen=200, interval=3, levels=1, var="rel")
    a(n=10, symk=0, vlen=60, codec=2, level=11, var="rel")
    # deeper
    # every block size, every interval
    for lv in (0, 1, 2, 3, 255):
        a(n=5, klo=1, khi=1, vlen=520, symv=1, levels=lv, **SYM)
        a(n=8, symk=0, vlen=0, vstep=170, levels=lv, **SYM)
    a(n=12, plen=300, klo=1, khi=1, vlen=320, levels=2, **SYM)
    a(n=17, plen=500, symk=0, vlen=520, levels=3, cost=2, **SYM)
    a(n=33, plen=500, symk=0, vlen=520, levels=4, cost=3, **SYM)
    a(n=40, symk=0, vlen=100, levels=1, cost=3, **SYM)
    for c in (1, 2, 3, 4, 5):
        a(n=9, symk=0, plen=300, vlen=320, codec=c, levels=2, cost=3, **SYM)
    a(n=9, symk=0, plen=300, vlen=320, levels=2, var="rel", **SYM)
    t = dict(tier="t", time=3000)
    a(n=6, upto=1, klo=0, khi=3, vlen=1, symv=1, levels=1, cost=20, **t)
    a(n=60, plen=500, klo=2, khi=2, vlen=520, levels=4, cost=20, **t)
    a(n=200, symk=0, plen=500, vlen=100, levels=5, **t)
    for c in (1, 2, 3, 4, 5):
        L.append(Inst("c01_lenc", END, lo=0, hi=2000, step=7, codec=c, **t))
        a(n=100, symk=0, vlen=3, vstep=17, codec=c, levels=2, **t)
    for key in (0, 1):
        L.append(Inst("c01_len", END, lo=0, hi=3000, key=key, levels=1, **t))
    # beyond 32 bits
    a(n=6, levels=0, **HUGE)
    a(n=7, levels=2, plen=500, **HUGE)
    a(n=6, levels=1, block=8 << 30, interval=1, **HUGE)
    return L


prop("C01",
     "files of up to 4 (thorough 6) entries with arbitrary keys of 0..2 (3) bytes and arbitrary values, and of up to 36 (60) entries with arbitrary one- or two-byte keys behind a constant prefix of 0 or 500 bytes; "
     "value and key lengths 0..300, 960..1100, 16370..16400 and single lengths up to 5000; index levels 0-9 and around the powers of two to 255; intervals 1 to 1024 around the powers of two; 25 block sizes, and every block size (64 bits) with every interval, both symbolic, for 5 to 40 entries; compression levels 0..2^32-1 sampled at 15 values. "
     "With snappy, lz4 and zstd the content is concrete (lengths vary) except one symbolic byte for snappy and lz4; zlib at level 0 is symbolic" + FAR + GB,
     c01(), ["zstd's C code is compiled to LLVM IR with clang -O1, without its assembly and runtime CPU dispatch, instead of the C compiler the build uses"])


# ---- C02 -------------------------------------------------------------------------------------------
def c02():
    L = []
    far(L)
    a = lambda need=("ge", "le", "eq"), **k: L.append(Inst("c02", need, **k))
    a(n=3, upto=1, klo=0, khi=2, qhi=3, cost=4)
    for rs in (0, 1):
        a(n=4, klo=1, khi=1, qhi=2, reset=rs, vlen=520)
        a(n=5, klo=1, khi=1, qhi=2, reset=rs, vlen=520, levels=1)
        a(n=5, klo=1, khi=1, qhi=2, reset=rs, vlen=520, levels=2)
    for iv in (1, 2, 3, 8, 1000):
        a(n=5, klo=1, khi=1, qhi=2, interval=iv)
        a(n=10, klo=2, khi=2, qhi=2, interval=iv, symk=0)
        a(n=20, qhi=3, interval=iv, symk=0, vlen=100, levels=1)
    for iv in (4, 5, 6, 7, 9, 10, 12, 15, 16, 17, 20, 31, 32, 33, 40):
        a(n=2 * iv + 5, symk=0, qhi=2 if iv < 20 else 1, interval=iv, block=1 << 20)
    for iv in (50, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1024, 4096):
        L.append(Inst("c01_many", ("seek",), n=2 * iv + 5, block=1 << 40, interval=iv, scan=0, cost=3, steps=3_000_000_000))
    # keys and probes that share a long prefix
    for pl in (1, 2, 3, 4, 6, 7, 8, 9, 12, 15, 16, 17, 24, 31, 32, 33, 63, 64, 127, 128, 255, 256):
        a(n=4, plen=pl, klo=1, khi=1, qhi=1, cost=2)
    for lv in (3, 4, 5, 6, 7, 8, 16, 32, 64, 128, 255):
        a(n=5, symk=0, qhi=2, vlen=520, levels=lv)
    # several index blocks on the levels below the root
    for n, lv in ((9, 2), (9, 3), (17, 3), (33, 4)):
        a(n=n, plen=500, symk=0, qhi=2, vlen=520, levels=lv)
        a(n=n, plen=500, symk=0, qhi=3, vlen=520, levels=lv, reset=1)
    a(n=24, plen=500, symk=0, qhi=2, vlen=100, levels=2)
    for iv in (1, 8):
        L.append(Inst("c01_many", ("seek",), n=70000, block=1 << 40, interval=iv, scan=0, cost=9, steps=3_000_000_000))
    L.append(Inst("c01_many", ("seek",), n=66000, vlen=1020, levels=0, scan=0, cost=9, steps=3_000_000_000))
    L.append(Inst("c01_many", ("seek",), n=9000, vlen=40, block=1 << 18, levels=1, scan=0, cost=5, steps=3_000_000_000))
    a(n=7, plen=500, klo=1, khi=1, qhi=1, vlen=520, levels=2, cost=4)
    # entries larger than a block
    a(n=6, klo=1, khi=1, qhi=2, vbig=3000, levels=2)
    # keys that are prefixes of one another
    L.append(Inst("c02_prefixes", ("ge", "le", "eq"), n=6, qhi=7))
    L.append(Inst("c02_prefixes", ("ge", "le", "eq"), n=6, qhi=7, vlen=520, levels=2))
    for c in (1, 2, 3, 4, 5):
        a(n=9, plen=500, symk=0, qhi=2, vlen=520, levels=2, codec=c)
    for lv in (0, 2):
        a(n=9, plen=500, symk=0, qhi=2, vlen=520, levels=lv, var="rel")
    for lv in (0, 1, 2):
        a(n=5, klo=1, khi=1, qhi=2, vlen=520, levels=lv, cost=2, **SYM)
    for lv in (0, 2, 3):
        a(n=9, plen=300, symk=0, qhi=2, vlen=320, levels=lv, cost=2, **SYM)
        a(n=9, plen=500, symk=0, qhi=2, vlen=520, levels=lv, cost=2, reset=1, **SYM)
    a(n=24, symk=0, qhi=2, vlen=60, levels=1, cost=3, **SYM)
    a(n=9, plen=300, symk=0, qhi=2, vlen=320, levels=2, codec=3, cost=4, **SYM)
    t = dict(tier="t", time=3000)
    a(n=4, upto=1, klo=0, khi=2, qhi=3, cost=20, **t)
    a(n=8, klo=1, khi=2, qhi=2, interval=2, cost=20, **t)
    a(n=12, plen=500, klo=1, khi=1, qhi=2, vlen=520, levels=3, cost=20, **t)
    a(n=130, plen=500, symk=0, qhi=2, vlen=520, levels=6, **t)
    a(n=400, symk=0, qhi=3, vlen=30, levels=1, **t)
    # beyond 32 bits
    a(n=6, levels=1, **HUGE)
    a(n=6, levels=2, plen=500, **HUGE)
    a(n=6, levels=1, block=8 << 30, interval=1, **HUGE)
    return L


prop("C02",
     "every probe of up to 3 arbitrary bytes (behind the whole, a cut or no part of the keys' constant prefix) against files of up to 5 (thorough 8) entries with arbitrary keys of 0..2 bytes, and against files of up to 33 (400) entries with fixed keys "
     "spread over up to 5 (7) index levels with several blocks on each; intervals 1 to 4096 around the powers of two; constant key prefixes of 1 to 500 bytes; every block size and interval (symbolic) for 5 to 24 entries; the three seeks, on a fresh and on a reset cursor" + FAR + GB,
     c02())


# ---- C04 -------------------------------------------------------------------------------------------
def c04():
    L = []
    a = lambda need=("fwd", "rev"), **k: L.append(Inst("c04", need, **k))
    a(n=2, upto=1, klo=0, khi=1, qhi=1, cost=3)
    a(n=3, klo=1, khi=1, qhi=1, cost=3)
    a(n=5, symk=0, qhi=2, gap=1, cost=3)
    a(n=4, klo=1, khi=1, qhi=1, vlen=520, levels=1, cost=9)
    for lv in (0, 1, 2):
        a(n=5, symk=0, qhi=2, vlen=520, levels=lv, cost=3)
    for iv in (1, 2):
        a(n=5, symk=0, qhi=2, interval=iv, cost=3)
    for iv in (4, 9, 12, 16, 17):
        a(n=2 * iv + 3, symk=0, qhi=1, interval=iv, cost=5)
    for pl in (1, 3, 4, 7, 8, 9, 15, 16, 31, 32, 64, 128, 255, 256):
        a(n=2, plen=pl, klo=1, khi=1, qhi=1, cost=3)
    for lv in (3, 4, 5, 8, 16, 255):
        a(n=3, symk=0, qhi=1, vlen=520, levels=lv, cost=3)
    for k in range(9):
        for rev in (0, 1):
            a(need=("rev",) if rev else ("fwd",), n=9, plen=500, symk=0, qhi=2, vlen=520, levels=2, kinds=k, rev=rev, cost=4)
    L.append(Inst("c04_prefixes", ("fwd", "rev"), n=5, qhi=6, cost=4))
    for c in (1, 2, 3, 4, 5):
        a(n=5, symk=0, qhi=2, vlen=520, levels=1, codec=c, cost=3)
    a(n=5, symk=0, qhi=2, vlen=520, levels=2, var="rel", cost=3)
    for lv in (0, 1, 2):
        a(n=4, symk=0, qhi=1, vlen=520, levels=lv, cost=2, **SYM)
    a(n=3, klo=1, khi=1, qhi=1, vlen=520, levels=1, cost=5, **SYM)
    a(n=9, plen=300, symk=0, qhi=1, vlen=320, levels=2, cost=5, **SYM)
    t = dict(tier="t", time=3000)
    a(n=5, klo=1, khi=1, qhi=2, cost=20, **t)
    a(n=3, klo=0, khi=2, qhi=2, cost=20, **t)
    a(n=17, plen=500, symk=0, qhi=2, vlen=520, levels=3, cost=20, **t)
    a(n=30, symk=0, qhi=2, vlen=100, interval=3, cost=20, **t)
    # beyond 32 bits
    a(n=5, levels=1, **HUGE)
    a(n=6, levels=0, block=8 << 30, interval=1, **HUGE)
    return L


prop("C04",
     "every pair of bounds (unbounded, included, excluded, without any order between them) of up to 2 arbitrary bytes, forward and reverse, to the first None: files of up to 4 (thorough 5) entries with arbitrary one-byte keys, "
     "2 (3) entries with keys of 0..1 (2) bytes, and 9 (30) fixed keys over three (four) index levels; every block size and interval (symbolic) for 3 to 9 entries; prefixes of 1 to 256 bytes" + GB,
     c04())


# ---- C05 -------------------------------------------------------------------------------------------
def c05():
    L = []
    a = lambda need=("fwd", "rev"), **k: L.append(Inst("c05", need, **k))
    a(n=3, upto=1, klo=0, khi=2, qhi=3, cost=5)
    a(n=4, klo=1, khi=2, qhi=2, cost=5)
    a(n=3, klo=3, khi=3, qhi=3)
    for lv in (0, 1, 2):
        a(n=5, klo=1, khi=2, qhi=2, vlen=520, levels=lv, cost=5)
    for iv in (1, 2):
        a(n=4, klo=1, khi=2, qhi=2, interval=iv, cost=3)
    for iv in (4, 9, 12, 16, 17, 33):
        a(n=2 * iv + 3, symk=0, qhi=2, interval=iv, gap=50, block=1 << 20, cost=3)
    for pl in (1, 3, 4, 7, 8, 9, 15, 16, 31, 32, 64, 128, 255, 256):
        a(n=3, plen=pl, klo=1, khi=1, qhi=1, cost=2)
    for lv in (3, 4, 5, 8, 16, 255):
        a(n=4, symk=0, qhi=2, vlen=520, levels=lv, cost=3)
    a(n=9, plen=500, symk=0, qhi=2, vlen=520, levels=2)
    a(n=17, plen=500, symk=0, qhi=2, vlen=520, levels=3)
    a(n=20, symk=0, qhi=3, gap=100, vlen=200, levels=1)
    L.append(Inst("c05_ff", ("fwd", "rev"), qhi=5))
    L.append(Inst("c05_ff", ("fwd", "rev"), qhi=5, vlen=520, levels=2))
    for c in (1, 2, 3, 4, 5):
        a(n=8, symk=0, qhi=2, gap=100, vlen=520, levels=1, codec=c)
    a(n=5, klo=1, khi=2, qhi=2, vlen=520, levels=2, var="rel", cost=5)
    for lv in (0, 1, 2):
        a(n=9, plen=300, symk=0, qhi=2, vlen=320, levels=lv, cost=2, **SYM)
    a(n=4, klo=1, khi=1, qhi=2, vlen=520, levels=1, cost=5, **SYM)
    a(n=12, symk=0, gap=100, qhi=2, vlen=120, levels=1, cost=3, **SYM)
    t = dict(tier="t", time=3000)
    a(n=5, upto=1, klo=0, khi=2, qhi=3, cost=20, **t)
    a(n=4, klo=1, khi=3, qhi=4, cost=20, **t)
    # beyond 32 bits
    a(n=5, levels=1, **HUGE)
    a(n=6, levels=0, block=8 << 30, interval=1, **HUGE)
    return L


prop("C05",
     "every prefix of up to 3 (thorough 4) arbitrary bytes, forward and reverse, to the first None: files of up to 5 entries with arbitrary keys of 0..2 (3) bytes, files of keys around runs of 0xFF, and of up to 20 fixed keys over up to four index levels; every block size and interval (symbolic) for 4 to 12 entries; constant prefixes of 1 to 256 bytes" + GB,
     c05())


# ---- C09 -------------------------------------------------------------------------------------------
def c09():
    L = []
    far(L)
    for fn in ("c09_format", "c09_old_reads", "c09_reads_old"):
        a = lambda **k: L.append(Inst(fn, END, **k))
        for lv in (0, 1, 2):
            a(n=3, upto=1, klo=0, khi=2, vlen=2, symv=1, levels=lv)
            a(n=6, klo=1, khi=1, vlen=520, symv=1, levels=lv)
        for iv in (1, 2, 3, 1000):
            a(n=7, klo=1, khi=1, vlen=3, interval=iv)
            a(n=20, klo=1, khi=1, vlen=200, interval=iv, levels=1)
        for lv in (0, 1, 2, 3):
            a(n=6, klo=1, khi=1, vlen=520, symv=1, levels=lv, **SYM)
            a(n=12, plen=300, symk=0, vlen=320, levels=lv, cost=2, **SYM)
        a(n=20, symk=0, vlen=0, vstep=20, levels=1, cost=2, **SYM)
        for n, lv in ((9, 2), (12, 2), (17, 3), (33, 4)):
            a(n=n, plen=500, symk=0, vlen=520, levels=lv)
        for b in (0, 1024, 1500, 8192):
            a(n=14, klo=1, khi=1, vlen=0, vstep=40, block=b, levels=1)
        a(n=6, klo=1, khi=1, vlen=1, vbig=20000)
        for c in (1, 2, 3, 4, 5):
            for lv in (0, 2):
                a(n=9, symk=0, plen=500, vlen=520, levels=lv, codec=c)
                a(n=20, symk=0, vlen=3, vstep=20, levels=lv, codec=c, interval=3)
            a(n=0, symk=0, codec=c)
            a(n=1, symk=0, codec=c)
            a(n=12, symk=0, vlen=200, codec=c, level=9)
        for lv in (0, 2):
            a(n=9, plen=500, symk=0, vlen=520, levels=lv, var="rel")
    for lv in (0, 1, 3, 4, 255):
        L.append(Inst("c09_format", END, n=2, upto=1, klo=0, khi=1, levels=lv))
    t = dict(tier="t", time=3000)
    for fn in ("c09_format", "c09_old_reads", "c09_reads_old"):
        L.append(Inst(fn, END, n=5, upto=1, klo=0, khi=2, vlen=2, symv=1, levels=1, cost=20, **t))
        L.append(Inst(fn, END, n=130, plen=500, symk=0, vlen=520, levels=6, **t))
        L.append(Inst(fn, END, n=300, symk=0, vlen=40, levels=1, **t))
    # beyond 32 bits
    L.append(Inst("c09_format", END, n=6, levels=1, **HUGE))
    L.append(Inst("c09_format", END, n=6, levels=2, plen=500, **HUGE))
    L.append(Inst("c09_old_reads", END, n=6, levels=1, **HUGE))
    L.append(Inst("c09_reads_old", END, n=6, **HUGE))
    L.append(Inst("c09_format", END, n=5, levels=0, block=8 << 30, interval=1, **HUGE))
    L.append(Inst("c09_old_reads", END, n=5, levels=0, block=8 << 30, interval=1, **HUGE))
    return L


prop("C09",
     "arbitrary keys of 0..2 bytes and arbitrary values for up to 6 entries, arbitrary one-byte keys for up to 20 entries, fixed keys for up to 33 (thorough 300) entries over 1 to 5 index levels; intervals 1,2,3,8,1000; block sizes 0..8192; every block size and interval (symbolic) for 6 to 20 entries; "
     "all six codecs in the format check and in both directions against grenad 0.4.7 (content concrete under compression)" + FAR + GB,
     c09(), ["the independent decoder in harness/src/sup.rs and grenad 0.4.7 as published are the oracles"])


# ---- C10 -------------------------------------------------------------------------------------------
def c10():
    L = []
    far(L, 1)
    a = lambda **k: L.append(Inst("c10", END, **k))
    a(n=2, upto=1, klo=0, khi=1, qhi=1, cost=5)
    a(n=3, klo=1, khi=1, qhi=1, cost=5)
    a(n=5, symk=0, qhi=2, cost=5)
    for iv in (1, 2, 1000):
        a(n=5, symk=0, qhi=2, interval=iv, cost=5)
    for b in (0, 2000, 8192):
        a(n=8, symk=0, qhi=2, vlen=300, block=b, cost=5)
    a(n=9, symk=0, plen=500, qhi=1, vlen=520, cost=8)
    for c in (1, 2, 3, 4, 5):
        a(n=6, symk=0, qhi=2, vlen=300, codec=c, cost=5)
    a(n=5, symk=0, qhi=2, vlen=520, var="rel", cost=5)
    for n in (0, 2):
        L.append(Inst("c10_trailer", ("opened", "rejected"), n=n))
    t = dict(tier="t", time=3000)
    a(n=3, upto=1, klo=0, khi=2, qhi=2, cost=20, **t)
    a(n=30, symk=0, qhi=2, vlen=100, cost=20, **t)
    # beyond 32 bits
    a(n=5, **HUGE)
    return L


prop("C10",
     "version-1 files of up to 3 entries with arbitrary keys of 0..1 (thorough 2) bytes, and of up to 9 (30) fixed keys: full scans both ways, the three seeks, and range and prefix queries both ways with arbitrary probes and bounds of up to 2 bytes; "
     "every value of the three trailer fields; all six codecs (content concrete under compression)" + FAR + GB,
     c10())


# ---- C15 -------------------------------------------------------------------------------------------
def c15():
    L = []
    a = lambda need=("end", "data cut"), **k: L.append(Inst("c15", need, **k))
    # two entries whose sizes walk over the cut, then small ones
    for base in (0, 480, 960, 1000):
        a(need=END, n=4, base=base, step=4, many=16, free=2, rest=3)
    a(n=3, base=990, step=1, many=40, free=1, rest=900)
    a(n=4, base=300, step=10, many=9, free=4)
    a(n=24, base=100, step=1, many=12, free=1, rest=100)
    # around the offset table growing
    for iv in (1, 2, 3):
        a(n=24, base=80, step=1, many=30, free=1, rest=84, interval=iv)
        a(n=80, base=0, step=1, many=20, free=1, rest=10, interval=iv)
    for b in (0, 1, 1023, 1024, 1025, 1500, 2048):
        a(n=12, base=0, step=100, many=20, free=2, rest=300, block=b, levels=1)
    # every size of the first entry that makes a block end just before, at and after the block size
    for b in (0, 1, 512, 1000, 1022, 1023, 1024, 1025, 1026, 1500, 2047, 2048, 2049, 3000, 4095, 4096, 4097, 8191, 8192, 8193, 16384, 65535, 65536, 1 << 20):
        B = max(b, 1024)
        for iv in (1, 8):
            a(n=4, base=B - 45, step=1, many=60, free=1, rest=B, block=b, levels=1, interval=iv)
            a(n=4, base=B // 2 - 35, step=1, many=30, free=2, rest=B, block=b, levels=0, interval=iv, cost=2)
    for b in (4096, 8192):
        a(n=60, base=0, step=300, many=20, free=2, rest=300, block=b, levels=1)
    # index blocks
    for lv in (2, 3):
        for iv in (1, 8):
            a(need=("end", "data cut", "index cut"), n=16, plen=500, base=0, step=40, many=16, free=1, rest=520, levels=lv, interval=iv)
            a(need=("end", "data cut", "index cut"), n=16, plen=200, base=0, step=300, many=5, free=2, rest=800, levels=lv, interval=iv)
    for pl in (30, 60, 120, 250, 495, 504, 600, 1100):
        a(need=("end", "data cut", "index cut"), n=40 if pl > 100 else 110, plen=pl, base=0, step=1200, many=2, free=1, rest=1000, levels=2)
    a(need=("end", "data cut", "index cut"), n=33, plen=500, base=0, step=300, many=4, free=1, rest=520, levels=4)
    for c in (1, 2, 3, 4, 5):
        a(need=("end", "data cut", "index cut"), n=16, plen=500, base=0, step=200, many=4, free=1, rest=520, levels=2, codec=c)
    a(need=("end", "data cut", "index cut"), n=16, plen=500, base=0, step=40, many=16, free=1, rest=520, levels=2, var="rel")
    # every block size, every interval: the solver decides each comparison of a size with them
    for lv in (0, 1):
        a(n=10, base=300, step=100, many=3, free=2, rest=300, levels=lv, **SYM)
        a(n=5, base=0, step=11, many=8, free=3, rest=1100, levels=lv, cost=3, **SYM)
        a(n=30, base=0, step=40, many=5, free=1, rest=90, levels=lv, cost=3, **SYM)
        a(n=6, base=100, step=333, many=4, free=4, rest=500, levels=lv, cost=3, **SYM)
    for lv, pl in ((2, 300), (2, 500), (3, 300), (3, 600), (4, 500)):
        a(need=("end", "data cut", "index cut"), n=16, plen=pl, base=0, step=100, many=3, free=1, rest=520, levels=lv, cost=3, **SYM)
    a(need=("end", "data cut", "index cut"), n=33, plen=500, base=300, step=500, many=2, free=1, rest=520, levels=4, cost=9, **SYM)
    for c in (1, 2, 3, 4, 5):
        a(need=("end", "data cut", "index cut"), n=12, plen=300, base=100, step=200, many=2, free=1, rest=320, levels=2, codec=c, cost=3, **SYM)
    a(need=("end", "data cut", "index cut"), n=16, plen=300, base=0, step=100, many=3, free=1, rest=520, levels=2, var="rel", cost=3, **SYM)
    t = dict(tier="t", time=3000)
    a(n=6, base=250, step=7, many=12, free=4, rest=3, cost=20, **t)
    a(n=300, base=0, step=1, many=60, free=1, rest=60, **t)
    a(need=("end", "data cut", "index cut"), n=200, plen=250, base=0, step=100, many=20, free=1, rest=900, levels=4, **t)
    return L


prop("C15",
     "every combination, from sets of up to 40 sizes chosen around the cut, of the sizes of the first 1-4 entries, the others fixed; up to 110 (thorough 300) entries; every block size (64 bits) and every interval, both symbolic, for 4 to 33 entries over 1 to 5 levels of index; 24 fixed block sizes 0..2^20 with every size of the first entry around the cut; all codecs; "
     "entry sizes are case-split (a size shapes memory), contents fixed",
     c15(), ["the independent decoder recovers the blocks"])


# ---- C18 -------------------------------------------------------------------------------------------
def c18():
    L = []
    both = ("accepted in order",)
    mis = ("accepted in order", "accepted out of order")
    a = lambda need=both, **k: L.append(Inst("c18", need, **k))
    a(n=3, klo=0, khi=2)
    a(n=4, klo=1, khi=1)
    a(n=5, klo=1, khi=1)
    for lv in (0, 1, 2):
        # every entry fills a block: only the index sees the order
        a(n=4, klo=1, khi=1, vlen=1100, levels=lv)
        a(n=4, klo=1, khi=1, vlen=520, levels=lv, need=mis)
        a(n=5, klo=1, khi=1, vlen=2, vbig=1100, levels=lv, need=mis, cost=3)
    for lv in (2, 3):
        a(n=8, plen=500, klo=1, khi=1, vlen=520, levels=lv, cost=4)
    for iv in (1, 2):
        a(n=4, klo=1, khi=1, interval=iv)
        a(n=4, klo=1, khi=1, vlen=520, interval=iv, need=mis)
    a(n=6, plen=500, klo=1, khi=1, vlen=300, levels=2, need=mis, cost=3)
    a(n=4, plen=1, klo=0, khi=2, cost=2)
    # keys longer than 8 and 16 bits count
    for pl in (7, 8, 15, 16, 31, 63, 255, 256, 1023, 4096, 70000):
        a(n=3, plen=pl, klo=0, khi=1, cost=2)
    a(n=4, plen=70000, klo=1, khi=1, vlen=520, levels=1, cost=2)
    a(n=4, klo=1, khi=1, vlen=520, levels=1, need=mis, var="rel")
    a(n=4, klo=0, khi=1, var="rel")
    t = dict(tier="t", time=3000)
    a(n=5, klo=0, khi=2, cost=20, **t)
    a(n=7, klo=1, khi=1, vlen=520, levels=1, need=mis, cost=20, **t)
    a(n=12, plen=500, klo=1, khi=1, vlen=520, levels=2, cost=20, **t)
    return L


prop("C18",
     "sequences of up to 5 (thorough 7) inserts of arbitrary keys of 0..2 bytes in any order, and of up to 8 (12) inserts of arbitrary one-byte keys behind a constant prefix, over 1 to 4 index levels, with small, half-block and whole-block entries",
     c18(), ["a panic is accepted only at or after an out-of-order key; contents of values fixed"])


# ---- C03 -------------------------------------------------------------------------------------------
def c03():
    L = []
    F = ("moved", "lost", "reset", "clone")
    G = ("moved", "lost", "reset")
    a = lambda need=F, **k: L.append(Inst("c03", need, fallback=dict(hist=3), **{**dict(time=200, symk=0), **k}))
    b = lambda **k: a(need=G, clones=0, **k)
    a(n=0, need=("lost", "reset", "clone"))
    a(n=1)
    a(n=3)
    for lv in (0, 1, 2, 3):
        a(n=5, vlen=520, levels=lv, cost=2)
    for iv in (1, 2, 3):
        a(n=7, interval=iv, cost=2)
        b(n=12, interval=iv, vlen=200, levels=1)
    for iv in (4, 6, 7, 8, 9, 10, 15, 16, 17, 31, 32, 33, 64):
        b(n=2 * iv + 5, interval=iv, block=1 << 20, cost=2)
    for lv in (4, 5, 7, 8, 16):
        b(n=5, vlen=520, levels=lv)
    b(n=20)
    b(n=40, vlen=100, levels=1, cost=3)
    # several blocks on the lower index levels
    a(n=6, plen=500, vlen=520, levels=2, cost=20)
    b(n=12, plen=500, vlen=520, levels=2, cost=5)
    b(n=9, plen=500, vlen=520, levels=3, cost=5)
    b(n=14, plen=500, vlen=100, levels=2, cost=5)
    b(n=17, plen=500, vlen=520, levels=3, cost=9)
    b(n=17, plen=500, vlen=520, levels=4, cost=9)
    b(n=6, vlen=1, vbig=3000, levels=2)
    for c in (1, 2, 3, 4, 5):
        b(n=8, plen=500, vlen=520, levels=2, codec=c, cost=5)
    b(n=8, plen=500, vlen=520, levels=2, var="rel", cost=5)
    a(n=4, vlen=520, levels=1, var="rel")
    # an operation fails half way, then an absolute move
    L.append(Inst("c03_faults", END, symk=0, n=0))
    L.append(Inst("c03_faults", END, symk=0, n=4, vlen=520, levels=1, hist=2, cost=5))
    L.append(Inst("c03_faults", END, symk=0, n=6, plen=500, vlen=520, levels=2, cost=9))
    L.append(Inst("c03_faults", END, symk=0, n=4, plen=500, vlen=520, levels=3, cost=9))
    # arbitrary keys: bounded histories
    for lv in (0, 2):
        L.append(Inst("c03", F + ("end",), n=2, upto=1, klo=0, khi=1, vlen=520, levels=lv, hist=2, cost=9))
        L.append(Inst("c03", G + ("end",), n=3, klo=1, khi=1, vlen=520, levels=lv, hist=3, clones=0, cost=9))
    b(n=5, vlen=520, levels=1, cost=5, **SYM)
    b(n=4, vlen=520, levels=2, cost=5, **SYM)
    b(n=6, plen=500, vlen=520, levels=2, cost=12, **SYM)
    t = dict(tier="t", time=3000)
    a(n=12, plen=500, vlen=520, levels=2, cost=20, **t)
    a(n=9, plen=500, vlen=520, levels=3, cost=20, **t)
    b(n=33, plen=500, vlen=520, levels=4, cost=20, **t)
    b(n=100, vlen=100, levels=1, cost=20, **t)
    L.append(Inst("c03_faults", END, symk=0, n=9, plen=500, vlen=520, levels=3, cost=20, **t))
    # beyond 32 bits
    a(n=5, levels=1, hist=1, **HUGE)
    a(n=6, levels=0, hist=1, block=8 << 30, interval=1, **HUGE)
    return L


prop("C03",
     "histories of any length (the loop over operations reaches a fixpoint on its reachable states) of first, last, next, prev, the three seeks with every probe of up to 1 byte behind the whole, a cut or no part of the keys' prefix, reset, and clone followed by one operation on either copy; "
     "files of up to 40 (thorough 100) fixed keys over 1 to 5 index levels with several blocks on each, intervals 1 to 64, every block size and interval (symbolic) for 4 to 6 entries, all codecs; histories of 2-3 operations over up to 3 arbitrary keys" + GB,
     c03(), ["after an operation returned None, relative moves are taken as unspecified until a first, last, seek or reset"])


# ---- C16 -------------------------------------------------------------------------------------------
def c16():
    L = []
    a = lambda **k: L.append(Inst("c16", ("entry", "none"), fallback=dict(hist=3), **{**dict(time=200, symk=0), **k}))
    for lv in (0, 1, 2):
        a(n=9 + 2 * lv, vlen=520, levels=lv)
        a(n=5, vlen=3, levels=lv, many=0)
    L.append(Inst("c16", ("none",), n=0, many=0, symk=0, time=200))
    a(n=40, vlen=520, levels=0, cost=3)
    a(n=40, vlen=520, levels=1, cost=3)
    a(n=12, plen=500, vlen=520, levels=2, cost=5)
    a(n=24, plen=500, vlen=100, levels=2, cost=5)
    a(n=17, plen=500, vlen=520, levels=3, cost=9)
    a(n=17, plen=500, vlen=520, levels=4, cost=9)
    a(n=12, vlen=1, vbig=3000, levels=1)
    a(n=9, vlen=520, levels=0, v1=1)
    a(n=40, vlen=520, levels=0, v1=1, cost=3)
    for c in (1, 2, 3, 4, 5):
        a(n=12, plen=500, vlen=520, levels=2, codec=c, cost=5)
        a(n=9, vlen=520, levels=0, v1=1, codec=c)
    a(n=12, plen=500, vlen=520, levels=2, cost=5, var="rel")
    a(n=6, plen=500, vlen=520, levels=2, cost=4, **SYM)
    a(n=9, vlen=520, levels=0, cost=3, **SYM)
    t = dict(tier="t", time=3000)
    a(n=200, vlen=520, levels=0, cost=20, **t)
    a(n=33, plen=500, vlen=520, levels=4, cost=20, **t)
    a(n=65, plen=500, vlen=520, levels=5, cost=20, **t)
    return L


prop("C16",
     "every operation after every history of any length (fixpoint over the reachable cursor states), with every probe of up to 1 byte behind the whole, a cut or no part of the keys' prefix; files of 9 to 40 (thorough 200) data blocks over 1 to 5 (6) index levels; every block size and interval (symbolic) for 6 and 9 entries; version-1 files; all codecs; opening from two source positions",
     c16(), ["a block load is a read of the source covering the first byte of a block"])


# ---- C06 -------------------------------------------------------------------------------------------
def c06():
    L = []
    a = lambda need=("end", "merged", "stream", "writer"), **k: L.append(Inst("c06", need, **k))
    # no source, empty sources, every overlap of a few arbitrary keys
    a(s=2, m=2, klo=0, khi=1, how=99, way=99, cost=5)
    a(s=3, m=1, klo=0, khi=1, how=99, way=99, cost=3)
    a(s=3, m=2, how=1, way=0, need=("end", "merged", "stream"), cost=9)
    a(s=3, m=2, how=2, way=1, need=("end", "merged", "writer"), cost=9)
    a(s=4, m=1, how=1, way=99, cost=9)
    for ch in (1, 2):
        a(s=3, m=1, how=1, way=99, chain=ch, cost=3)
    a(s=2, m=3, how=1, way=0, need=("end", "merged", "stream"), cost=5)
    # sources of several blocks and index levels
    for lv in (0, 1, 2):
        a(s=2, m=3, full=1, upto=0, vlen=520, levels=lv, how=1, way=99, cost=5)
    a(s=2, m=2, full=1, upto=0, plen=500, vlen=520, levels=2, how=0, way=99, cost=5)
    for iv in (1, 2):
        a(s=2, m=2, interval=iv, how=1, way=99, cost=5)
    for pl in (1, 3, 4, 6, 7, 8, 9, 15, 16, 31, 32, 64, 128, 255, 256):
        a(s=2, m=2, plen=pl, klo=0, khi=1, how=1, way=0, need=("end", "merged", "stream"), cost=4)
    # every number of sources up to 17
    for k in range(4, 18):
        a(s=k, upto=0, m=4, full=1, symk=0, how=1, way=99)
    # many sources and entries, fixed overlapping keys
    for w in (0, 1):
        nd = ("end", "merged", ("stream", "writer")[w])
        a(need=nd, s=9, upto=0, m=6, full=1, symk=0, how=1, way=w)
        a(need=nd, s=5, upto=0, m=12, full=1, symk=0, vlen=520, levels=2, plen=500, how=1, way=w)
        a(need=nd, s=4, upto=0, m=30, full=1, symk=0, vlen=90, levels=1, how=99, way=w)
    # sources of every make: codec, levels, interval, version
    for k in (2, 7, 14):
        a(s=k, upto=0, m=5, full=1, symk=0, vlen=300, mix=1, how=1, way=99)
    a(s=2, m=2, either=0, how=99, way=99, cost=5)
    a(s=13, upto=0, m=9, full=1, symk=0, vlen=300, mix=1, either=0, how=99, way=99)
    # more sources than a byte counts
    a(s=300, upto=0, m=1, full=1, symk=0, same=1, how=1, way=0, need=("end", "merged", "stream"), cost=5)
    for c in (1, 2, 3, 4, 5):
        a(s=3, upto=0, m=4, full=1, symk=0, vlen=520, levels=1, codec=c, how=1, way=99)
    a(s=2, m=2, how=1, way=99, var="rel", cost=5)
    for lv in (0, 2):
        a(s=2, m=3, full=1, upto=0, plen=300, vlen=320, levels=lv, how=1, way=99, symk=0, cost=2, **SYM)
    t = dict(tier="t", time=3000, gb=16)
    a(s=3, m=2, klo=0, khi=1, how=99, way=99, cost=20, **t)
    a(s=4, m=2, how=1, way=0, need=("end", "merged", "stream"), cost=20, **t)
    a(s=5, m=1, how=1, way=99, cost=20, **t)
    a(s=2, m=4, klo=1, khi=2, how=1, way=99, cost=20, **t)
    # beyond 32 bits
    a(n=5, s=2, levels=1, **HUGE)
    return L


prop("C06",
     "up to 3 sources (thorough 4) of up to 2 arbitrary keys each, 4 (5) of up to 1, 2 of up to 3 (4), keys of 0..1 bytes: every order and overlap; 9 sources with fixed overlapping keys, files of up to three index levels, all codecs; sources added by push, add and extend; "
     "three merge functions, one of them injective on the list of values (values tell source and position); streaming and writing" + GB,
     c06(), ["merge functions return a lone value unchanged"])


# ---- C07 -------------------------------------------------------------------------------------------
def c07():
    L = []
    W = ("stream", "writer", "cursors")
    a = lambda need=W, var="dev-hook", **k: L.append(Inst("c07", need, var=var, **{**dict(realloc=99, stable=99, par=99, way=99), **k}))
    # small buffers: arbitrary keys, every configuration, every way out
    a(n=3, upto=1, klo=0, khi=2, vlen=0, cost=9)
    a(n=4, vlen=60, need=W + ("spilled", "chunks merged"), chunks=1, cost=20)
    a(n=4, vlen=60, need=W + ("spilled",), chunks=2, par=0, cost=15)
    a(n=4, vlen=40, vmany=3, vstep=50, vfree=2, symk=0, modk=3, need=W + ("spilled",), chunks=1, cost=9)
    a(n=5, vlen=60, stable=1, par=0, realloc=0, chunks=1, way=0, need=("stream", "spilled", "chunks merged"), cost=15)
    a(n=5, vlen=60, stable=0, par=0, realloc=0, chunks=2, way=1, need=("writer", "spilled", "chunks merged"), cost=15)
    a(n=5, vlen=60, stable=1, par=0, realloc=0, chunks=3, way=2, need=("cursors", "spilled"), cost=15)
    # sizes from empty to larger than the buffer
    for pl in (1, 3, 4, 6, 7, 8, 9, 15, 16, 31, 32):
        a(n=3, plen=pl, klo=0, khi=1, vlen=40, need=W + ("spilled",), chunks=1, par=0, realloc=0, cost=9)
        a(n=3, plen=pl, klo=0, khi=1, vlen=3, budget=4000, chunks=1, par=0, realloc=0, cost=6)
    for ch in (1, 2, 5):
        a(n=6, vlen=0, vmany=5, vstep=55, vfree=3, symk=0, modk=4, chunks=ch, par=0, need=W + ("spilled",), cost=9)
    a(n=4, vlen=0, vmany=4, vstep=170, symk=0, modk=3, chunks=1, par=0, need=W + ("spilled", "chunks merged"), cost=9)
    # long sequences with duplicates
    for md in (1, 2, 7, 13, 101):
        a(n=60, vlen=9, symk=0, modk=md, chunks=3, need=W + ("spilled", "chunks merged"), cost=5)
    a(n=60, vlen=9, symk=0, modk=11, chunks=3, own=0, cost=5)
    a(n=90, vlen=3, symk=0, modk=37, chunks=25, need=W + ("spilled",), cost=5)
    a(n=400, vlen=5, symk=0, modk=50, budget=4000, chunks=2, need=W + ("spilled",), cost=5)
    # more values of a key, entries of a spill and chunks than a byte counts
    for md in (1, 2, 3):
        a(n=700, vlen=4, symk=0, modk=md, budget=100000, chunks=2, stable=1, par=99, realloc=0, cost=5)
    # more values of a key than 10, 12 and 16 bits count, in one spill
    for md in (1, 2):
        a(var="dev", n=5000, vlen=4, symk=0, modk=md, budget=1, chunks=2, stable=99, par=99, realloc=1, way=0, need=("stream",), cost=9)
    a(var="dev", n=66000, vlen=4, symk=0, modk=1, budget=1, chunks=2, stable=1, par=0, realloc=1, way=0, need=("stream",), cost=9, gb=14, steps=3_000_000_000)
    a(n=1000, vlen=4, symk=0, modk=300, budget=14000, chunks=2, need=("stream", "spilled"), way=0, cost=5)
    a(n=900, vlen=60, symk=0, modk=13, chunks=1000, realloc=0, par=0, stable=1, need=W + ("spilled",), cost=9)
    a(n=700, vlen=60, symk=0, modk=13, chunks=300, realloc=0, par=0, stable=1, way=0, need=("stream", "spilled", "chunks merged"), cost=9)
    a(var="dev", n=3000, vlen=4, symk=0, modk=400, budget=1, chunks=2, stable=99, par=0, way=0, need=("stream",), cost=9)
    for st in (0, 1):
        for j in (0, 1):
            a(var="dev", n=4500, vlen=4, symk=0, modk=400, budget=1, chunks=2, stable=st, par=1, way=0, join=j, realloc=1, need=("stream",), cost=9)
    a(var="dev", n=12000, vlen=4, symk=0, modk=1000, budget=1, chunks=2, stable=1, par=1, way=0, join=1, realloc=0, need=("stream",), cost=9)
    # chunk settings
    for c in (1, 2, 3, 4, 5):
        a(n=20, vlen=20, symk=0, modk=7, chunks=2, codec=c, stable=1, par=0, need=W + ("spilled", "chunks merged"), cost=3)
    for lv in (1, 2):
        for iv in (1, 3):
            a(n=30, vlen=120, plen=100, symk=0, modk=19, budget=3000, chunks=2, levels=lv, interval=iv, par=0, need=W + ("spilled",), cost=3)
    a(n=30, vlen=300, plen=200, symk=0, modk=23, budget=8000, chunks=1, levels=2, block=1024, par=0, cost=3)
    # the real thresholds
    a(var="dev", n=24, vlen=1000000, symk=0, modk=9, budget=1, chunks=1, par=0, way=0, stable=1, need=("stream", "spilled", "chunks merged"), cost=9, gb=12)
    a(var="dev", n=24, vlen=1000000, symk=0, modk=9, budget=1, chunks=2, par=0, way=1, stable=0, need=("writer", "spilled"), cost=9, gb=12)
    a(var="dev", n=4, upto=1, klo=1, khi=1, vlen=3, own=0, budget=1, cost=20)
    a(var="dev", n=30, vlen=20000, symk=0, modk=9, budget=1, cost=3)
    a(var="rel-hook", n=4, vlen=60, chunks=1, par=0, need=W + ("spilled", "chunks merged"), cost=15)
    a(var="rel-hook", n=60, vlen=9, symk=0, modk=7, chunks=3, need=W + ("spilled", "chunks merged"), cost=5)
    # any budget, any number of chunks
    a(n=4, vlen=60, par=0, need=W + ("spilled", "chunks merged"), cost=3, **SB)
    a(n=5, vlen=60, par=0, way=0, need=("stream", "spilled", "chunks merged"), cost=9, **SB)
    a(n=12, vlen=60, symk=0, modk=4, need=W + ("spilled", "chunks merged"), **SB)
    a(n=60, vlen=30, symk=0, modk=11, par=0, need=W + ("spilled", "chunks merged"), cost=2, **SB)
    a(n=6, vlen=0, vmany=5, vstep=55, vfree=3, symk=0, modk=4, par=0, need=W + ("spilled",), cost=3, **SB)
    a(n=10, vlen=300, plen=200, symk=0, modk=7, par=0, stable=1, levels=2, budget=1500, chunks=1, need=W + ("spilled", "chunks merged"), cost=3, **SYM)
    a(var="dev", n=20, vlen=2000000, symk=0, modk=9, par=0, way=0, stable=1, need=("stream", "spilled", "chunks merged"), cost=9, gb=12, **SB)
    a(var="rel-hook", n=12, vlen=60, symk=0, modk=4, par=0, need=W + ("spilled", "chunks merged"), **SB)
    # the default storage (temporary files), and every default
    a(n=4, vlen=60, par=0, own=2, chunks=1, cost=15)
    a(n=40, vlen=9, symk=0, modk=11, chunks=3, own=2, cost=5)
    a(n=12, vlen=60, symk=0, modk=4, par=0, own=2, **SB)
    for c in (1, 2, 3, 4, 5):
        a(n=20, vlen=20, symk=0, modk=7, chunks=2, codec=c, stable=1, par=0, realloc=0, own=2, cost=3)
    a(var="dev", n=24, vlen=1000000, symk=0, modk=9, budget=1, chunks=1, par=0, realloc=0, stable=1, own=2, cost=9, gb=12)
    a(n=4, klo=0, khi=2, vlen=60, par=0, stable=0, realloc=0, own=3, cost=5)
    a(var="dev", n=30, vlen=20000, symk=0, modk=9, par=0, stable=0, realloc=0, own=3, cost=3)
    a(var="rel-hook", n=30, vlen=20, symk=0, modk=7, chunks=2, par=0, own=2, cost=3)
    t = dict(tier="t", time=3000, gb=16)
    a(n=5, vlen=60, chunks=1, cost=20, need=W + ("spilled", "chunks merged"), **t)
    a(n=6, vlen=60, stable=1, par=0, realloc=0, chunks=1, way=0, need=("stream", "spilled", "chunks merged"), cost=20, **t)
    a(n=4, klo=0, khi=2, vlen=30, vmany=3, vstep=50, vfree=2, chunks=1, par=0, cost=20, **t)
    a(n=400, vlen=9, symk=0, modk=83, chunks=3, cost=20, need=W + ("spilled", "chunks merged"), **t)
    # beyond 32 bits
    for b in (1, 12000000000):
        a(var="dev", n=7, modk=4, chunks=2, budget=b, **{**HUGE, "par": 0})
    return L


prop("C07",
     "sequences of up to 5 (thorough 6) inserts of arbitrary keys of 1 byte (3 of 0..2 bytes) in any order with any duplicates under a 160-byte buffer; of up to 120 (400) inserts of fixed keys; sizes 0 to three times the buffer; every combination of reallocation, algorithm, parallel flag and way out, 1-25 chunks, "
     "any budget and any number of chunks (64-bit, symbolic) for 4 to 60 inserts; up to 66000 values of one key in a spill; all chunk codecs, block, interval and index settings; vectors, recording and default (temporary files) chunk storage; the real 10 MB threshold with 1 MB entries" + GB,
     c07(), ["small buffers come from the verification hook: two constants changed (131072 to 64, 10485760 to 160)",
             "rayon's parallel sorts run without threads: its join runs the two halves one after the other, in either order",
             "the system calls of temporary files (open, read, write, lseek, close) are those of a file system in memory that never fails; replays use the real tempfile crate"])


# ---- C08 -------------------------------------------------------------------------------------------
def c08():
    L = []
    a = lambda need=("spill", "end"), var="dev-hook", **k: L.append(Inst("c08", need, var=var, **{**dict(par=0, stable=1, realloc=99), **k}))
    # any number of inserts of one size each
    for ch in (1, 2, 3, 5):
        a(fixed=1, many=5, step=8, chunks=ch, need=("spill", "end", "chunks merged"), fallback=dict(n=12), cost=3)
    a(fixed=1, base=1, many=39, step=1, chunks=1, fallback=dict(n=12), cost=3)
    a(fixed=1, base=0, many=40, step=1, chunks=2, fallback=dict(n=12), cost=3)
    a(fixed=1, many=12, base=1, step=7, budget=400, chunks=2, fallback=dict(n=20), cost=3)
    a(fixed=1, many=4, base=20, step=17, budget=1000, chunks=1, fallback=dict(n=30), cost=5)
    for al in (0, 1):
        for par in (0, 1):
            a(fixed=1, many=5, step=8, chunks=1, stable=al, par=par, fallback=dict(n=12), cost=3)
    a(fixed=1, klen=3, many=4, step=9, chunks=2, fallback=dict(n=12))
    for ch in (5, 10):
        a(fixed=1, base=0, many=41, step=1, chunks=ch, fallback=dict(n=40), cost=5)
    # distinct keys: what was spilled grows
    for ch in (1, 2, 5, 9):
        a(fixed=1, base=1, many=38, step=1, chunks=ch, dist=1, n=60, need=("spill", "end", "chunks merged"), cost=5)
    a(fixed=1, base=8, many=3, step=15, chunks=2, dist=1, n=400, need=("spill", "end", "chunks merged"), cost=5)
    a(fixed=1, base=20, many=10, step=20, chunks=3, dist=1, budget=1000, n=200, cost=5)
    a(many=2, base=9, step=29, chunks=3, realloc=1, dist=1, n=12, cost=5)
    # mixed sizes
    for rl in (0, 1):
        a(many=2, base=8, step=31, chunks=1, realloc=rl, n=9, cost=5)
        a(many=3, base=1, step=19, chunks=2, realloc=rl, n=7, cost=5)
        a(many=2, base=39, step=1, chunks=1, realloc=rl, n=9, cost=5)
    a(many=2, base=0, step=40, chunks=1, realloc=0, time=150, fallback=dict(n=9), cost=9)
    a(many=2, base=20, step=20, chunks=2, realloc=0, time=150, fallback=dict(n=7), cost=9)
    a(many=3, base=20, step=10, chunks=1, realloc=0, time=150, fallback=dict(n=7), cost=9)
    a(many=2, base=30, step=10, chunks=1, realloc=1, time=150, fallback=dict(n=7), cost=9)
    a(many=2, base=60, step=33, klen=7, chunks=3, realloc=0, budget=400, time=150, fallback=dict(n=9), cost=9)
    a(many=2, base=120, step=90, chunks=2, realloc=0, budget=1000, time=150, fallback=dict(n=9), cost=9)
    a(many=2, base=200, step=47, chunks=2, realloc=1, budget=1000, time=150, fallback=dict(n=9), cost=9)
    a(fixed=1, many=3, step=16, chunks=0, n=20)
    # codecs and layouts of chunks
    for c in (1, 2, 3, 4, 5):
        a(fixed=1, many=3, base=10, step=13, chunks=2, codec=c, n=24)
    a(fixed=1, many=3, base=10, step=13, chunks=2, levels=2, n=24)
    # the real constants
    for rl in (0, 1):
        a(var="dev", fixed=1, many=3, n=500, base=60000, step=300000, budget=10485760, chunks=1, realloc=rl, need=("spill", "end", "chunks merged"), cost=5)
        a(var="dev", fixed=1, many=2, n=60, base=2621432, step=8, budget=1000, eff=10485760, chunks=2, realloc=rl, cost=5)
        a(var="dev", fixed=1, many=2, n=120, base=500000, step=800000, dist=1, budget=10485760, chunks=4, realloc=rl, cost=5)
        a(var="dev", fixed=1, many=2, n=90, base=1000000, step=2000000, budget=16000000, chunks=3, realloc=rl, cost=5)
    a(var="rel-hook", fixed=1, many=5, step=8, chunks=1, fallback=dict(n=12), cost=3)
    # any budget, any number of chunks
    G = dict(SB, dist=1, klen=2, need=("spill", "end", "chunks merged"))
    a(n=100, base=8, many=1, cost=2, **G)
    a(n=40, base=0, step=7, many=6, fixed=1, cost=2, **G)
    a(n=60, base=0, step=1, many=37, fixed=1, cost=5, **G)
    a(n=8, base=1, step=17, many=3, cost=9, **G)
    a(n=40, base=3, step=30, many=2, fixed=1, codec=2, cost=3, **G)
    a(var="dev", eff=10485760, n=40, base=600000, step=2000000, many=2, fixed=1, cost=3, **G)
    a(var="dev", eff=10485760, n=300, base=90000, step=1, many=1, fixed=1, cost=3, **G)
    t = dict(tier="t", time=3000, gb=16)
    a(many=3, base=1, step=19, chunks=2, n=11, cost=20, **t)
    a(many=2, base=0, step=40, chunks=1, realloc=1, fallback=dict(n=14), cost=20, **t)
    a(many=3, base=1, step=19, chunks=2, realloc=0, fallback=dict(n=10), cost=20, **t)
    a(many=2, base=30, step=70, klen=7, chunks=3, realloc=0, budget=400, fallback=dict(n=14), cost=20, **t)
    a(var="dev", fixed=1, many=4, n=4000, base=30000, step=30000, budget=20000000, chunks=4, cost=20, **t)
    # beyond 32 bits
    for r in (0, 1):
        a(var="dev", fixed=1, many=1, n=60, base=1 << 28, budget=1 << 32, chunks=1, dist=1, par=0, stable=1, realloc=r, heapgb=80, cost=4)
    return L


prop("C08",
     "any number of inserts (fixpoint) of one size out of 0..40 bytes (the budget's quarter) under a 160-byte budget and of sampled sizes under 400 and 1000 bytes, 1-5 chunks; every sequence of 9 (thorough 14) inserts over two or three sizes; any budget and any number of chunks (64-bit, symbolic) with reallocation for 8 to 300 inserts; the real constants (131072-byte buffer, 10 MB minimum) with 0.06 to 3 MB entries up to 500 (4000) inserts" + "; 60 inserts of 256 MB under a budget of 4 GB",
     c08(), ["small buffers come from the verification hook", "values are dropped by the merge function, so the content stays small"])


# ---- C11 -------------------------------------------------------------------------------------------
def c11():
    L = []
    H = "dev-hook"
    def a(sc, tier="q", time=400, cost=3, var=None, gb=8, **k):
        L.append(Inst("c11", END, var=var or (H if sc == 6 else "dev"), tier=tier, time=time, cost=cost, gb=gb, sc=sc, **k))
    # the writer: every schedule, to a fixpoint
    for lv in (0, 1, 2):
        a(0, n=3, symk=1, klo=1, khi=1, vlen=9, levels=lv, symv=1, way=99, split=1)
    a(0, n=6, symk=0, vlen=520, levels=1, way=99, split=2)
    a(0, n=6, symk=0, plen=500, vlen=520, levels=2, way=99, split=3)
    a(0, n=4, symk=0, vlen=520, levels=1, way=0, split=1, devs=1, room=8192)
    a(0, n=6, symk=0, vlen=2000, levels=1, way=0, split=3, room=16384)
    a(0, n=40, symk=0, vlen=100, levels=1, way=0, split=3, room=16384)
    for c in (1, 2, 3, 4, 5):
        a(0, n=6, symk=0, vlen=520, levels=1, codec=c, way=99, split=2)
        a(0, n=3, symk=0, vlen=30, codec=c, way=0, split=1)
        a(0, n=40, symk=0, vlen=100, levels=2, codec=c, level=3, way=0, split=4)
    # sources
    for sc in (1, 2, 3, 4):
        small = dict(n=2, symk=0, vlen=5) if sc != 2 else dict(n=1, symk=0, vlen=5, hist=1)
        a(sc, split=3, cost=5, **small)
        a(sc, split=4, n=3 if sc == 3 else 5, symk=0, vlen=520, levels=1, cost=5, **(dict(hist=2, units=2) if sc == 2 else {}))
        if sc == 3:
            a(sc, split=4, n=4, symk=0, plen=500, vlen=520, levels=2, units=1, cost=5)
            a(sc, split=4, n=9, symk=0, plen=500, vlen=520, levels=2, units=2, lower=1, upper=0, cost=5)
            a(sc, split=4, n=9, symk=0, plen=500, vlen=520, levels=2, units=2, lower=0, upper=2, cost=5)
        else:
            a(sc, split=4, n=9, symk=0, plen=500, vlen=520, levels=2, units=4 if sc == 4 else 9, cost=5, **(dict(hist=1) if sc == 2 else {}))
    a(1, split=1, devs=2, n=2, symk=0, vlen=5, cost=5)
    a(1, split=1, devs=1, n=4, symk=0, vlen=520, levels=1, cost=9)
    a(1, split=2, devs=2, n=4, symk=0, vlen=520, levels=1, cost=5)
    a(1, split=1, devs=1, n=2, klo=1, khi=1, symk=1, vlen=9, symv=1, cost=5)
    a(2, split=1, devs=1, n=3, symk=0, vlen=520, levels=1, hist=1, cost=9)
    a(3, split=2, devs=1, n=3, symk=0, vlen=520, levels=1, cost=5, rev=99)
    a(4, split=2, devs=1, n=3, symk=0, vlen=520, levels=1, cost=5, rev=99)
    for c in (1, 2, 3, 4, 5):
        a(1, split=2, devs=2, n=4, symk=0, vlen=520, levels=1, codec=c, cost=9)
        a(1, split=1, devs=1, n=3, symk=0, vlen=30, codec=c, cost=9)
        a(1, split=4, n=30, symk=0, vlen=3, vstep=30, levels=1, codec=c, cost=5)
    # blocks longer than a decoder's chunk
    for c in (1, 3, 4, 5):
        a(1, split=4, n=3, symk=0, vlen=70000, codec=c, units=3, cost=5)
    # mergers
    a(5, split=3, devs=2, n=3, symk=0, vlen=5, s=2, way=99, cost=5)
    a(5, split=4, n=6, symk=0, vlen=520, s=3, levels=1, way=99, cost=5)
    a(5, split=2, devs=1, n=4, symk=0, vlen=300, s=3, levels=1, way=99, cost=5)
    # sorters
    a(6, split=4, n=5, vlen=60, symk=0, par=0, chunks=1, way=99, units=20, cost=5)
    a(6, split=2, devs=1, n=4, vlen=60, symk=0, par=0, chunks=1, way=99, cost=9)
    a(6, split=1, devs=1, n=3, vlen=60, symk=0, par=0, realloc=0, stable=1, chunks=1, way=99, cost=9)
    for c in (1, 2, 3, 4, 5):
        a(6, split=4, n=5, vlen=60, symk=0, par=0, realloc=0, stable=1, chunks=1, way=99, units=12, codec=c, cost=5)
        a(6, split=3, devs=1, n=4, vlen=60, symk=0, par=0, realloc=0, stable=1, chunks=1, way=99, codec=c, cost=5)
    a(1, split=2, devs=2, n=4, symk=0, vlen=520, levels=1, var="rel", cost=5)
    a(0, n=4, symk=0, vlen=520, levels=1, way=99, split=2, var="rel")
    # any block size and interval, any budget and number of chunks
    a(0, n=4, symk=0, plen=300, vlen=520, levels=1, way=99, split=4, cost=3, **SYM)
    a(1, split=4, n=5, symk=0, plen=300, vlen=320, levels=2, units=2, cost=4, **SYM)
    a(6, split=4, n=6, vlen=60, symk=0, par=0, stable=1, way=99, units=3, cost=4, **SB)
    t = dict(tier="t", time=3000, gb=16)
    a(0, n=4, symk=0, vlen=520, levels=1, way=0, split=1, cost=20, **t)
    a(1, split=2, devs=3, n=4, symk=0, vlen=520, levels=1, cost=20, **t)
    a(1, split=1, devs=3, n=2, symk=0, vlen=5, cost=20, **t)
    a(2, split=4, n=5, symk=0, vlen=520, levels=1, hist=2, units=5, cost=20, **t)
    a(6, split=2, devs=2, n=4, vlen=60, symk=0, par=0, realloc=0, stable=1, chunks=1, way=99, cost=20, **t)
    a(5, split=2, devs=2, n=4, symk=0, vlen=300, s=3, levels=1, way=99, cost=20, **t)
    return L


prop("C11",
     "writers: every schedule of partial writes and interruptions (fixpoint over the states of the write loop), for blocks of up to 30 bytes any number of accepted bytes per call, for longer ones 1, half, all but one and all. Readers, iterators, mergers, sorters: every schedule with up to 2 (thorough 3) split or interrupted calls anywhere, "
     "every schedule over {1 byte, all, interrupted} for tiny files, and the uniform ones (at most 1..40 bytes per call, with and without an interruption before each); all codecs",
     c11(), ["contents are concrete except in the instances with symv=1", "interruptions of flush and seek are not part of the property"])


# ---- C12 -------------------------------------------------------------------------------------------
def c12():
    L = []
    def a(sc, need=("failure", "no failure"), tier="q", time=400, cost=3, var=None, gb=8, **k):
        L.append(Inst("c12", need, var=var or ("dev-hook" if sc == 6 else "dev"), tier=tier, time=time, cost=cost, gb=gb, sc=sc, **{**dict(symk=0), **k}))
    M = ("failure", "no failure", "merge failure")
    S = M + ("creator failure",)
    a(0, n=0, way=99)
    a(0, n=2, symk=1, klo=0, khi=1, vlen=3, symv=1, way=99)
    for lv in (0, 1, 2):
        a(0, n=6, vlen=520, levels=lv, way=99)
        a(0, n=9, plen=500, vlen=520, levels=lv, way=99)
        a(1, n=6, vlen=520, levels=lv)
    a(1, n=0)
    a(1, n=3, symk=1, klo=1, khi=1, vlen=3, symv=1)
    a(1, n=9, plen=500, vlen=520, levels=2)
    a(1, n=17, plen=500, vlen=520, levels=3)
    a(2, n=3, vlen=520, levels=1, hist=2, cost=9)
    a(2, n=6, plen=500, vlen=520, levels=2, hist=1, cost=5)
    a(2, n=6, plen=500, vlen=520, levels=2, hist=2, kind=0, cost=9)
    a(3, n=3, vlen=520, levels=1, kind=99, cost=9)
    a(3, n=5, plen=500, vlen=520, levels=2, kind=0, cost=5)
    a(4, n=4, vlen=520, levels=1, cost=5)
    a(4, n=9, plen=500, vlen=520, levels=2, kind=0, cost=5)
    a(5, n=4, vlen=520, levels=1, s=3, way=99, need=M, cost=5)
    a(5, n=8, plen=500, vlen=520, levels=2, s=2, way=99, need=M, cost=5)
    a(5, n=0, vlen=5, s=0, way=1, need=("failure", "no failure"))
    a(6, n=4, vlen=60, chunks=1, need=S, cost=9)
    a(6, n=7, vlen=60, chunks=2, par=0, need=S, cost=9)
    a(6, n=30, vlen=9, modk=5, chunks=2, par=0, stable=1, need=S, cost=9)
    a(6, n=0, par=0, need=("failure", "no failure", "creator failure"))
    a(6, n=4, vlen=300, chunks=1, levels=1, interval=1, par=0, stable=1, need=S, cost=5)
    for c in (1, 2, 3, 4, 5):
        a(0, n=6, vlen=520, levels=1, codec=c, way=99)
        a(1, n=6, vlen=520, levels=1, codec=c)
        a(2, n=3, vlen=520, levels=1, hist=1, codec=c)
        a(3, n=3, vlen=520, levels=1, kind=1, codec=c, cost=5)
        a(5, n=4, vlen=520, levels=1, s=2, way=99, codec=c, need=M)
        a(6, n=4, vlen=60, chunks=1, par=0, stable=1, codec=c, need=S, cost=5)
        a(1, n=3, vlen=70000, codec=c, cost=4)
    a(1, n=6, vlen=520, levels=1, var="rel")
    a(6, n=4, vlen=60, chunks=1, par=0, need=S, var="rel-hook", cost=5)
    a(6, n=30, vlen=1000000, modk=9, budget=1, chunks=1, par=0, stable=1, kind=0, var="dev", need=S, cost=9, gb=14)
    # every other kind of failure
    a(0, n=3, vlen=520, levels=1, way=99, kind=6, cost=3)
    a(1, n=3, vlen=520, levels=1, kind=6, cost=3)
    a(2, n=3, vlen=520, levels=1, hist=1, kind=6, cost=3)
    a(3, n=2, vlen=520, levels=1, kind=6, rev=0, lower=1, upper=1, cost=5)
    a(3, n=2, vlen=520, levels=1, kind=6, rev=1, lower=1, upper=1, cost=5)
    a(4, n=2, vlen=520, levels=1, kind=6, cost=5)
    a(5, n=3, vlen=520, levels=1, s=2, way=99, kind=6, need=M, cost=5)
    a(6, n=4, vlen=60, chunks=1, par=0, stable=1, realloc=0, kind=6, need=S, cost=9)
    # any block size, interval, budget and number of chunks
    for sc in (0, 1, 2, 5):
        a(sc, n=5, plen=300, vlen=320, levels=2, way=99, kind=0, hist=1, s=2, need=M if sc == 5 else ("failure", "no failure"), cost=4, **SYM)
    a(6, n=7, vlen=60, par=0, stable=1, kind=0, need=S, cost=5, **SB)
    t = dict(tier="t", time=3000, gb=16)
    a(2, n=4, vlen=520, levels=1, hist=3, kind=0, cost=20, **t)
    a(2, n=6, plen=500, vlen=520, levels=2, hist=2, cost=20, **t)
    a(3, n=6, plen=500, vlen=520, levels=2, cost=20, **t)
    a(6, n=8, vlen=60, chunks=1, need=S, cost=20, **t)
    return L


prop("C12",
     "the k-th call of the sink, source, chunk storage, chunk creator or merge function fails, k an arbitrary 64-bit number, six ways of failing (raw OS error, UnexpectedEof, WouldBlock, InvalidData, a write that accepts nothing, a custom payload) and three error types of a creator; "
     "writers of up to 9 entries, full scans both ways of up to 17 entries, histories of up to 2 (thorough 3) operations, range and prefix iterators with every bound around a key, mergers of 3 sources, sorters of up to 30 inserts over all ways out; all codecs",
     c12(), ["one failure per run; what follows a failed call is not specified"])


# ---- C13 -------------------------------------------------------------------------------------------
def c13():
    L = []
    A = ("opened v1", "opened v2", "rejected")
    L.append(Inst("c13", A, lo=0, hi=44))
    L.append(Inst("c13", A, lo=0, hi=44, var="rel"))
    for n in (45, 60, 100, 255, 256, 300):
        L.append(Inst("c13", A, lo=n, hi=n + 1))
    for n in (512, 1024, 1500, 2048, 4096, 8192, 16384, 65536, 131072):
        L.append(Inst("c13_long", A, around=n, **{"with": n % 3 * 0x60}))
    for c in (0, 1, 2, 3, 4, 5):
        for lv in (0, 2):
            L.append(Inst("c13_files", A[1:], n=3, symk=0, vlen=30, codec=c, levels=lv))
            L.append(Inst("c13_files", (A[0], A[2]), n=3, symk=0, vlen=30, codec=c, v1=1, levels=0))
            L.append(Inst("c13_crash", ("crashed", "finished", "opened v2", "rejected"), n=4, symk=0, vlen=520, codec=c, levels=lv))
    # content that may itself look like a trailer
    L.append(Inst("c13_files", A[1:], n=1, klo=0, khi=2, vlen=2, symv=1))
    L.append(Inst("c13_tail", A, vlen=30, cost=3))
    L.append(Inst("c13_tail", A, vlen=30, levels=1, cost=3))
    L.append(Inst("c13_tail", A, vlen=30, key=1, cost=3))
    for n in (0, 1, 5):
        L.append(Inst("c13_files", A[1:], n=n, symk=0, vlen=520, levels=1))
    t = dict(tier="t", time=3000)
    L.append(Inst("c13", A, lo=0, hi=120, **t))
    L.append(Inst("c13_tail", A, vlen=60, levels=2, cost=20, **t))
    return L


prop("C13",
     "every byte string of up to 44 bytes (thorough 120) and of lengths around 45, 60, 100, 256, 300; every truncation and every one-byte corruption of the trailer of finished files of both versions, all codecs, with 30 (60) arbitrary bytes of value or key that may look like a trailer; what a sink holds after its k-th call fails, for every k",
     c13())


# ---- C14 -------------------------------------------------------------------------------------------
def c14():
    L = [Inst("c14", ("1",), var="dev-hook"), Inst("c14", ("1",), var="rel-hook")]
    L.append(Inst("c14_entries", END, around=1, what=1))
    for n in (1, 128, 16384):
        L.append(Inst("c14_entries", END, around=n, what=99, pos=0))
    for n in (128, 256, 16384, 65536, 2097152):
        for lv in (0, 2):
            L.append(Inst("c14_entries", END, around=n, what=99, levels=lv, cost=3))
    L.append(Inst("c14_entries", END, around=16777216, what=1, many=3, cost=5))
    L.append(Inst("c14_entries", END, around=2097152, what=2, many=3, var="rel", cost=3))
    L.append(Inst("c14_entries", END, around=128, what=2, many=3, var="rel"))
    for key in (0, 1):
        L.append(Inst("c01_len", END, lo=0, hi=400, key=key))
        L.append(Inst("c01_len", END, lo=16360, hi=16410, key=key))
        L.append(Inst("c01_len", END, lo=2097140, hi=2097160, key=key, cost=3))
    for c in (1, 2, 3, 4, 5):
        L.append(Inst("c14_entries", END, around=128, what=99, codec=c, symb=0))
        L.append(Inst("c14_entries", END, around=16384, what=99, codec=c, symb=0))
    # the real thing: entries as long as the format allows, and those it does not, through a writer and a sorter
    for n in (1 << 28, (1 << 32) - 1):
        L.append(Inst("c14_entries", END, around=n, what=99, flat=1, heapgb=60, cost=15))
        L.append(Inst("c14_sorter", END, around=n, heapgb=80, cost=15))
    L.append(Inst("c14_entries", END, around=(1 << 32) - 1, what=99, levels=2, interval=1, flat=1, heapgb=60, cost=15))
    L.append(Inst("c14_sorter", END, around=1 << 31, many=2, heapgb=80, cost=9))
    L.append(Inst("c14_entries", END, around=1 << 28, what=99, levels=2, flat=1, heapgb=60, cost=5))
    L.append(Inst("c14_entries", END, around=1 << 31, what=2, levels=1, flat=1, heapgb=60, cost=9))
    return L


prop("C14",
     "the length codec: every 32-bit length, with every content of the buffer before and of what follows the encoding. Entries: key, value and both lengths within 1 of 2^7, 2^8, 2^14, 2^16, 2^21, 2^24, 2^28, 2^31 and 2^32 (the format's limit: what is longer panics), through a writer, a file and a sorter, and all lengths 0..400, 16360..16410, 2097140..2097160",
     c14(), ["the bytes of entries of 2^28 and more are 0xFF but for their ends"])


# ---- C17 -------------------------------------------------------------------------------------------
def c17():
    L = []
    a = lambda need=END, var="dev-hook", **k: L.append(Inst("c17", need, var=var, **{**dict(par=0, stable=1, realloc=99, way=99), **k}))
    a(n=2, many=200, step=1, base=0, free=1, chunks=1, stable=99, cost=5)
    a(n=2, many=24, base=0, step=8, chunks=1, par=99, stable=99, cost=5)
    a(n=2, many=60, base=0, step=1, chunks=1, cost=9)
    a(n=3, many=14, base=0, step=15, chunks=1, way=0, cost=9)
    a(n=3, many=14, base=1, step=16, chunks=2, way=1, cost=9)
    a(n=4, many=6, base=0, step=33, chunks=1, way=2, cost=9)
    a(n=4, many=6, base=7, step=40, chunks=1, way=3, cost=5)
    a(n=12, many=70, base=0, step=1, free=1, rest=16, chunks=2, cost=9)
    a(n=30, many=40, base=0, step=1, free=1, rest=0, klen=0, chunks=1, cost=5)
    a(n=2, many=120, base=3, step=1, free=1, keys=1, rest=5, chunks=1, cost=5)
    a(n=3, many=20, base=100, step=60, chunks=1, budget=500, way=0, cost=5)
    # budgets that are not a multiple of the bound's size
    for b in (161, 167, 168, 175, 176, 177, 191):
        a(n=2, many=40, base=90, step=1, free=1, rest=20, budget=b, chunks=1, cost=3)
    # the real constants: fills 131072 bytes, grows, exceeds
    for base in (131030, 262100, 524240):
        a(var="dev", n=3, many=40, base=base, step=1, free=1, rest=10, budget=1, way=0, cost=3)
    a(var="dev", n=9, many=3, base=20000, step=70000, free=3, rest=131056, budget=1, way=99, cost=5)
    a(var="dev", n=2, many=2, base=10485728, step=32, free=1, rest=40, budget=1, realloc=99, way=0, cost=5, gb=14)
    a(var="rel-hook", n=2, many=60, base=0, step=1, chunks=1, realloc=99, way=0, cost=5)
    L.append(Inst("c17_budget", ("built", "refused"), cost=2))
    L.append(Inst("c17_budget", ("built", "refused"), var="rel", cost=2))
    # borrowed entries
    r = lambda **k: L.append(Inst("c17_reads", END, **k))
    r(n=5, symk=0, vlen=520, levels=1, hist=2, cost=3)
    r(n=5, symk=0, vlen=520, levels=2, hist=2, cost=3)
    r(n=9, symk=0, plen=500, vlen=520, levels=2, hist=2, cost=5)
    r(n=4, klo=1, khi=1, vlen=520, levels=0, hist=1, cost=5)
    for c in (1, 2, 3, 4, 5):
        r(n=5, symk=0, vlen=520, levels=1, hist=2, codec=c, cost=3)
    L.append(Inst("c17_merge", END, cost=3))
    L.append(Inst("c17_merge", END, n=8, vlen=520, levels=1, s=3, cost=3))
    for c in (1, 2, 3, 4, 5):
        L.append(Inst("c17_merge", END, n=6, vlen=520, codec=c, cost=3))
    # failures on the way: nothing is leaked or freed twice
    for sc in (0, 1, 2, 3, 4, 5, 6):
        L.append(Inst("c17_fails", END, var="dev-hook", sc=sc, n=4, vlen=60 if sc == 6 else 520, levels=1, symk=0, kind=0, par=0, chunks=1, way=99, rev=99, hist=1, s=2, cost=5))
    # any budget, any number of chunks
    a(n=3, many=8, base=0, step=27, stable=99, cost=4, **SB)
    a(n=12, many=70, base=0, step=1, free=1, rest=16, cost=4, **SB)
    a(n=40, many=3, base=5, step=31, free=1, rest=30, cost=4, **SB)
    t = dict(tier="t", time=3000, gb=16)
    a(n=3, many=40, base=0, step=5, chunks=1, way=0, cost=20, **t)
    a(n=2, many=180, base=0, step=1, chunks=1, way=0, cost=20, **t)
    r(n=9, symk=0, plen=500, vlen=520, levels=2, hist=3, cost=20, **t)
    # beyond 32 bits
    r(n=5, levels=1, hist=1, **HUGE)
    a(var="dev", n=7, many=2, base=1 << 30, step=7, free=1, rest=1073741800, budget=9000000000, chunks=1, way=0, heapgb=80, cost=15)
    return L


prop("C17",
     "every sequence of up to 2 value sizes 0..59 (3 and 4 sizes on coarser grids up to three times the buffer), 12 and 30 inserts with one free size, keys likewise, reallocation on and off, odd budgets, all ways out and drop with pending entries; the real 131072-byte buffer around its exact-fit, doubling and overflow sizes; "
     "every budget (64-bit) near the largest; cursors, iterators and mergers with every entry read after unrelated allocations; every failing call" + GB,
     c17(), ["every memory access of every instruction executed is checked: bounds, liveness, alignment, initialisation, allocation and free layouts; arithmetic overflow by rustc's own checks in the dev variant",
             "aliasing rules (Stacked/Tree Borrows) are not modelled", "one thread"])
