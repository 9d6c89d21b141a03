"""Path-exploring symbolic execution core: solver variables over finite character
alphabets, integers and reals; conditions; branching; exploration by re-execution."""
import sys
import time
from fractions import Fraction

_VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if _VT not in sys.path:
    sys.path.append(_VT)
import z3  # noqa: E402


class SxControl(BaseException):
    """never caught by code under test (it catches Exception at most)"""


class PathAbort(SxControl):
    """assumption infeasible on this path"""


class PathEnd(SxControl):
    """stop this path early (after a counterexample)"""


class Unsupported(SxControl):
    """the engine cannot model an operation; the path is undecided"""


class OutOfBudget(SxControl):
    pass


# ----------------------------------------------------------------- alphabet
_EXTRA = [
    0x3B1, 0x3A3, 0x3C2, 0x3C3, 0x430, 0x410, 0x5D0, 0x660, 0x665, 0x1E9E, 0x200B, 0x2028,
    0x2029, 0x20AC, 0x212A, 0x2160, 0x3000, 0x4E2D, 0xAC00, 0xD800, 0xDFFF, 0xE000, 0xFB01,
    0xFEFF, 0xFFFD, 0xFFFF, 0x10000, 0x1D7CE, 0x1F600, 0x10FFFF,
]
ALPHA = list(range(0x250)) + _EXTRA
NALPHA = len(ALPHA)
ALPHA_IDX = {cp: i for i, cp in enumerate(ALPHA)}
FULL = (1 << NALPHA) - 1


def mask_of(chars):
    m = 0
    for c in chars:
        cp = c if isinstance(c, int) else ord(c)
        i = ALPHA_IDX.get(cp)
        if i is not None:
            m |= 1 << i
    return m


def mask_pred(fn):
    m = 0
    for i, cp in enumerate(ALPHA):
        if fn(chr(cp)):
            m |= 1 << i
    return m


def mask_range(lo, hi):
    m = 0
    for i, cp in enumerate(ALPHA):
        if lo <= cp <= hi:
            m |= 1 << i
    return m


SURROGATES = mask_range(0xD800, 0xDFFF)


def bits(mask):
    out = []
    while mask:
        b = mask & -mask
        out.append(b.bit_length() - 1)
        mask ^= b
    return out


def mask_ranges(mask):
    """contiguous index ranges of a mask"""
    rs = []
    i = 0
    while mask:
        tz = (mask & -mask).bit_length() - 1
        i += tz
        mask >>= tz
        n = (~mask & (mask + 1)).bit_length() - 1
        rs.append((i, i + n - 1))
        i += n
        mask >>= n
    return rs


class Var:
    """a symbolic character: index into ALPHA"""
    __slots__ = ("name", "z", "dom0", "id")

    def __init__(self, name, dom0, id_):
        self.name = name
        self.z = z3.Int(name)
        self.dom0 = dom0
        self.id = id_

    def __repr__(self):
        return "Var(%s)" % self.name


# ----------------------------------------------------------------- conditions
# A condition is True / False / Mem / And / Or / Not-of-opaque / Z


class Mem:
    __slots__ = ("var", "mask")

    def __init__(self, var, mask):
        self.var = var
        self.mask = mask


class And:
    __slots__ = ("xs",)

    def __init__(self, xs):
        self.xs = xs


class Or:
    __slots__ = ("xs",)

    def __init__(self, xs):
        self.xs = xs


class Z:
    __slots__ = ("e", "vars")

    def __init__(self, e, vars_=()):
        self.e = e
        self.vars = tuple(vars_)


class Rng(Z):
    """a real variable compared with a constant"""
    __slots__ = ("name", "op", "k", "ze")


_NEG = {"<": ">=", "<=": ">", ">": "<=", ">=": "<", "==": "!=", "!=": "=="}
_rngs = {}


def rng(name, ze, op, k):
    key = (name, op, k)
    c = _rngs.get(key)
    if c is None:
        c = Rng.__new__(Rng)
        q = Fraction(repr(k))
        c.name, c.op, c.k, c.ze, c.vars = name, op, q, ze, ()
        v = z3.RealVal(str(q))
        c.e = {"<": lambda: ze < v, "<=": lambda: ze <= v, ">": lambda: ze > v, ">=": lambda: ze >= v,
               "==": lambda: ze == v, "!=": lambda: ze != v}[op]()
        _rngs[key] = c
    return c


def rng_eval(iv, op, k):
    """True / False / None: value of x op k for x in the interval"""
    lo, los, hi, his = iv
    if op in ("==", "!="):
        if k < lo or k > hi or (k == lo and los) or (k == hi and his):
            return op == "!="
        return (op == "==") if lo == hi else None
    if op in ("<", ">="):
        r = True if hi < k or (hi == k and his) else False if lo >= k else None
        return r if op == "<" or r is None else not r
    r = True if lo > k or (lo == k and los) else False if hi <= k else None
    return r if op == ">" or r is None else not r


def c_not(c):
    if type(c) is Rng:
        return rng(c.name, c.ze, _NEG[c.op], int(c.k) if c.k.denominator == 1 else float(c.k))
    if c is True:
        return False
    if c is False:
        return True
    if isinstance(c, Mem):
        return Mem(c.var, FULL & ~c.mask)
    if isinstance(c, And):
        return c_or([c_not(x) for x in c.xs])
    if isinstance(c, Or):
        return c_and([c_not(x) for x in c.xs])
    return Z(z3.Not(c.e), c.vars)


def c_and(xs):
    out = []
    mems = {}
    for x in xs:
        if x is True:
            continue
        if x is False:
            return False
        if isinstance(x, Mem):
            mems[x.var] = mems.get(x.var, FULL) & x.mask
        elif isinstance(x, And):
            for y in x.xs:
                if isinstance(y, Mem):
                    mems[y.var] = mems.get(y.var, FULL) & y.mask
                else:
                    out.append(y)
        else:
            out.append(x)
    res = []
    for v, m in mems.items():
        if m == 0:
            return False
        res.append(Mem(v, m))
    res += out
    if not res:
        return True
    if len(res) == 1:
        return res[0]
    return And(res)


def c_or(xs):
    out = []
    mems = {}
    for x in xs:
        if x is False:
            continue
        if x is True:
            return True
        if isinstance(x, Mem):
            mems[x.var] = mems.get(x.var, 0) | x.mask
        elif isinstance(x, Or):
            for y in x.xs:
                if isinstance(y, Mem):
                    mems[y.var] = mems.get(y.var, 0) | y.mask
                else:
                    out.append(y)
        else:
            out.append(x)
    res = []
    for v, m in mems.items():
        if m == FULL:
            return True
        res.append(Mem(v, m))
    res += out
    if not res:
        return False
    if len(res) == 1:
        return res[0]
    return Or(res)


def c_vars(c, acc):
    if isinstance(c, Mem):
        acc.add(c.var)
    elif isinstance(c, (And, Or)):
        for x in c.xs:
            c_vars(x, acc)
    elif isinstance(c, Z):
        acc.update(c.vars)
    return acc


_memz = {}


def mem_z3(var, mask):
    k = (var.name, mask)
    e = _memz.get(k)
    if e is None:
        parts = []
        for lo, hi in mask_ranges(mask):
            if lo == hi:
                parts.append(var.z == lo)
            else:
                parts.append(z3.And(var.z >= lo, var.z <= hi))
        e = z3.BoolVal(False) if not parts else parts[0] if len(parts) == 1 else z3.Or(parts)
        if len(_memz) > 200000:
            _memz.clear()
        _memz[k] = e
    return e


def to_z3(c):
    if c is True:
        return z3.BoolVal(True)
    if c is False:
        return z3.BoolVal(False)
    if isinstance(c, Mem):
        return mem_z3(c.var, c.mask)
    if isinstance(c, And):
        return z3.And([to_z3(x) for x in c.xs])
    if isinstance(c, Or):
        return z3.Or([to_z3(x) for x in c.xs])
    return c.e


# ----------------------------------------------------------------- path state
class Stats:
    def __init__(self):
        self.queries = 0
        self.solver_s = 0.0
        self.unknown = 0
        self.branches = 0
        self.dom_decided = 0


STATS = Stats()
_varcache = {}


def get_var(name, dom0):
    v = _varcache.get(name)
    if v is None:
        v = Var(name, dom0, len(_varcache))
        _varcache[name] = v
    return v


_SOLVER = None


def _solver():
    global _SOLVER
    if _SOLVER is None:
        _SOLVER = z3.Solver()
        _SOLVER.set("timeout", 10000)
    return _SOLVER


class Path:
    def __init__(self, prefix):
        self.prefix = prefix
        self.pos = 0
        self.trace = []
        self.pending = []  # alternative prefixes discovered on this path
        self.dom = {}
        self.ivl = {}  # real variable -> (lo, strict, hi, strict)
        self.excl = set()  # (real variable, value) known different
        self.reals_mixed = False  # reals occur in other constraints
        self.ent = set()
        self.cons = []  # z3 exprs
        self.solver = _solver()
        self.solver.push()
        self.synced = {}
        self.ncons_synced = 0
        self.unknown = False
        self.deadline = None
        self.zvars = {}
        self.fresh = 0
        self.max_trace = 4000

    def close(self):
        self.solver.pop()

    # -- domains
    def domain(self, var):
        return self.dom.get(var, var.dom0)

    def eval3(self, c):
        if c is True or c is False:
            return c
        if isinstance(c, Mem):
            d = self.dom.get(c.var, c.var.dom0)
            if d & c.mask == 0:
                return False
            if d & ~c.mask == 0:
                return True
            return None
        if isinstance(c, And):
            unk = False
            for x in c.xs:
                r = self.eval3(x)
                if r is False:
                    return False
                if r is None:
                    unk = True
            return None if unk else True
        if isinstance(c, Or):
            unk = False
            for x in c.xs:
                r = self.eval3(x)
                if r is True:
                    return True
                if r is None:
                    unk = True
            return None if unk else False
        if type(c) is Rng:
            if (c.name, c.k) in self.excl and c.op in ("==", "!="):
                return c.op == "!="
            return rng_eval(self.ivl[c.name], c.op, c.k) if c.name in self.ivl else None
        e = c.e
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        return None

    def simplify(self, c):
        if isinstance(c, And):
            return c_and([x for x in (self.simplify(x) for x in c.xs)])
        if isinstance(c, Or):
            return c_or([x for x in (self.simplify(x) for x in c.xs)])
        r = self.eval3(c)
        return c if r is None else r

    # -- solver
    def _sync(self, vars_):
        s = self.solver
        for v in vars_:
            d = self.dom.get(v, v.dom0)
            if self.synced.get(v) != d:
                s.add(mem_z3(v, d))
                self.synced[v] = d
        while self.ncons_synced < len(self.cons):
            s.add(self.cons[self.ncons_synced])
            self.ncons_synced += 1

    def _check(self, *extra):
        t = time.perf_counter()
        r = self.solver.check(*extra)
        STATS.queries += 1
        STATS.solver_s += time.perf_counter() - t
        if r == z3.unknown:
            STATS.unknown += 1
            self.unknown = True
        return r

    def sat(self, c):
        """is PC and c satisfiable? (unknown counts as yes and taints the path)"""
        r = self.eval3(c)
        if r is False:
            return False
        vs = c_vars(c, set()) | self.ent
        self._sync(vs)
        self.solver.push()
        self.solver.add(to_z3(c))
        res = self._check()
        self.solver.pop()
        return res != z3.unsat

    def model_for(self, c):
        """model of PC and c, or None"""
        vs = c_vars(c, set()) | self.ent
        self._sync(vs)
        self.solver.push()
        self.solver.add(to_z3(c))
        res = self._check()
        m = self.solver.model() if res == z3.sat else None
        self.solver.pop()
        return res, m

    def assume_c(self, c):
        c = self.simplify(c)
        if c is True:
            return
        if c is False:
            raise PathAbort()
        if isinstance(c, Mem):
            d = self.dom.get(c.var, c.var.dom0) & c.mask
            if d == 0:
                raise PathAbort()
            self.dom[c.var] = d
            return
        if isinstance(c, And):
            for x in c.xs:
                self.assume_c(x)
            return
        if type(c) is Rng and c.name in self.ivl:
            self.narrow(c)
        else:
            self.reals_mixed = True
        self.ent |= c_vars(c, set())
        self.cons.append(to_z3(c))

    def narrow(self, c):
        lo, los, hi, his = self.ivl[c.name]
        k, op = c.k, c.op
        if op == "!=":
            self.excl.add((c.name, k))
        elif op == "==":
            lo = hi = k
            los = his = False
        elif op in ("<", "<="):
            hi, his = k, op == "<"
        else:
            lo, los = k, op == ">"
        los = los or (c.name, lo) in self.excl
        his = his or (c.name, hi) in self.excl
        self.ivl[c.name] = (lo, los, hi, his)

    def _next_decision(self):
        d = self.prefix[self.pos]
        self.pos += 1
        self.trace.append(d)
        return d

    def tick(self):
        if len(self.trace) > self.max_trace:
            raise OutOfBudget("decision depth")
        if self.deadline is not None and time.time() > self.deadline:
            raise OutOfBudget("time")

    def branch(self, c):
        r = self.eval3(c)
        if r is not None:
            STATS.dom_decided += 1
            return r
        c = self.simplify(c)
        STATS.branches += 1
        if self.pos < len(self.prefix):
            d = self._next_decision()
        else:
            self.tick()
            if isinstance(c, Mem) and c.var not in self.ent or type(c) is Rng and not self.reals_mixed:
                t = f = True
            else:
                t = self.sat(c)
                f = self.sat(c_not(c)) if t else True
            if t and f:
                self.pending.append(self.trace + [False])
                d = True
            elif t:
                d = True
            else:
                d = False
            self.trace.append(d)
        self.assume_c(c if d else c_not(c))
        return d

    def choose(self, n):
        """n-way nondeterministic choice"""
        if n == 1:
            return 0
        if self.pos < len(self.prefix):
            return self._next_decision()
        self.tick()
        for i in range(n - 1, 0, -1):
            self.pending.append(self.trace + [i])
        self.trace.append(0)
        return 0

    def fresh_name(self, base):
        self.fresh += 1
        return "%s!%d" % (base, self.fresh)


CUR = None  # the current Path


def cur():
    if CUR is None:
        raise Unsupported("no active path")
    return CUR


def set_cur(p):
    global CUR
    CUR = p
