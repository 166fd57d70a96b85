"""Explorer and deciding layer for the symbolic harnesses (see harness/symrt.hpp).

For one case of a harness binary it enumerates every feasible path of the real code (an SMT solver decides the
feasibility of each symbolic branch), and asks the solver, per path, whether any assertion can be violated.  A
satisfying assignment is turned into a replay file and executed natively before it is believed.
"""
import signal, itertools, os, sys, time, subprocess, json, traceback
from fractions import Fraction
import z3

sys.set_int_max_str_digits(0)
from sympy.polys.rings import ring as sympy_ring
from sympy import QQ

z3.set_param('memory_max_size', 6000)


class OutOfTime(Exception):
    pass


class Abort(Exception):
    pass


def num(x):
    return x if isinstance(x, int) else int(x, 0)


_FACT = {}


def factors(p):
    """irreducible factors (normalised, hashable) of a polynomial given as a dict"""
    key = frozenset(p.items())
    r = _FACT.get(key)
    if r is not None:
        return r
    names = sorted({v for mon in p for v, _ in mon})
    if not names:
        r = []
    else:
        R, *gens = sympy_ring(names, QQ)
        pos = {v: i for i, v in enumerate(names)}
        d = {}
        for mon, c in p.items():
            e = [0] * len(names)
            for v, k in mon:
                e[pos[v]] = k
            d[tuple(e)] = QQ(c.numerator, c.denominator)
        r = []
        for f, _ in R.from_dict(d).factor_list()[1]:
            f = f.monic()
            r.append(frozenset((tuple((names[i], k) for i, k in enumerate(mon) if k),
                                Fraction(int(c.numerator), int(c.denominator))) for mon, c in f.terms()))
    _FACT[key] = r
    return r


# ---------------------------------------------------------------- term store
class Store:
    """Hash-consed terms shared by all paths of a case."""

    def __init__(self):
        self.idx = {}
        self.terms = [None]

    def mk(self, t):
        i = self.idx.get(t)
        if i is None:
            i = len(self.terms)
            self.terms.append(t)
            self.idx[t] = i
        return i


def poly_of(e, limit=4000):
    """z3 real term -> {monomial: Fraction}, or None when it is not a polynomial"""
    e = z3.simplify(e, som=True, som_blowup=100000000)
    out = {}
    args = e.children() if z3.is_add(e) else [e]
    if len(args) > limit:
        return None

    def mon(t):
        c, vs = Fraction(1), {}
        st = [(t, 1)]
        while st:
            x, k = st.pop()
            if z3.is_int_value(x):
                c *= Fraction(x.as_long()) ** k
            elif z3.is_rational_value(x):
                c *= Fraction(str(x.as_fraction())) ** k
            elif z3.is_mul(x):
                st.extend((y, k) for y in x.children())
            elif x.decl().kind() == z3.Z3_OP_POWER and (z3.is_rational_value(x.arg(1)) or z3.is_int_value(x.arg(1))):
                st.append((x.arg(0), k * int(str(x.arg(1)))))
            elif z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                n = x.decl().name()
                vs[n] = vs.get(n, 0) + k
            else:
                return None
        return tuple(sorted(vs.items())), c
    for a in args:
        r = mon(a)
        if r is None:
            return None
        out[r[0]] = out.get(r[0], 0) + r[1]
    return {k: v for k, v in out.items() if v != 0}


class Interp:
    """Translates store terms to z3."""

    def __init__(self, store, opts):
        self.s = store
        self.o = opts
        self.memo = {}
        self.vars = {}        # name -> z3 const
        self.varsort = {}
        self.side = {}        # term id -> list of z3 side facts needed whenever the term occurs
        self.divs = []
        self.mods = {}
        self.mulbv = {}
        self.subst = {}       # variable -> fraction, from equations taken on the current path

    # -- generic
    def tr(self, root):
        memo = self.memo
        stack = [root]
        terms = self.s.terms
        while stack:
            t = stack[-1]
            if t in memo:
                stack.pop()
                continue
            node = terms[t]
            kids = [k for k in node[1:] if isinstance(k, int)]
            todo = [k for k in kids if k not in memo]
            if todo:
                stack.extend(todo)
                continue
            stack.pop()
            memo[t] = self.build(t, node)
        return memo[root]

    def boolz(self, t):
        return self.tr(t)

    def var(self, name, sort):
        v = self.vars.get(name)
        if v is None:
            v = z3.Const(name, sort)
            self.vars[name] = v
        return v

    def build(self, t, node):
        op = node[0]
        m = self.memo
        f = getattr(self, 'op_' + op, None)
        if f is None:
            raise Abort('no interpretation for ' + op)
        return f(t, node, *[m[k] if isinstance(k, int) else k for k in node[1:]])

    # -- booleans
    def op_true(self, t, n):
        return z3.BoolVal(True)

    def op_false(self, t, n):
        return z3.BoolVal(False)

    def op_not(self, t, n, a):
        return z3.Not(a)

    def op_and(self, t, n, a, b):
        return z3.And(a, b)

    def op_or(self, t, n, a, b):
        return z3.Or(a, b)

    def op_bvar(self, t, n, name):
        return self.var(name, z3.BoolSort())

    # -- reals as fractions (num, den)
    ONE = z3.RealVal(1)

    def op_rc(self, t, n, s):
        return (z3.RealVal(s), self.ONE)

    def op_rvar(self, t, n, name):
        self.varsort[name] = ('r', None, None)
        if name in self.subst:
            return self.subst[name]
        return (self.var(name, z3.RealSort()), self.ONE)

    def op_rivar(self, t, n, name, lo, hi):
        lo, hi = int(lo), int(hi)
        self.varsort[name] = ('ri', lo, hi)
        if self.o.get('ienc') == 'case':
            v = self.var(name, z3.RealSort())
            self.side.setdefault(name, []).append(z3.Or([v == k for k in range(lo, hi + 1)]))
            return (v, self.ONE)
        v = self.var(name, z3.IntSort())
        self.side.setdefault(name, []).append(z3.And(v >= lo, v <= hi))
        return (z3.ToReal(v), self.ONE)

    def isone(self, d):
        return d is self.ONE or (z3.is_rational_value(d) and d.as_fraction() == 1)

    def mul(self, a, b):
        if self.isone(a):
            return b
        if self.isone(b):
            return a
        return a * b

    def op_radd(self, t, n, a, b):
        return self._as(a, b, False)

    def op_rsub(self, t, n, a, b):
        return self._as(a, b, True)

    def _as(self, a, b, neg):
        if a[1].eq(b[1]):
            return ((a[0] - b[0]) if neg else (a[0] + b[0]), a[1])
        x, y = self.mul(a[0], b[1]), self.mul(b[0], a[1])
        return ((x - y) if neg else (x + y), self.mul(a[1], b[1]))

    def op_rmul(self, t, n, a, b):
        return (self.mul(a[0], b[0]), self.mul(a[1], b[1]))

    def op_rdiv(self, t, n, a, b):
        self.divs.append((t, b[0]))
        return (self.mul(a[0], b[1]), self.mul(a[1], b[0]))

    def op_rite(self, t, n, c, a, b):
        if self.isone(a[1]) and self.isone(b[1]):
            return (z3.If(c, a[0], b[0]), self.ONE)
        return (z3.If(c, a[0], b[0]), z3.If(c, a[1], b[1]))

    def op_ruf(self, t, n, name, a):
        f = z3.Function('uf_' + name, z3.RealSort(), z3.RealSort())
        arg = a[0] if self.isone(a[1]) else a[0] / a[1]
        return (f(arg), self.ONE)

    def op_req(self, t, n, a, b):
        if a[1].eq(b[1]):
            if a[0].eq(b[0]):
                return z3.BoolVal(True)
            return a[0] - b[0] == 0
        return self.mul(a[0], b[1]) - self.mul(b[0], a[1]) == 0

    def op_rabs(self, t, n, a):
        neg = a[0] < 0 if self.isone(a[1]) else self.mul(a[0], a[1]) < 0
        return (z3.If(neg, -a[0], a[0]), a[1])

    def op_rlt(self, t, n, a, b):
        # |x| < |y| and 0 < |y| without case splits
        terms, memo = self.s.terms, self.memo
        x, y = terms[n[1]], terms[n[2]]
        if y[0] == 'rabs' and x[0] == 'rabs':
            p, q = memo[x[1]], memo[y[1]]
            l, r = self.mul(p[0], q[1]), self.mul(q[0], p[1])
            return l * l < r * r
        if y[0] == 'rabs' and x[0] == 'rc' and z3.is_rational_value(a[0]) and a[0].as_fraction() == 0:
            return memo[y[1]][0] != 0
        if x[0] == 'rabs' and y[0] == 'rc' and z3.is_rational_value(b[0]) and b[0].as_fraction() <= 0:
            return z3.BoolVal(False)
        if self.isone(a[1]) and self.isone(b[1]):
            return a[0] < b[0]
        d = a[0] * b[1] - b[0] * a[1]
        return d * self.mul(a[1], b[1]) < 0

    # -- small prime fields as bit-vectors
    def fw(self, p):
        return max(1, int(p).bit_length())

    def op_fc(self, t, n, mod, val):
        p = num(mod)
        return z3.BitVecVal(num(val) % p, self.fw(p))

    def op_fvar(self, t, n, mod, name):
        p = num(mod)
        v = self.var(name, z3.BitVecSort(self.fw(p)))
        self.varsort[name] = ('f', p, None)
        self.side.setdefault(name, []).append(z3.ULT(v, z3.BitVecVal(p, self.fw(p))))
        return v

    def modof(self, node):
        # first argument is always the modulus (string)
        return num(node[1])

    def op_fadd(self, t, n, mod, a, b):
        p = num(mod)
        w = self.fw(p)
        s = z3.ZeroExt(1, a) + z3.ZeroExt(1, b)
        P = z3.BitVecVal(p, w + 1)
        return z3.Extract(w - 1, 0, z3.If(z3.UGE(s, P), s - P, s))

    def op_fsub(self, t, n, mod, a, b):
        p = num(mod)
        w = self.fw(p)
        x, y = z3.ZeroExt(1, a), z3.ZeroExt(1, b)
        P = z3.BitVecVal(p, w + 1)
        return z3.Extract(w - 1, 0, z3.If(z3.UGE(x, y), x - y, x + P - y))

    def op_fneg(self, t, n, mod, a):
        p = num(mod)
        w = self.fw(p)
        return z3.If(a == 0, a, z3.BitVecVal(p, w) - a)

    def op_fmul(self, t, n, mod, a, b):
        p = num(mod)
        w = self.fw(p)
        for x, y in ((a, b), (b, a)):
            if z3.is_bv_value(x):
                return self.table(y, lambda v, c=x.as_long(): v * c % p, p, w)
        if a.eq(b):
            return self.table(a, lambda v: v * v % p, p, w)
        if p <= 31:
            # product table, one layer of ite per operand value
            r = z3.BitVecVal(0, w)
            for v in range(1, p):
                r = z3.If(a == v, self.table(b, lambda u, c=v: u * c % p, p, w), r)
            return r
        x = z3.ZeroExt(w, a) * z3.ZeroExt(w, b)
        return z3.Extract(w - 1, 0, z3.URem(x, z3.BitVecVal(p, 2 * w)))

    def op_finv(self, t, n, mod, a):
        p = num(mod)
        return self.table(a, lambda v: pow(v, p - 2, p) if v else 0, p, self.fw(p))

    def op_fsqrt(self, t, n, mod, a):
        # a root when there is one (the smaller one), 0 otherwise
        p = num(mod)
        root = {}
        for v in range(p // 2 + 1):
            root[v * v % p] = v
        return self.table(a, lambda v: root.get(v, 0), p, self.fw(p))

    def table(self, x, fn, p, w):
        key = (x.get_id(), tuple(fn(v) for v in range(p)))
        r = self.mulbv.get(key)
        if r is None:
            # per output bit, balanced bit-select tree over the bits of x
            vals = [fn(v) for v in range(p)] + [0] * ((1 << w) - p)
            r = self._tree(x, vals, w, w)
            self.mulbv[key] = r
            self.mulbv[(key, 'k')] = x
        return r

    def _tree(self, x, vals, bit, w):
        if all(v == vals[0] for v in vals):
            return z3.BitVecVal(vals[0], w)
        h = len(vals) // 2
        lo = self._tree(x, vals[:h], bit - 1, w)
        hi = self._tree(x, vals[h:], bit - 1, w)
        return z3.If(z3.Extract(bit - 1, bit - 1, x) == 1, hi, lo)

    def op_feq(self, t, n, mod, a, b):
        return a == b

    def op_flt(self, t, n, mod, a, b):
        return z3.ULT(a, b)

    def op_fite(self, t, n, mod, c, a, b):
        return z3.If(c, a, b)

    # -- machine integers (symbolic multiprecision integers) as bit-vectors of stated width
    def op_ivar(self, t, n, w, name):
        self.varsort[name] = ('i', int(w), None)
        return self.var(name, z3.BitVecSort(int(w)))

    def op_ic(self, t, n, w, val):
        return z3.BitVecVal(num(val), int(w))

    def op_iadd(self, t, n, w, a, b):
        return a + b

    def op_isub(self, t, n, w, a, b):
        return a - b

    def op_imul(self, t, n, w, a, b):
        return a * b

    def op_iand(self, t, n, w, a, b):
        return a & b

    def op_ior(self, t, n, w, a, b):
        return a | b

    def op_ixor(self, t, n, w, a, b):
        return a ^ b

    def op_ishl(self, t, n, w, a, k):
        return a << int(k)

    def op_ishr(self, t, n, w, a, k):
        return z3.LShR(a, int(k))

    def op_idiv(self, t, n, w, a, b):
        return z3.UDiv(a, b)

    def op_imod(self, t, n, w, a, b):
        return z3.URem(a, b)

    def op_ieq(self, t, n, w, a, b):
        return a == b

    def op_ilt(self, t, n, w, a, b):
        return z3.ULT(a, b)

    def op_ibit(self, t, n, w, a, k):
        return z3.Extract(int(k), int(k), a) == 1

    def op_icast(self, t, n, w, a):
        w = int(w)
        s = a.size()
        if w == s:
            return a
        return z3.Extract(w - 1, 0, a) if w < s else z3.ZeroExt(w - s, a)

    def op_ffromi(self, t, n, mod, a):
        p = num(mod)
        w = self.fw(p)
        s = a.size()
        if s <= w and (1 << s) <= p:
            return z3.ZeroExt(w - s, a) if s < w else a
        x = z3.ZeroExt(max(0, w + 1 - s), a)
        return z3.Extract(w - 1, 0, z3.URem(x, z3.BitVecVal(p, x.size())))

    def op_ifromf(self, t, n, w, a, mod=None):
        w = int(w)
        s = a.size()
        return z3.ZeroExt(w - s, a) if s < w else z3.Extract(w - 1, 0, a)


class IdentityInterp(Interp):
    """Field terms as fractions of polynomials over the integers: an equation proved here holds in every
    commutative ring in which the divisors are invertible.  Constants are centred representatives."""
    IONE = z3.IntVal(1)

    def isone(self, d):
        return d is self.IONE or d is self.ONE or (z3.is_int_value(d) and d.as_long() == 1) or (
            z3.is_rational_value(d) and d.as_fraction() == 1)

    def op_fc(self, t, n, mod, val):
        p, v = num(mod), num(val)
        if v > p // 2:
            v -= p
        return (z3.IntVal(v), self.IONE)

    def op_fvar(self, t, n, mod, name):
        self.varsort[name] = ('f', num(mod), None)
        return (self.var(name, z3.IntSort()), self.IONE)

    def op_fadd(self, t, n, mod, a, b):
        return self._as(a, b, False)

    def op_fsub(self, t, n, mod, a, b):
        return self._as(a, b, True)

    def op_fneg(self, t, n, mod, a):
        return (-a[0], a[1])

    def op_fmul(self, t, n, mod, a, b):
        return (self.mul(a[0], b[0]), self.mul(a[1], b[1]))

    def op_finv(self, t, n, mod, a):
        self.divs.append((t, a[0]))
        return (a[1], a[0])

    def op_feq(self, t, n, mod, a, b):
        p = num(mod)
        if a[1].eq(b[1]):
            d = a[0] - b[0]
        else:
            d = self.mul(a[0], b[1]) - self.mul(b[0], a[1])
        return self.zero(d, p)

    def op_fnil(self, t, n, mod):
        return ()

    def op_fcons(self, t, n, mod, a, rest):
        return rest + (a[0],)

    def op_frel(self, t, n, mod, a, b, rels):
        """a == b whenever every polynomial of rels vanishes: proved when a - b is a linear combination of
        rels (reduced by Gaussian elimination) or, as any equation, by itself"""
        p = num(mod)
        d = a[0] - b[0] if a[1].eq(b[1]) else self.mul(a[0], b[1]) - self.mul(b[0], a[1])
        basis = self.memo_rel.get(rels) if hasattr(self, 'memo_rel') else None
        if basis is None:
            if not hasattr(self, 'memo_rel'):
                self.memo_rel = {}
            basis = []
            for r in rels:
                f = self.reduce({k: int(v) % p for k, v in poly_of(r).items()}, basis, p)
                if f:
                    lead = max(f)
                    inv = pow(f[lead], -1, p)
                    basis.append((lead, {k: v * inv % p for k, v in f.items()}))
            self.memo_rel[rels] = basis
        f = self.reduce({k: int(v) % p for k, v in poly_of(d, 10 ** 6).items()}, basis, p)
        acc = z3.IntVal(0)
        for mon, c in f.items():
            m = z3.IntVal(c if c <= p // 2 else c - p)
            for v, k in mon:
                for _ in range(k):
                    m = m * z3.Int(v)
            acc = acc + m
        return self.zero(acc, p)

    @staticmethod
    def reduce(f, basis, p):
        f = {k: v for k, v in f.items() if v}
        for lead, g in basis:
            c = f.get(lead)
            if c:
                for k, v in g.items():
                    w = (f.get(k, 0) - c * v) % p
                    if w:
                        f[k] = w
                    else:
                        f.pop(k, None)
        return f

    def point(self, name):
        import zlib
        return zlib.crc32(name.encode()) % 999983 + 11

    def zero(self, d, p):
        s = z3.simplify(d, som=True, som_blowup=100000000, flat=True)
        if z3.is_int_value(s):
            return z3.BoolVal(s.as_long() % p == 0)
        return s % p == 0 if self.o.get('modp') else s == 0

    def op_flt(self, t, n, mod, a, b):
        raise Abort('order comparison of field elements in identity mode')


class PolyInterp(IdentityInterp):
    """The same reading of field terms as IdentityInterp, with the polynomials held in expanded normal form instead of
    as z3 terms: a numerator {packed monomial: integer} over a multiset of divisors.  An equation holds identically
    iff its normal form is empty (option modp: iff every coefficient is a multiple of the modulus)."""
    BITS = 20

    def __init__(self, store, opts):
        super().__init__(store, opts)
        self.shift = {}
        self.atoms = []      # divisors
        self.atomid = {}
        self.expanded = {}

    def isone(self, n):
        return isinstance(n, dict) and len(n) == 1 and n.get(0) == 1

    def op_fc(self, t, n, mod, val):
        p, v = num(mod), num(val)
        if v > p // 2:
            v -= p
        return ({0: v} if v else {}, ())

    def op_fvar(self, t, n, mod, name):
        self.varsort[name] = ('f', num(mod), None)
        self.var(name, z3.IntSort())
        if name not in self.shift:
            self.shift[name] = self.BITS * len(self.shift)
        return ({1 << self.shift[name]: 1}, ())

    @staticmethod
    def pmul(a, b):
        if len(a) > len(b):
            a, b = b, a
        if len(a) == 1:
            (k, c), = a.items()
            if k == 0 and c == 1:
                return b
            return {k + kb: c * cb for kb, cb in b.items()}
        r = {}
        get = r.get
        bi = list(b.items())
        for ka, ca in a.items():
            for kb, cb in bi:
                k = ka + kb
                r[k] = get(k, 0) + ca * cb
        return {k: v for k, v in r.items() if v}

    @staticmethod
    def padd(a, b, sg):
        r = dict(a)
        for k, v in b.items():
            w = r.get(k, 0) + sg * v
            if w:
                r[k] = w
            else:
                del r[k]
        return r

    # divisors: sorted tuple of (atom, exponent)
    def expand(self, d):
        r = self.expanded.get(d)
        if r is None:
            r = {0: 1}
            for i, e in d:
                for _ in range(e):
                    r = self.pmul(r, self.atoms[i])
            self.expanded[d] = r
        return r

    @staticmethod
    def dmap(d, e, f):
        r = dict(d)
        for i, k in e:
            r[i] = f(r.get(i, 0), k)
        return tuple(sorted((i, k) for i, k in r.items() if k))

    def lift(self, a, b):
        """numerators of a and b over the least common multiple of their divisors"""
        if a[1] == b[1]:
            return a[0], b[0], a[1]
        l = self.dmap(a[1], b[1], max)
        out = []
        for x in (a, b):
            m = self.dmap(l, x[1], lambda u, v: u - v)
            out.append(self.pmul(x[0], self.expand(m)) if m else x[0])
        return out[0], out[1], l

    def op_fadd(self, t, n, mod, a, b):
        x, y, l = self.lift(a, b)
        return (self.padd(x, y, 1), l)

    def op_fsub(self, t, n, mod, a, b):
        x, y, l = self.lift(a, b)
        return (self.padd(x, y, -1), l)

    def op_fneg(self, t, n, mod, a):
        return ({k: -v for k, v in a[0].items()}, a[1])

    def op_fmul(self, t, n, mod, a, b):
        return (self.pmul(a[0], b[0]), self.dmap(a[1], b[1], lambda u, v: u + v) if b[1] else a[1])

    def op_finv(self, t, n, mod, a):
        if not a[0]:
            raise Abort('the inverse of an expression that vanishes identically')
        key = frozenset(a[0].items())
        i = self.atomid.get(key)
        if i is None:
            i = self.atomid[key] = len(self.atoms)
            self.atoms.append(a[0])
        return (self.expand(a[1]), ((i, 1),))

    def zform(self, d, p):
        if self.o.get('modp'):
            d = {k: v for k, v in ((k, v % p) for k, v in d.items()) if v}
        if not d:
            return z3.BoolVal(True)
        if len(d) > 200 or self.o.get('modp'):
            # not an identity: shown by the point used for counterexamples
            mask = (1 << self.BITS) - 1
            s = 0
            for k, c in d.items():
                for name, sh in self.shift.items():
                    e = k >> sh & mask
                    if e:
                        c = c * pow(self.point(name), e, p) % p
                s += c
            if s % p == 0:
                raise Abort('an equation that is no identity holds at the point chosen for the counterexample')
            return z3.IntVal(s % p) == 0
        mask = (1 << self.BITS) - 1
        acc = z3.IntVal(0)
        for k, c in d.items():
            m = z3.IntVal(c)
            for name, sh in self.shift.items():
                for _ in range(k >> sh & mask):
                    m = m * self.vars[name]
            acc = acc + m
        return acc == 0

    def op_feq(self, t, n, mod, a, b):
        x, y, _ = self.lift(a, b)
        return self.zform(self.padd(x, y, -1), num(mod))

    def op_frel(self, t, n, mod, a, b, rels):
        raise Abort('relations in polynomial mode')


class MixInterp(PolyInterp):
    """Field terms in expanded normal form modulo p, next to their representatives 0..p-1 as integers: comparisons and
    conversions see a variable, its negative or a constant exactly, and an unknown integer for any other polynomial."""

    def __init__(self, store, opts):
        super().__init__(store, opts)
        self.opaque = {}
        self.limit = {}      # variable -> its exclusive upper bound

    def op_fvar(self, t, n, mod, name):
        r = super().op_fvar(t, n, mod, name)
        self.bound(name, num(mod))
        return r

    def bound(self, name, lim):
        v = self.vars[name]
        self.limit[name] = lim
        self.side[name] = [v >= 0, v < lim]

    def norm(self, d, p):
        return {k: v for k, v in ((k, v % p) for k, v in d.items()) if v}

    def linear(self, d):
        """[(coefficient, variable or None)] when d is linear"""
        out = []
        names = {1 << sh: n for n, sh in self.shift.items()}
        for k, c in d.items():
            if k and k not in names:
                return None
            out.append((c, names.get(k)))
        return out

    def unknown_of(self, d, what, sort):
        key = (what, frozenset(d.items()))
        r = self.opaque.get(key)
        if r is None:
            r = self.opaque[key] = z3.Const('%s!%d' % (what, len(self.opaque)), sort)
        return r

    def zval(self, a, p):
        """the representative of a"""
        d = self.norm(a[0], p)
        if a[1]:
            return self.unknown_of(dict(d, den=a[1]), 'value', z3.IntSort())
        if not d:
            return z3.IntVal(0)
        l = self.linear(d)
        if l is not None and len(l) == 1:
            c, name = l[0]
            if name is None:
                return z3.IntVal(c)
            if c == 1 and self.limit[name] <= p:
                return self.vars[name]
            if c == p - 1 and self.limit[name] <= p:
                v = self.vars[name]
                return z3.If(v == 0, z3.IntVal(0), p - v)
        if l is not None:
            return z3.Sum([z3.IntVal(c) * (self.vars[n] if n else 1) for c, n in l]) % p
        v = self.unknown_of(d, 'value', z3.IntSort())
        self.side[str(v)] = [v >= 0, v < p]
        return v

    def op_feq(self, t, n, mod, a, b):
        p = num(mod)
        x, y, _ = self.lift(a, b)
        d = self.norm(self.padd(x, y, -1), p)
        if not d:
            return z3.BoolVal(True)
        l = self.linear(d)
        if l is None:
            lead = pow(d[max(d)], -1, p)
            return self.unknown_of({k: v * lead % p for k, v in d.items()}, 'zero', z3.BoolSort())
        if len(l) == 1 and l[0][1] is None:
            return z3.BoolVal(False)
        if all(n is None or self.limit[n] <= p for _, n in l):
            # c v + k = 0, or v - w = 0
            vs = [(c, n) for c, n in l if n]
            k = sum(c for c, n in l if n is None)
            if len(vs) == 1:
                return self.vars[vs[0][1]] == -k * pow(vs[0][0], -1, p) % p
            if len(vs) == 2 and not k and (vs[0][0] + vs[1][0]) % p == 0:
                return self.vars[vs[0][1]] == self.vars[vs[1][1]]
        return z3.Sum([z3.IntVal(c) * (self.vars[n] if n else 1) for c, n in l]) % p == 0

    def op_flt(self, t, n, mod, a, b):
        p = num(mod)
        return self.zval(a, p) < self.zval(b, p)

    # integers: (z3 integer, polynomial whose residue it is, its modulus)
    def op_ivar(self, t, n, w, name):
        self.varsort[name] = ('i', int(w), None)
        self.var(name, z3.IntSort())
        if name not in self.shift:
            self.shift[name] = self.BITS * len(self.shift)
            self.bound(name, 1 << int(w))
        return (self.vars[name], ({1 << self.shift[name]: 1}, ()), None)

    def op_ic(self, t, n, w, val):
        return (z3.IntVal(num(val)), ({0: num(val)} if num(val) else {}, ()), None)

    def op_icast(self, t, n, w, a):
        return a

    def op_ifromf(self, t, n, w, a, mod):
        return (self.zval(a, num(mod)), a, num(mod))

    def op_ffromi(self, t, n, mod, a):
        p = num(mod)
        if a[2] not in (None, p):
            raise Abort('an integer is reduced modulo another prime')
        return a[1]

    def op_ibit(self, t, n, w, a, k):
        return (a[0] / (1 << int(k))) % 2 == 1

    def op_ieq(self, t, n, w, a, b):
        return a[0] == b[0]

    def op_ilt(self, t, n, w, a, b):
        return a[0] < b[0]


# ---------------------------------------------------------------- one case
class Case:
    def __init__(self, binary, name, opts, budget, tmpdir, log=None):
        self.binary, self.name, self.tmpdir = binary, name, tmpdir
        self.opts = dict(kv.split('=', 1) for kv in opts.split() if '=' in kv)
        self.budget = budget
        self.mode = self.opts.get('mode', 'real')
        self.store = Store()
        kind = MixInterp if self.mode == 'mix' else Interp if self.mode != 'ident' else PolyInterp if self.opts.get('poly') else IdentityInterp
        self.base = kind(self.store, self.opts)
        self.it = self.base
        self.proved = set()
        self.timeout = int(float(self.opts.get('timeout', 60)) * 1000)
        self.btimeout = int(float(self.opts.get('btimeout', 10)) * 1000)
        self.maxpaths = int(self.opts.get('maxpaths', 5000))
        self.st = dict(name=name, mode=self.mode, paths=0, feasible_paths=0, checks=0, trivially_true=0, queries=0,
                       unsat=0, sat=0, unknown=0, branch_queries=0, solver_s=0.0, killed=0, truncated=False,
                       unknown_labels=[], reached=[], violations=[], unconfirmed=[], error=None, notes=[], replays_ok=0, replays_done=0, samples=[])
        self.checked = {}
        self.t0 = time.time()

    # ------------------------------------------------ process handling
    def start(self):
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        self.proc = subprocess.Popen([self.binary, 'run', self.name, str(r1), str(w2)], pass_fds=(r1, w2),
                                     stdout=subprocess.DEVNULL, stderr=subprocess.PIPE if False else open(
                                         os.path.join(self.tmpdir, 'stderr.txt'), 'ab'),
                                     env=dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=77',
                                              UBSAN_OPTIONS='halt_on_error=1:exitcode=77:print_stacktrace=0'))
        os.close(r1)
        os.close(w2)
        self.win = w1
        self.rout = os.fdopen(r2, 'rb', buffering=1 << 16)

    def send(self, b):
        os.write(self.win, b)

    def stop(self):
        try:
            self.send(b'Q')
        except OSError:
            pass
        try:
            os.close(self.win)
        except OSError:
            pass
        try:
            self.proc.wait(5)
        except subprocess.TimeoutExpired:
            self.proc.kill()
        self.rout.close()

    # ------------------------------------------------ solver
    def facts_for(self, exprs_terms):
        return []

    def check(self, solver, extra, timeout):
        """decide assertions+extra: default solver first, nlsat second for nonlinear real arithmetic"""
        first = min(timeout, 400) if self.mode == 'real' and not self.hasint() else timeout
        r, m = self.check1(solver, extra, first)
        if r == z3.unknown and first < timeout:
            fs = list(solver.assertions()) + list(extra)
            for name, fl in self.it.side.items():
                fs += fl
            t = time.time()
            try:
                s = z3.Then('simplify', 'propagate-values', 'solve-eqs', 'qfnra-nlsat').solver()
                s.set('timeout', timeout)
                for f in fs:
                    s.add(f)
                r = s.check()
                m = s.model() if r == z3.sat else None
            except z3.Z3Exception:
                r = z3.unknown
            dt = time.time() - t
            self.st['solver_s'] += dt
            if dt > 1 and os.environ.get('SYMDBG'):
                print('SLOW %.1f %s' % (dt, r), [str(z3.simplify(e, som=True))[:700] for e in extra], file=sys.stderr)
        return r, m

    def hasint(self):
        return any(k[0] == 'ri' for k in self.it.varsort.values())

    def check1(self, solver, extra, timeout):
        if 'cube' in self.opts and self.mode == 'bv':
            return self.check_cubes(solver, extra, timeout)
        solver.push()
        for e in extra:
            solver.add(e)
        # side facts (variable ranges)
        self.sync_side(solver)
        solver.set('timeout', timeout)
        t = time.time()
        try:
            r = solver.check()
        except z3.Z3Exception as e:
            r = z3.unknown
        self.st['solver_s'] += time.time() - t
        m = None
        if r == z3.sat:
            m = solver.model()
        solver.pop()
        return r, m

    def check_cubes(self, solver, extra, timeout):
        """the same query, split by the value of the variables named by the option cube (field elements)"""
        fs = list(solver.assertions()) + list(extra)
        for name, fl in self.it.side.items():
            fs += fl
        names = [n for n in self.opts['cube'].split(',') if n in self.it.vars]
        end = time.time() + timeout / 1000
        res = z3.unsat
        mods = [self.it.varsort[n][1] for n in names]
        for vals in itertools.product(*[range(m) for m in mods]):
            sub = [(self.it.vars[n], z3.BitVecVal(v, self.it.vars[n].size())) for n, v in zip(names, vals)]
            s = z3.SolverFor('QF_BV')
            t = time.time()
            s.set('timeout', max(1, int((end - t) * 1000)))
            dead = False
            for f in fs:
                g = z3.simplify(z3.substitute(f, *sub)) if sub else f
                if z3.is_false(g):
                    dead = True
                    break
                s.add(g)
            r = z3.unsat if dead else s.check()
            self.st['solver_s'] += time.time() - t
            if r == z3.sat:
                for v, c in sub:
                    s.add(v == c)
                if s.check() == z3.sat:
                    return z3.sat, s.model()
                return z3.unknown, None
            if r == z3.unknown:
                res = z3.unknown
                if time.time() > end:
                    break
        return res, None

    def sync_side(self, solver):
        for name, fs in self.it.side.items():
            for f in fs:
                solver.add(f)

    def new_solver(self):
        tac = self.opts.get('solver')
        if tac == 'bv':
            return z3.SolverFor('QF_BV')
        if tac == 'nra':
            return z3.SolverFor('QF_NRA')
        return z3.Solver()

    # ------------------------------------------------ exploration
    def explore(self, prefixes=None):
        work = [[]] if prefixes is None else [list(p) for p in prefixes]
        self.depth = int(self.opts['shard']) if prefixes is None and 'shard' in self.opts else None
        self.cut = []
        self.start()
        try:
            while work:
                if self.st['paths'] >= self.maxpaths or time.time() - self.t0 > self.budget:
                    self.st['truncated'] = True
                    break
                if len(self.st['violations']) >= 1:
                    break
                prefix = work.pop()
                self.path(prefix, work)
        finally:
            self.stop()
        if self.cut:
            k = max(1, len(self.cut) // 64)
            self.st['work'] = [self.cut[i:i + k] for i in range(0, len(self.cut), k)]

    # A path condition is a list of literals over store terms.  Equations that are linear in some real variable are
    # solved and substituted, so that conditions and assertions on degenerate paths become plain identities again.
    def add_lit(self, kind, g):
        """kind True/False: boolean term g holds / does not hold; kind 'div': the divisor of g is not zero"""
        self.lits.append((kind, g))
        z = self.litz(kind, g)
        if z is None:
            return
        self.solver.add(z)
        if self.mode == 'real' and not self.opts.get('nosubst'):
            z = z3.simplify(z)
            self.learn(z)

    def litz(self, kind, g):
        if kind == 'div':
            node = self.store.terms[g]
            if node[0] == 'rdiv':
                d = self.it.tr(node[2])[0]
            else:
                d = self.it.tr(node[2])
                if self.mode != 'ident':
                    return None
                d = d[0]
                if self.opts.get('poly'):
                    return None
            if self.it.isone(d):
                return None
            return d != 0
        z = self.it.boolz(g)
        return z if kind else z3.Not(z)

    def learn(self, z):
        """consequences of a literal: factors known not to vanish, and solvable equations"""
        neg = z3.is_not(z)
        e = z.arg(0) if neg else z
        parts = e.children() if z3.is_or(e) else [e]
        if not all(z3.is_eq(x) and z3.is_real(x.arg(0)) for x in parts):
            return
        fs = []
        for x in parts:
            p = poly_of(x.arg(0) - x.arg(1))
            if not p or len(p) > 400:
                return
            fs += factors(p)
        if neg:
            self.nonzero.update(fs)
            return
        fs = [f for f in dict.fromkeys(fs) if f not in self.nonzero]
        if len(fs) > 1:
            fs = [f for f in fs if self.check(self.solver, [self.zpoly(dict(f)) == 0], 300)[0] != z3.unsat]
        if len(fs) != 1:
            return
        p = dict(fs[0])
        names = sorted({v for mon in p for v, _ in mon})
        cands = []
        for v in names:
            if self.it.varsort.get(v, ('',))[0] != 'r' or v in self.it.subst:
                continue
            if any(e > 1 for mon in p for w, e in mon if w == v):
                continue
            coef = {tuple(x for x in mon if x[0] != v): c for mon, c in p.items() if any(w == v for w, _ in mon)}
            rest = {mon: c for mon, c in p.items() if not any(w == v for w, _ in mon)}
            cands.append((len(coef), v, coef, rest))
        cands.sort(key=lambda x: x[:2])
        best = None
        for n, v, coef, rest in cands:
            if all(f in self.nonzero for f in factors(coef)):
                best = (v, coef, rest)
                break
        if best is None:
            for n, v, coef, rest in cands[:2]:
                r, _ = self.check(self.solver, [self.zpoly(coef) == 0], 1000)
                if r == z3.unsat:
                    best = (v, coef, rest)
                    break
        if best is None:
            return
        v, coef, rest = best
        cz = self.zpoly(coef)
        it = Interp(self.store, self.opts)
        it.vars, it.varsort, it.side = self.it.vars, self.it.varsort, self.it.side
        it.subst = dict(self.it.subst)
        one = len(coef) == 1 and () in coef and coef[()] == 1
        new = (self.zpoly({m_: -c for m_, c in rest.items()}), Interp.ONE if one else cz)
        # apply to the earlier substitutions as well
        var = self.it.vars[v]
        for k, (n, d) in list(it.subst.items()):
            it.subst[k] = self.frac_subst(n, d, var, v, new)
        it.subst[v] = new
        self.it = it
        self.solver = self.new_solver()
        self.nonzero = set()
        for kind, g in self.lits:
            z = self.litz(kind, g)
            if z is None:
                continue
            z = z3.simplify(z, som=True, som_blowup=100000000)
            if not z3.is_true(z):
                self.solver.add(z)
                if z3.is_not(z):
                    self.learn(z)

    def zpoly(self, p):
        r = z3.RealVal(0)
        for mon, c in p.items():
            t = z3.RealVal(str(c))
            for v, e in mon:
                for _ in range(e):
                    t = t * self.it.vars[v]
            r = r + t
        return z3.simplify(r)

    def frac_subst(self, n, d, var, name, new):
        def one(e):
            p = poly_of(e)
            deg = max([x for mon in p for w, x in mon if w == name] or [0])
            acc = z3.RealVal(0)
            for mon, c in p.items():
                k = dict(mon).get(name, 0)
                t = self.zpoly({tuple(x for x in mon if x[0] != name): c})
                for _ in range(k):
                    t = t * new[0]
                for _ in range(deg - k):
                    t = t * new[1]
                acc = acc + t
            return z3.simplify(acc, som=True, som_blowup=100000000), deg
        a, da = one(n)
        b, db = one(d)
        for _ in range(db - da):
            a = a * new[1]
        for _ in range(da - db):
            b = b * new[1]
        return a, b

    def path(self, prefix, work):
        st = self.st
        st['paths'] += 1
        local = {}
        self.lits = []
        self.nonzero = set()
        self.it = self.base
        self.solver = self.new_solver()
        known = {}            # gid -> bool
        decisions = []
        dead = False
        self.send(b'R')
        mk = self.store.mk
        status = None
        checks_here = 0
        reached = []
        divseen = set()
        pathdivs = []
        terms = self.store.terms
        tlim, dlim, tpath = 20, 600, time.time()

        def setknown(g, d):
            known[g] = d
            n = terms[g]
            if n[0] == 'not':
                setknown(n[1], not d)
            elif n[0] == 'and' and d or n[0] == 'or' and not d:
                setknown(n[1], d)
                setknown(n[2], d)

        while True:
            line = self.rout.readline()
            if not line:
                raise Abort('harness died')
            line = line.rstrip(b'\n').decode('utf8', 'replace')
            k = line[:1]
            if k == 'N':
                parts = line.split(' ')
                lid, op = int(parts[1]), parts[2]
                args = []
                sig = SIG.get(op)
                if sig is None:
                    raise Abort('unknown op ' + op)
                for c, a in zip(sig, parts[3:]):
                    args.append(local[int(a)] if c == 't' else a)
                g = mk((op,) + tuple(args))
                local[lid] = g
                if op in ('rdiv', 'finv') and g not in divseen:
                    divseen.add(g)
                    pathdivs.append(g)
                if not lid % 20000 and not dead and time.time() - tpath > tlim:
                    tlim *= 4
                    self.suspect()
                    if st['violations']:
                        raise OutOfTime()
                continue
            if dead and k in 'BAHWT':
                # path already known infeasible
                if k == 'B':
                    self.send(b'X')
                continue
            if k == 'B':
                g = local[int(line[2:])]
                i = len(decisions)
                if self.depth is not None and i >= self.depth:
                    self.cut.append(decisions)
                    st['paths'] -= 1
                    self.send(b'X')
                    while line not in (b'D\n', b'') and line[:1] != b'Z':
                        line = self.rout.readline()
                    return
                self.flush_divs(pathdivs)
                if i > dlim or time.time() - tpath > tlim:
                    dlim, tlim = 4 * dlim, 4 * tlim
                    self.suspect()
                if st['violations']:
                    dead = True
                    self.send(b'X')
                    continue
                if i < len(prefix):
                    d = prefix[i]
                    if g not in known:
                        self.add_lit(d, g)
                else:
                    if g in known:
                        d = known[g]
                    else:
                        d = self.decide_branch(g, decisions, work)
                setknown(g, d)
                decisions.append(d)
                self.send(b'1' if d else b'0')
            elif k == 'A':
                _, tid, label = line.split(' ', 2)
                self.flush_divs(pathdivs)
                g = local[int(tid)]
                checks_here += 1
                if known.get(g) is True or g in self.proved:
                    st['trivially_true'] += 1
                else:
                    self.discharge(g, label)
                if st['violations']:
                    dead = True
            elif k == 'T':
                checks_here += 1
                st['trivially_true'] += 1
            elif k == 'H':
                g = local[int(line[2:])]
                self.flush_divs(pathdivs)
                self.add_lit(True, g)
                setknown(g, True)
            elif k == 'W':
                reached.append(line[2:])
            elif k == 'K':
                dead = True
            elif k == 'X':
                raise Abort('harness: ' + line[2:])
            elif k == '#':
                if len(st['notes']) < 50:
                    st['notes'].append(line[2:])
            elif k == 'E':
                self.flush_divs(pathdivs)
            elif k == 'D':
                status = 0
                break
            elif k == 'Z':
                status = int(line[2:])
                break
        if dead:
            st['killed'] += 1
        elif status != 0:
            # the real code crashed / hung on this path: is the path feasible?
            r, m = self.check(self.solver, [], self.timeout)
            st['queries'] += 1
            label = 'crash or sanitizer report (status %d)' % status
            if status in (95, 96, 97):
                raise Abort('harness protocol error %d' % status)
            if status in (1014, 1027):
                label = 'no termination within the path time limit'
            if r == z3.sat:
                self.report(label, m, [], crash=True)
            elif r == z3.unknown:
                st['unknown'] += 1
                st['unknown_labels'].append(label)
        else:
            if checks_here or reached:
                if self.opts.get('feas') == 'skip':
                    ok = True
                else:
                    r, m = self.check(self.solver, [], self.btimeout)
                    ok = r == z3.sat
                    if r == z3.unknown:
                        st['feas_unknown'] = st.get('feas_unknown', 0) + 1
                if ok:
                    st['feasible_paths'] += 1
                    if self.opts.get('feas') != 'skip':
                        self.validate(m)
                    st['checks'] += checks_here
                    for w in reached:
                        if w not in st['reached']:
                            st['reached'].append(w)

    def flush_divs(self, pathdivs):
        while pathdivs:
            g = pathdivs.pop(0)
            if self.mode not in ('real', 'ident'):
                continue
            z = self.litz('div', g)
            if z is None:
                continue
            if self.opts.get('div') == 'check':
                self.discharge_z(z, 'division by zero')
            self.add_lit('div', g)

    def suspect(self):
        """the path is suspiciously long: does the real code come to an end on a value that follows it?"""
        r, m = self.check(self.solver, [], self.timeout)
        if r != z3.sat:
            return
        vals = self.values(m)
        rc, out, path = self.replay(vals, self.name.replace('/', '_') + '_long')
        if rc == -999:
            self.st['violations'].append(dict(case=self.name, label='does not terminate', values=vals, rc=rc, output=''))

    def decide_branch(self, g, decisions, work):
        z = self.it.boolz(g)
        st = self.st
        if self.mode == 'ident':
            # generic position: an equation is true iff it is an identity
            zs = z3.simplify(z)
            if z3.is_true(zs):
                return True
            if z3.is_false(zs):
                return False
            st['branch_queries'] += 1
            r, _ = self.check(self.solver, [z3.Not(z)], self.btimeout)
            if r == z3.unsat:
                return True
            if self.opts.get('fork') == 'both':
                work.append(decisions + [True])
            self.add_lit(False, g)
            return False
        zs = z3.simplify(z, som=True, som_blowup=100000000) if self.mode == 'real' else z3.simplify(z)
        if z3.is_true(zs):
            return True
        if z3.is_false(zs):
            return False
        if self.mode == 'real':
            for pos in (True, False):
                if self.known(zs, pos):
                    st['branch_queries'] += 1
                    self.add_lit(pos, g)
                    return pos
        st['branch_queries'] += 2
        rt, _ = self.check(self.solver, [zs], self.btimeout)
        if rt == z3.unsat:
            self.add_lit(False, g)
            return False
        rf, _ = self.check(self.solver, [z3.Not(zs)], self.btimeout)
        if rf == z3.unsat:
            self.add_lit(True, g)
            return True
        if z3.unknown in (rt, rf):
            st['branch_unknown'] = st.get('branch_unknown', 0) + 1
        work.append(decisions + [False])
        self.add_lit(True, g)
        return True

    # ------------------------------------------------ assertions
    def discharge(self, g, label):
        z = self.it.boolz(g)
        if self.discharge_z(z, label) == 'identity' and self.it is self.base:
            self.proved.add(g)

    def known(self, z, pos):
        """z (pos) or its negation (not pos) follows from the non-vanishing factors of the path alone"""
        if z3.is_not(z):
            return self.known(z.arg(0), not pos)
        if z3.is_or(z) or z3.is_and(z):
            f = any if z3.is_or(z) == pos else all
            return f(self.known(c, pos) for c in z.children())
        if z3.is_true(z):
            return pos
        if z3.is_false(z):
            return not pos
        if z3.is_eq(z) and z3.is_real(z.arg(0)) and not pos:
            p = poly_of(z.arg(0) - z.arg(1))
            return bool(p) and len(p) < 400 and all(f in self.nonzero for f in factors(p))
        return False

    def discharge_z(self, z, label):
        st = self.st
        if self.mode == 'ident' and len(st['violations']) >= 3:
            return None     # the case is refuted already
        solver = self.solver
        st['queries'] += 1
        # validity without the path condition first (identities)
        t = time.time()
        zs = z3.simplify(z, som=True, som_blowup=100000000) if self.mode != 'bv' else z3.simplify(z)
        st['solver_s'] += time.time() - t
        if z3.is_true(zs):
            st['unsat'] += 1
            return 'identity'
        if self.mode == 'real' and self.known(zs, True):
            st['unsat'] += 1
            return None
        if self.opts.get('poly'):
            m = self.point_model(z3.Not(z))
            if m is not None:
                st['sat'] += 1
                self.report(label, m, [z3.Not(zs)])
                return None
        if self.mode == 'ident' and len(st['violations']) < 3:
            # a counterexample at fixed field values, believed only when the replay confirms it
            m = self.point_model(z3.Not(z))
            if m is not None and self.report(label, m, [], probe=True):
                st['sat'] += 1
                return None
        if self.opts.get('ident1') or self.mode == 'ident':
            s = z3.Solver()
            self.sync_side(s)
            s.set('timeout', min(self.timeout, 3000))
            s.add(z3.Not(z))
            t = time.time()
            try:
                r = s.check()
            except z3.Z3Exception:
                r = z3.unknown
            st['solver_s'] += time.time() - t
            if r == z3.unsat:
                st['unsat'] += 1
                return 'identity'
        r, m = self.check(solver, [z3.Not(zs)], self.timeout)
        if r == z3.unknown:
            r, m = self.retry(solver, z3.Not(zs))
        if r == z3.unsat:
            st['unsat'] += 1
        elif r == z3.sat:
            st['sat'] += 1
            self.report(label, m, [z3.Not(zs)])
        else:
            st['unknown'] += 1
            if len(st['unknown_labels']) < 20:
                st['unknown_labels'].append(label)

    def point_model(self, neg):
        """a counterexample with every field variable at a fixed value"""
        s = z3.Solver()
        s.set('timeout', 5000)
        for f in self.solver.assertions():
            s.add(f)
        for name, v in self.it.vars.items():
            if self.it.varsort.get(name, ('',))[0] == 'f':
                s.add(v == self.it.point(name))
        s.add(neg)
        try:
            return s.model() if s.check() == z3.sat else None
        except z3.Z3Exception:
            return None

    def retry(self, solver, neg):
        """second opinions: qfnra-nlsat / bit-blasting tactics, then a bounded-model search for counterexamples"""
        fs = list(solver.assertions()) + [neg]
        for name, fl in self.it.side.items():
            fs += fl
        for tac in (['qfnra-nlsat'] if self.mode == 'real' else ['qfbv'] if self.mode == 'bv' else []):
            try:
                s = z3.Then('simplify', 'solve-eqs', tac).solver()
                s.set('timeout', self.timeout)
                for f in fs:
                    s.add(f)
                t = time.time()
                r = s.check()
                self.st['solver_s'] += time.time() - t
                if r != z3.unknown:
                    return r, (s.model() if r == z3.sat else None)
            except z3.Z3Exception:
                pass
        # small-domain search for a counterexample only (never concludes validity)
        if self.mode in ('real', 'ident'):
            m = self.small_model(solver, [neg], 4000)
            if m is not None:
                return z3.sat, m
        return z3.unknown, None

    def small_model(self, solver, extra, timeout):
        for lim in (3, 9):
            s = z3.Solver()
            s.set('timeout', timeout)
            for f in solver.assertions():
                s.add(f)
            for e in extra:
                s.add(e)
            self.sync_side(s)
            for name, v in self.it.vars.items():
                k = self.it.varsort.get(name)
                if k and k[0] == 'r':
                    iv = z3.Int('int!' + name)
                    s.add(v == z3.ToReal(iv), iv >= -lim, iv <= lim)
                elif k and k[0] == 'f' and self.mode == 'ident':
                    s.add(v >= -lim, v <= lim)
            try:
                if s.check() == z3.sat:
                    return s.model()
            except z3.Z3Exception:
                pass
        return None

    def validate(self, m):
        """run the real code natively on the model of a path: every assertion must hold there as well"""
        st = self.st
        if st['replays_done'] >= int(self.opts.get('replays', 2)) or not self.it.vars:
            return
        st['replays_done'] += 1
        vals = self.values(m)
        if vals is None:
            return
        rc, out, _ = self.replay(vals, 'path')
        if rc == 0 and 'REPLAY-OK' in out:
            st['replays_ok'] += 1
            if len(st['samples']) < 2:
                st['samples'].append(dict(path_model={k: vals[k] for k in list(vals)[:24]}, native_run='REPLAY-OK'))
        elif rc == 1 and 'REPLAY-VIOLATION' in out and self.exactvals:
            ls = [l[12:] for l in out.splitlines() if l.startswith('REPLAY-FAIL')]
            st['violations'].append(dict(case=self.name, label=ls[0] if ls else 'native run', values=vals, rc=rc,
                                         output=out[-1500:]))

    def values(self, m):
        self.exactvals = True
        out = {}
        for name, v in self.it.vars.items():
            k = self.it.varsort.get(name)
            x = m.eval(v, model_completion=True)
            if name in self.it.subst:
                n, d = self.it.subst[name]
                x = m.eval(n / d, model_completion=True)
            if k is None:
                out[name] = '1' if z3.is_true(x) else '0'
                continue
            if k[0] in ('r', 'ri'):
                if z3.is_int_value(x):
                    out[name] = '%d/1' % x.as_long()
                elif z3.is_rational_value(x):
                    f = x.as_fraction()
                    out[name] = '%d/%d' % (f.numerator, f.denominator)
                elif z3.is_algebraic_value(x):
                    self.exactvals = False
                    f = x.approx(12).as_fraction()
                    out[name] = '%d/%d' % (f.numerator, f.denominator)
                else:
                    out[name] = '0/1'
            elif k[0] == 'f':
                out[name] = str(x.as_long() % k[1])
            else:
                out[name] = str(x.as_long())
        return out

    def replay(self, vals, tag):
        path = os.path.join(self.tmpdir, 'cex_%s.txt' % tag)
        with open(path, 'w') as f:
            for k, v in sorted(vals.items()):
                f.write('%s %s\n' % (k, v))
        try:
            p = subprocess.run([self.binary, 'replay', self.name, path], stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, timeout=40,
                               env=dict(os.environ, ASAN_OPTIONS='detect_leaks=0:exitcode=77',
                                        UBSAN_OPTIONS='halt_on_error=1:exitcode=77'))
            out = p.stdout.decode('utf8', 'replace')
            rc = p.returncode
        except subprocess.TimeoutExpired:
            out, rc = 'TIMEOUT', -999
        return rc, out, path

    def report(self, label, m, extra, crash=False, probe=False):
        st = self.st
        solver = self.solver
        tries = []
        if self.mode in ('real', 'ident') and not self.opts.get('poly') and not probe:
            sm = self.small_model(solver, extra, 8000)
            if sm is not None:
                tries.append(sm)
        if m is not None:
            tries.append(m)
        last = None
        if self.mode == 'mix' and m is not None:
            tries.append(m)     # and the same with the field elements at fixed values
        for i, mm in enumerate(tries):
            vals = self.values(mm)
            if self.mode == 'mix' and i == 1:
                for k, v in self.it.varsort.items():
                    if v and v[0] == 'f':
                        vals[k] = str(self.it.point(k))
            rc, out, path = self.replay(vals, self.name.replace('/', '_') + '_%d' % i)
            last = (rc, out, vals)
            bad = rc == 1 and 'REPLAY-VIOLATION' in out
            hang = rc == -999
            cr = (rc < 0 and rc != -999) or rc == 77 or rc > 100
            if bad or hang or cr:
                what = label
                if bad:
                    ls = [l[12:] for l in out.splitlines() if l.startswith('REPLAY-FAIL')]
                    what = ls[0] if ls else label
                elif hang:
                    what = 'does not terminate'
                else:
                    what = 'crash/sanitizer report: ' + ' | '.join(
                        [l for l in out.splitlines() if 'ERROR' in l or 'error' in l][:2])[:300]
                st['violations'].append(dict(case=self.name, label=what, values=vals, rc=rc, output=out[-1500:]))
                return True
        if probe:
            return False
        st['unconfirmed'].append(dict(case=self.name, label=label, values=last[2] if last else None,
                                      rc=last[0] if last else None, output=(last[1][-600:] if last else None)))


SIG = {
    'true': '', 'false': '', 'not': 't', 'and': 'tt', 'or': 'tt', 'bvar': 's',
    'rc': 's', 'rvar': 's', 'rivar': 'sss', 'radd': 'tt', 'rsub': 'tt', 'rmul': 'tt', 'rdiv': 'tt', 'req': 'tt',
    'rlt': 'tt', 'rite': 'ttt', 'rabs': 't', 'ruf': 'st',
    'fc': 'ss', 'fvar': 'ss', 'fadd': 'stt', 'fsub': 'stt', 'fneg': 'st', 'fmul': 'stt', 'finv': 'st', 'feq': 'stt',
    'flt': 'stt', 'fite': 'sttt', 'fnil': 's', 'fcons': 'stt', 'frel': 'sttt',
    'ivar': 'ss', 'ic': 'ss', 'iadd': 'stt', 'isub': 'stt', 'imul': 'stt', 'iand': 'stt', 'ior': 'stt',
    'ixor': 'stt', 'ishl': 'sts', 'ishr': 'sts', 'idiv': 'stt', 'imod': 'stt', 'ieq': 'stt', 'ilt': 'stt',
    'fsqrt': 'st', 'ibit': 'sts', 'icast': 'st', 'ffromi': 'st', 'ifromf': 'sts',
}


def run_case(args):
    """args = (binary, case, options, seconds, scratch directory[, prefixes]).  With prefixes None and the option
    shard=D only the paths of at most D decisions are explored; the decision prefixes of the others are returned
    in 'work' as chunks for further calls."""
    binary, name, opts, budget, tmpdir = args[:5]
    prefixes = args[5] if len(args) > 5 else None
    try:
        c = Case(binary, name, opts, budget, tmpdir)
    except Exception as e:
        return dict(name=name, error='init: %r' % e, violations=[], unconfirmed=[])
    def late(*_):
        raise OutOfTime()
    # a single assertion may keep the polynomial arithmetic busy for longer than the budget
    signal.signal(signal.SIGALRM, late)
    signal.setitimer(signal.ITIMER_REAL, max(1, budget + 5), 5)
    try:
        c.explore(prefixes)
        signal.setitimer(signal.ITIMER_REAL, 0)
    except OutOfTime:
        c.st['truncated'] = True
    except Abort as e:
        c.st['error'] = str(e)
    except Exception as e:
        c.st['error'] = traceback.format_exc()[-1500:]
    signal.setitimer(signal.ITIMER_REAL, 0)
    c.st['wall_s'] = round(time.time() - c.t0, 3)
    c.st['solver_s'] = round(c.st['solver_s'], 3)
    return c.st
