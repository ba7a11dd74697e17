"""Meaning of the contract vocabulary and of external (library) functions."""
import math
from fractions import Fraction
import expr as E, smt
from expr import Poly, ATOMS, And, Or, Not
import symexec as X
from symexec import Ptr, FnPtr, NULLP, UNDEF, VerifError, PathEnd, CALLED, Obl, Fork

def cstr(s, st, p):
    if not isinstance(p, Ptr): raise VerifError('string expected')
    if p.rid.startswith('g:'):
        g = s.m.globals[p.rid[2:]]
        c = s.m.init_of(p.rid[2:])
        vals = c.vals if hasattr(c, 'vals') else []
        if not vals: return ''
        b = bytes([v & 255 for v in vals])[p.off:]
        return b.split(b'\0')[0].decode()
    r = []
    class T: kind = 'int'; width = 8; store = 1
    q = p
    while True:
        v = s.read(st, q, T)
        if not isinstance(v, int): raise VerifError('symbolic string')
        if v == 0: break
        r.append(chr(v & 255)); q = q.plus(1)
    return ''.join(r)
def uname(s, st, nm):
    k = st.ghost.get(('n', nm), 0); st.ghost[('n', nm)] = k + 1
    return nm if k == 0 else f'{nm}@{k}'
class DTY: kind = 'double'; width = 64; store = 8; size = 8
def inp(s, st, nm, sort):
    """arbitrary input; inside a loop a different one for every iteration"""
    taus = st.ghost.get('taus', ())
    if not taus: return E.sym(nm, sort)
    return E.uf(f"in:{nm}:{'.'.join(map(str, st.ghost.get('inst', ())))}", sort, *taus)
def note(s, nm, kind):
    if (nm, kind) not in s.inputset: s.inputset.add((nm, kind)); s.inputs.append((nm, kind))

def m_real(s, st, fr, ins, a):
    nm = uname(s, st, cstr(s, st, a[0])); note(s, nm, 'R'); return inp(s, st, nm, 'R')
def m_realin(s, st, fr, ins, a):
    nm = uname(s, st, cstr(s, st, a[0])); note(s, nm, 'R'); v = inp(s, st, nm, 'R')
    st.assume(E.le(a[1], v)); st.assume(E.le(v, a[2])); return v
def m_pos(s, st, fr, ins, a):
    nm = uname(s, st, cstr(s, st, a[0])); note(s, nm, 'R'); v = inp(s, st, nm, 'R'); st.assume(E.lt(0, v)); return v
def m_int(s, st, fr, ins, a):
    nm = uname(s, st, cstr(s, st, a[0])); note(s, nm, 'I'); v = inp(s, st, nm, 'I')
    lo, hi = a[1], a[2]
    if isinstance(lo, int) and isinstance(hi, int) and lo == hi: return lo
    st.assume(E.le(lo, v)); st.assume(E.le(v, hi)); return v
def m_bool(s, st, fr, ins, a):
    nm = uname(s, st, cstr(s, st, a[0])); note(s, nm, 'B'); v = inp(s, st, nm, 'I')
    st.assume(E.le(0, v)); st.assume(E.le(v, 1)); return E.eq(v, 1)
def m_unit(n):
    def f(s, st, fr, ins, a):
        nm = uname(s, st, cstr(s, st, a[1])); q = -1
        for k in range(n):
            note(s, f'{nm}.{k}', 'R'); v = inp(s, st, f'{nm}.{k}', 'R'); s.store(st, a[0].plus(8 * k), v, DTY)
            q = E.add(q, E.mul(v, v))
        st.assume(E.cmp0('eq', q))
        # consequences kept for the linear abstraction
        return UNDEF
    return f
def m_assume(s, st, fr, ins, a):
    f = s.form(a[0])
    if f is False: raise PathEnd()
    if f is True: return UNDEF
    if Not(f) in st.pcset or s.implied(st, Not(f)): raise PathEnd()
    st.assume(f); return UNDEF
def oblig(s, st, name, goal, kind='assert'):
    o = Obl(name, list(st.pc), goal, st.frames[-1].fn.name); o.kind = kind
    s.obls.append(o)
def m_assert(s, st, fr, ins, a):
    oblig(s, st, cstr(s, st, a[1]), s.form(a[0])); return UNDEF
def num(s, v):
    if isinstance(v, tuple) and v and v[0] in ('inf', 'nan'): return None
    return X.stdpart(s.real_(v))
def m_assert_eq(s, st, fr, ins, a):
    x, y = num(s, a[0]), num(s, a[1])
    oblig(s, st, cstr(s, st, a[2]), (a[0] == a[1]) if x is None or y is None else E.eq(x, y)); return UNDEF
def m_assert_le(s, st, fr, ins, a):
    x, y = num(s, a[0]), num(s, a[1])
    if x is None or y is None:
        g = a[1] == X.INF or a[0] == X.NINF
    else: g = E.le(x, y)
    oblig(s, st, cstr(s, st, a[2]), g); return UNDEF
def m_cover(s, st, fr, ins, a):
    nm = cstr(s, st, a[0])
    s.covers.setdefault(nm, []).append(list(st.pc)); return UNDEF
def m_abs(s, st, fr, ins, a):
    nm = cstr(s, st, a[1]); A = E.sym(nm, 'R')
    if isinstance(a[0], Poly):
        s.add_abs(s.abs_expand(a[0]), A)
        for f in st.frames:
            for k, v in f.env.items():
                if isinstance(v, Poly): f.env[k] = s.abs_reduce(v)
        for rid in list(st.mem):
            r = st.mem[rid]
            if any(isinstance(l, dict) and any(isinstance(v, Poly) for _, v in l.values()) for l in r.layers):
                r = s.own(st, rid)
                r.layers = [({o: (z, s.abs_reduce(v) if isinstance(v, Poly) else v) for o, (z, v) in l.items()} if isinstance(l, dict) else l) for l in r.layers]
    else: st.assume(E.eq(A, a[0]))
    return UNDEF
def m_sos(s, st, fr, ins, a):
    # checked in the original coordinates, before abstraction: the arguments are evaluated there
    e, q = a[0], 0
    exp_ = lambda v: s.abs_expand(v)
    for x in a[1:4]: q = E.add(q, E.mul(exp_(x), exp_(x)))
    oblig(s, st, 'lemma-sos', E.eq(exp_(e), q), 'lemma')
    st.assume(E.le(0, e)); return UNDEF
def m_lemma_eq(s, st, fr, ins, a):
    oblig(s, st, 'lemma-eq', E.eq(a[0], a[1]), 'lemma'); st.assume(E.eq(a[0], a[1])); return UNDEF
def m_buf(s, st, fr, ins, a):
    nm = uname(s, st, cstr(s, st, a[0]))
    rid = s.newregion(st, ('sym', nm) if a[2] != 3 else 'undef', nm)
    s.bufs[nm] = (a[1], a[2])
    return Ptr(rid)
def m_abort(s, st, fr, ins, a): raise PathEnd()
def m_native(s, st, fr, ins, a): return False
def m_nop(s, st, fr, ins, a): return UNDEF
def m_zero(s, st, fr, ins, a): return 0
def m_new(s, st, fr, ins, a):
    rid = s.newregion(st, 'undef', 'heap'); return Ptr(rid)
def m_calloc(s, st, fr, ins, a): return Ptr(s.newregion(st, 'zero', 'heap'))
def m_strlen(s, st, fr, ins, a): return len(cstr(s, st, a[0]))
def m_sqrt(s, st, fr, ins, a): return E.sqrt(s.real_(a[0]))
def m_sin(s, st, fr, ins, a): return E.sin(s.real_(a[0]))
def m_cos(s, st, fr, ins, a): return E.cos(s.real_(a[0]))
def m_fabs(s, st, fr, ins, a):
    x = s.real_(a[0]); return x if s.decide(st, E.le(0, x)) else E.neg(x)
def ufn(name):
    def f(s, st, fr, ins, a): return E.uf(name, 'R', *[s.real_(x) for x in a])
    return f
def m_acos(s, st, fr, ins, a):
    x = s.real_(a[0])
    if not isinstance(x, Poly) and x == 1: return 0
    return E.atomp(E.atom('acos', 'R', (x,)))
E.REBUILD['acos'] = lambda args, sort: E.atomp(E.atom('acos', 'R', args))
def pow_(s, st, x, y):
    if isinstance(y, (int, Fraction)) and not isinstance(y, bool) and Fraction(y).denominator == 1 and 0 <= y <= 8: return E.power(s.real_(x), int(y))
    if y == Fraction(1, 2): return E.sqrt(s.real_(x))
    return E.uf('pow', 'R', s.real_(x), s.real_(y))
def m_pow(s, st, fr, ins, a): return pow_(s, st, a[0], a[1])
def floor_(s, st, x):
    x = s.real_(x)
    if not isinstance(x, Poly): return math.floor(x)
    if E.isint(x): return x
    q = E.atomp(E.atom('uf', 'I', ('floor', x)))
    st.assume(And(E.le(q, x), E.lt(x, E.add(q, 1))))
    return q
def rounding(s, st, kind, x):
    if isinstance(x, tuple): raise VerifError('rounding of a vector')
    if kind == 'floor': return floor_(s, st, x)
    if kind == 'ceil': return E.neg(floor_(s, st, E.neg(s.real_(x))))
    x = s.real_(x)
    if kind == 'trunc': return floor_(s, st, x) if s.decide(st, E.le(0, x)) else E.neg(floor_(s, st, E.neg(x)))
    if kind == 'round':
        h = Fraction(1, 2)
        return floor_(s, st, E.add(x, h)) if s.decide(st, E.le(0, x)) else E.neg(floor_(s, st, E.sub(h, x)))
    return E.uf(kind, 'R', x)
def m_round(kind):
    return lambda s, st, fr, ins, a: rounding(s, st, kind, a[0])
def m_memcpy(s, st, fr, ins, a): s.copy(st, a[0], a[1], s.int_(st, a[2])); return a[0]
def m_memset(s, st, fr, ins, a): s.fill(st, a[0], a[1], s.int_(st, a[2])); return a[0]
def m_fmin(s, st, fr, ins, a): return a[0] if s.decide(st, E.le(a[0], a[1])) else a[1]
def m_fmax(s, st, fr, ins, a): return a[0] if s.decide(st, E.le(a[1], a[0])) else a[1]

TABLE = {
 '__vc_real': m_real, '__vc_realin': m_realin, '__vc_pos': m_pos, '__vc_int': m_int, '__vc_bool': m_bool, '__vc_unit3': m_unit(3), '__vc_unit4': m_unit(4),
 '__vc_assume': m_assume, '__vc_assert': m_assert, '__vc_assert_eq': m_assert_eq, '__vc_assert_le': m_assert_le, '__vc_cover': m_cover,
 '__vc_abs': m_abs, '__vc_lemma_sos': m_sos, '__vc_lemma_eq': m_lemma_eq, '__vc_buf': m_buf, '__vc_abort': m_abort, '__vc_native': m_native,
 '_Znwm': m_new, '_Znam': m_new, 'malloc': m_new, '_ZnwmSt11align_val_t': m_new, '_ZnamSt11align_val_t': m_new, 'calloc': m_calloc,
 '_ZdlPv': m_nop, '_ZdaPv': m_nop, '_ZdlPvm': m_nop, '_ZdaPvm': m_nop, 'free': m_nop, '_ZdlPvmSt11align_val_t': m_nop, '_ZdlPvSt11align_val_t': m_nop,
 'exit': m_abort, 'abort': m_abort, '_ZSt9terminatev': m_abort, '__assert_fail': m_abort, '__cxa_pure_virtual': m_abort,
 'printf': m_zero, 'puts': m_zero, 'putchar': m_zero, 'fprintf': m_zero, 'fflush': m_zero, '__cxa_atexit': m_zero, '__cxa_guard_acquire': lambda *a: 1, '__cxa_guard_release': m_nop,
 'strlen': m_strlen, 'sqrt': m_sqrt, 'sin': m_sin, 'cos': m_cos, 'fabs': m_fabs, 'acos': m_acos, 'pow': m_pow,
 'floor': m_round('floor'), 'ceil': m_round('ceil'), 'round': m_round('round'), 'trunc': m_round('trunc'),
 'exp': ufn('exp'), 'log': ufn('log'), 'atan2': ufn('atan2'), 'atan': ufn('atan'), 'asin': ufn('asin'), 'tan': ufn('tan'), 'cbrt': ufn('cbrt'), 'log10': ufn('log10'),
 'memcpy': m_memcpy, 'memmove': m_memcpy, 'memset': m_memset, 'fmin': m_fmin, 'fmax': m_fmax,
}
IGNORE_PREFIX = ('_ZNSolsE', '_ZNSo', '_ZStls', '_ZNSt8ios_base4Init', '_ZSt16__ostream_insert', '_ZNSt9basic_ios')
def lookup(s, name):
    h = TABLE.get(name)
    if h is not None: return h
    if name in s.m.fns: return None
    for p in IGNORE_PREFIX:
        if name.startswith(p):
            return lambda s, st, fr, ins, a: (a[0] if a and ins.ty.kind == 'ptr' else UNDEF)
    if name.startswith('_ZSt') and 'throw' in name: return m_abort
    return None
def m_streq(s, st, fr, ins, a): return cstr(s, st, a[0]) == cstr(s, st, a[1])
def yname(s, st, a):
    ix = a[1]
    if isinstance(ix, Poly): raise VerifError('symbolic configuration index')
    return 'yaml.' + cstr(s, st, a[0]) + (f'[{ix}]' if ix >= 0 else '')
def m_yreal(s, st, fr, ins, a):
    nm = yname(s, st, a); note(s, nm, 'R'); return E.sym(nm, 'R')
def m_yint(s, st, fr, ins, a):
    nm = yname(s, st, a); note(s, nm, 'I'); return E.sym(nm, 'I')
def m_ybool(s, st, fr, ins, a):
    nm = yname(s, st, a); note(s, nm, 'B'); v = E.sym(nm, 'I')
    st.assume(E.le(0, v)); st.assume(E.le(v, 1)); return E.eq(v, 1)
TABLE.update({'__vc_streq': m_streq, '__vc_yreal': m_yreal, '__vc_yint': m_yint, '__vc_ybool': m_ybool})
# ---- ghost functions, generic indices, invariants, sizes
def m_uf(sort):
    def f(s, st, fr, ins, a):
        k = E.atom('uf', sort, ('$' + cstr(s, st, a[0]),) + tuple(s.int_(st, x) for x in a[1:4]), f'{cstr(s, st, a[0])}({",".join(str(x) for x in a[1:4])})')
        return E.atomp(k)
    return f
def m_ufr(s, st, fr, ins, a):
    """uninterpreted real function of an integer and three reals"""
    k = E.atom('uf', 'R', ('$' + cstr(s, st, a[0]), s.int_(st, a[1])) + tuple(s.real_(x) for x in a[2:5]), f'{cstr(s, st, a[0])}({",".join(str(x) for x in a[1:5])})')
    return E.atomp(k)
TABLE['__vc_ufr'] = m_ufr
def m_same(s, st, fr, ins, a):
    """specification-level choice: are the two values provably equal here?"""
    x, y = s.real_(a[0]), s.real_(a[1])
    g = E.eq(x, y)
    if isinstance(g, bool): return g
    if g in st.pcset: return True
    if not hasattr(s, 'samecache'): s.samecache = {}
    eqs = [f for f in st.pc if f[0] == 'eq' and E.fatoms(f) & E.fatoms(g) and not E.isint(f[1])]
    k = (g, frozenset(eqs))
    if k not in s.samecache:
        try: s.samecache[k] = bool(smt.prove_zero(g[1], eqs))
        except E.Blowup: s.samecache[k] = False
    return s.samecache[k]
TABLE['__vc_same'] = m_same
def m_throw(s, st, fr, ins, a): raise PathEnd()
def m_index(s, st, fr, ins, a):
    st.ghost['ix'] = st.ghost.get('ix', ()) + (a[0],); return UNDEF
def m_inv(s, st, fr, ins, a):
    if isinstance(a[0], FnPtr): st.invs.append(a[0].name)
    return UNDEF
def m_size(s, st, fr, ins, a):
    # size parameter: unbounded in a deductive unit, bounded in a unit labelled bounded
    nm = uname(s, st, cstr(s, st, a[0])); note(s, nm, 'I')
    lo, b = a[1], a[2]
    if s.o.get('sizes', 'any') == 'any':
        v = E.sym(nm, 'I'); st.assume(E.le(lo, v)); st.assume(E.le(v, 1 << 26)); return v
    if lo == b: return lo
    v = inp(s, st, nm, 'I'); st.assume(E.le(lo, v)); st.assume(E.le(v, b))
    for k in range(lo, b + 1):
        if k == b or s.decide(st, E.eq(v, k)): return k
def m_unb(s, st, fr, ins, a): return s.o.get('sizes', 'any') == 'any'
TABLE.update({'__vc_uf': m_uf('R'), '__vc_ufi': m_uf('I'), '__vc_throw': m_throw, '__vc_index': m_index, '__vc_inv': m_inv, '__vc_size': m_size, '__vc_unbounded': m_unb})
def m_unsup(s, st, fr, ins, a): raise VerifError('contract does not fit this code: ' + cstr(s, st, a[0]))
TABLE['__vc_unsupported'] = m_unsup
def m_multiple(s, st, fr, ins, a):
    """d is an integer multiple of L: divide the polynomial by the atom L; the quotient must be integer valued"""
    d, L = s.real_(a[0]), s.real_(a[1]); ok = False
    if not isinstance(d, Poly): ok = d == 0
    elif isinstance(L, Poly) and len(L.t) == 1:
        (m, c), = L.t.items(); q = {}; good = len(m) == 1 and m[0][1] == 1; i = m[0][0]
        for mm, cc in d.t.items():
            dd = dict(mm)
            if dd.get(i, 0) < 1: good = False; break
            dd[i] -= 1
            if not dd[i]: del dd[i]
            q[tuple(sorted(dd.items()))] = E._num(Fraction(cc) / c)
        ok = good and E.isint(E.mk(q))
    oblig(s, st, cstr(s, st, a[2]), bool(ok)); return UNDEF
TABLE['__vc_assert_multiple'] = m_multiple
