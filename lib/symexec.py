"""Deductive symbolic execution of LLVM IR: path-wise verification conditions, loops summarised/cut with machine-checked
invariants, callees optionally replaced by their contracts.  Doubles are mathematical reals, integers mathematical integers."""
import re, time, subprocess, sys
from fractions import Fraction
import expr as E, smt
from expr import Poly, ATOMS, And, Or, Not
import llvmir as I
from llvmir import V_, GlobalRef, FnRef, CE, NULL, Undef, Agg

class VerifError(Exception): pass
class Fork(Exception):
    def __init__(s, cond): s.cond = cond
class PathEnd(Exception): pass
class LoopAbort(Exception): pass

class Ptr:
    __slots__ = ('rid', 'idx', 'off')
    def __init__(p, rid, off=0, idx=()): p.rid, p.off, p.idx = rid, off, idx
    def __eq__(p, o): return isinstance(o, Ptr) and p.rid == o.rid and p.off == o.off and p.idx == o.idx
    def __hash__(p): return hash((p.rid, p.off, p.idx))
    def __repr__(p): return f'&{p.rid}{list(p.idx) if p.idx else ""}+{p.off}'
    def plus(p, d): return Ptr(p.rid, E.add(p.off, d), p.idx)
NULLP = Ptr(None)
class FnPtr:
    __slots__ = ('name',)
    def __init__(s, n): s.name = n
    def __eq__(s, o): return isinstance(o, FnPtr) and s.name == o.name
    def __hash__(s): return hash(s.name)
class UndefV:
    __slots__ = ()
    def __repr__(s): return 'undef'
UNDEF = UndefV()
INF = ('inf', 1); NINF = ('inf', -1); NAN = ('nan',)

class Region:
    """layers, oldest first: dict (constant offset -> (size, value)) or tuple entries
       base: 'undef' | 'zero' | ('sym', name)"""
    __slots__ = ('rid', 'base', 'layers', 'owner', 'name', 'tag', 'const')
    def __init__(r, rid, base, name=''):
        r.rid, r.base, r.layers, r.owner, r.name, r.tag, r.const = rid, base, [], None, name, None, False
    def copy(r, owner):
        n = Region(r.rid, r.base, r.name); n.tag = r.tag; n.const = r.const
        n.layers = [dict(l) if (isinstance(l, dict) and k == len(r.layers) - 1) else l for k, l in enumerate(r.layers)]
        n.owner = owner
        return n

class Frame:
    __slots__ = ('fn', 'block', 'prev', 'ip', 'env', 'ret', 'loops', 'onret', 'allocas')
    def clone(f):
        n = Frame(); n.fn, n.block, n.prev, n.ip, n.env, n.ret, n.loops, n.onret = f.fn, f.block, f.prev, f.ip, dict(f.env), f.ret, list(f.loops), f.onret
        return n

class State:
    __slots__ = ('frames', 'mem', 'pc', 'pcset', 'id', 'wlog', 'invs', 'tags', 'retval', 'ghost', 'trace')
    N = [0]
    def __init__(s):
        s.frames = []; s.mem = {}; s.pc = []; s.pcset = set(); s.wlog = None; s.invs = []; s.tags = []; s.retval = None; s.ghost = {}; s.trace = []
        State.N[0] += 1; s.id = State.N[0]
    def clone(s):
        n = State(); n.frames = [f.clone() for f in s.frames]; n.mem = dict(s.mem); n.pc = list(s.pc); n.pcset = set(s.pcset)
        n.wlog = list(s.wlog) if s.wlog is not None else None
        n.invs = list(s.invs); n.tags = list(s.tags); n.ghost = dict(s.ghost); n.trace = list(s.trace); n.retval = s.retval
        s_new = State.N[0] + 1; State.N[0] = s_new; s.id = s_new       # both sides lose ownership of shared regions
        return n
    def assume(s, f):
        if f is True: return
        if f is not False and f[0] == 'and':
            for g in f[1]: s.assume(g)
            return
        if f not in s.pcset: s.pc.append(f); s.pcset.add(f)

def fdiv_(a, b):
    b0 = stdpart(b)
    return E.div(a, b if not isinstance(b0, Poly) and b0 == 0 else b0)
class Obl:
    __slots__ = ('name', 'pc', 'goal', 'fn', 'kind', 'status', 'by', 'model', 't')
    def __init__(o, name, pc, goal, fn): o.name, o.pc, o.goal, o.fn = name, pc, goal, fn; o.status = None; o.by = None; o.model = None; o.t = 0; o.kind = 'assert'

EPS_ZERO = Fraction(1, 2 ** 48)    # constants of a few machine epsilons are infinitesimals in exact arithmetic
EPS_REL = Fraction(1, 2 ** 52)
EPS = E.sym('eps~', 'R'); EPSID = next(iter(EPS.atoms()))
def stdpart(x):
    if not isinstance(x, Poly) or EPSID not in x.atoms(): return x
    return E.mk({m: c for m, c in x.t.items() if not any(i == EPSID for i, _ in m)})
def epscmp(op, a, b):
    """comparison of polynomials in a positive infinitesimal"""
    d = E.sub(a, b)
    if not isinstance(d, Poly) or EPSID not in d.atoms(): return E.cmp0(op, d)
    parts = {}
    for m, c in d.t.items():
        k = dict(m).get(EPSID, 0)
        parts.setdefault(k, {})[tuple(x for x in m if x[0] != EPSID)] = c
    ks = sorted(parts); ps = [E.mk(parts[k]) for k in ks]
    if op == 'eq': return And(*[E.cmp0('eq', p) for p in ps])
    if op == 'ne': return Or(*[E.cmp0('ne', p) for p in ps])
    r = E.cmp0(op, ps[-1])
    for p in ps[-2::-1]: r = Or(E.cmp0('lt', p), And(E.cmp0('eq', p), r))
    if ks[0] > 0 and False: pass
    return r

class Exec:
    def __init__(s, mod, contracts=None, opts=None):
        s.m = mod; s.contracts = contracts or []; s.o = dict(maxpaths=4000, unroll=64, fork_iters=0, verbose=False, eps0=True, steps=4000000)
        s.o.update(opts or {})
        s.obls = []; s.nreg = 0; s.covers = {}; s.fcache = {}; s.globals_mem = {}; s.npaths = 0; s.steps = 0
        s.called = {}; s.contract_used = {}; s.assumptions = set(); s.loops_done = {}; s.inputs = []; s.unmodelled = set()
        s.inputset = set(); s.bufs = {}; s.absbasis = []; s.absmap = {}; s.demcache = {}; s.houdini = dict(tried=0, kept=0); s.invcache = {}
        s.cut_depth = 0; s.inst_t = []
        s.deadline = time.time() + s.o.get('time', 600)

    # ------------------------------------------------------------ regions / globals
    def newregion(s, st, base, name):
        s.nreg += 1; rid = f'{name}.{s.nreg}'
        r = Region(rid, base, name); r.owner = st.id
        st.mem[rid] = r
        return rid
    def globalptr(s, st, name):
        if name in s.m.decls or name in s.m.fns or (name in s.m.aliases and name not in s.m.globals): return FnPtr(name)
        rid = 'g:' + name
        if rid not in st.mem:
            g = s.m.globals.get(name)
            if g is None: raise VerifError('unknown global ' + name)
            r = Region(rid, 'undef', name); r.const = g['const']
            if g['init']:
                c = s.m.init_of(name)
                d = {}
                if isinstance(c, tuple) and c[0] == 'bigzero': r.base = 'zero'
                else: s.flatten(st, c, g['ty'], 0, d)
                r.layers = [d]
            elif name == '__libc_single_threaded': r.layers = [{0: (1, 1)}]
            else: r.base = ('sym', rid)
            r.owner = -1
            st.mem[rid] = r
        return Ptr(rid)
    def flatten(s, st, c, ty, off, d):
        if isinstance(c, Agg):
            if c.ty.kind == 'struct':
                for v, o, t in zip(c.vals, c.ty.offs, c.ty.elems): s.flatten(st, v, t, off + o, d)
            else:
                sz = c.ty.el.size
                for k, v in enumerate(c.vals): s.flatten(st, v, c.ty.el, off + k * sz, d)
            return
        if isinstance(c, tuple) and c[0] == 'bigzero': return
        d[off] = (ty.store, s.constval(st, c))
    def constval(s, st, c):
        if isinstance(c, (bool, int)): return c
        if isinstance(c, Fraction):
            if s.o['eps0'] and c != 0 and abs(c) < EPS_ZERO: return E.scale(EPS, c * 2 ** 52)
            if c.denominator == 1: return int(c)
            # a literal such as 1.0/30.0 denotes the rational it rounds
            q = c.limit_denominator(100000)
            return q if q != 0 and abs(q - c) <= abs(c) * EPS_REL else c
        if isinstance(c, FnRef): return FnPtr(c.name)
        if isinstance(c, GlobalRef): return s.globalptr(st, c.name)
        if c is NULL: return NULLP
        if isinstance(c, Undef): return UNDEF
        if isinstance(c, Agg): return tuple(s.constval(st, v) for v in c.vals)
        if isinstance(c, CE):
            if c.op == 'gep':
                b = s.constval(st, c.args[0])
                return b.plus(c.off) if isinstance(b, Ptr) else b
            if c.op in ('bitcast', 'addrspacecast', 'ptrtoint', 'inttoptr'): return s.constval(st, c.args[0])
            if c.op == 'sub': 
                a, b = [s.constval(st, x) for x in c.args]
                return E.sub(a.off, b.off)
        if isinstance(c, tuple) and c and c[0] in ('inf', 'nan'): return c
        if isinstance(c, tuple) and c and c[0] == 'bigzero': return ('bigzero', c[1])
        raise VerifError(f'constant {c!r} {getattr(c, "op", "")}')

    # ------------------------------------------------------------ decisions
    def decide(s, st, f):
        if f is True or f is False: return f
        if f in st.pcset: return True
        nf = Not(f)
        if nf in st.pcset: return False
        if f[0] in ('and', 'or') and st.ghost.get('taus'):
            # inside a cut loop paths are told apart by literals
            if f[0] == 'and': return all(s.decide(st, g) for g in f[1])
            return any(s.decide(st, g) for g in f[1])
        key = (f, frozenset(st.pcset))
        r = s.fcache.get(key)
        if r is None:
            rel = smt.relevant(st.pc, f)
            if smt.has_z(f):
                r = s.decide_z(rel, f)
            elif smt.check_linear(rel + [f]): r = False
            elif smt.check_linear(rel + [nf]): r = True
            else: r = 'both'
            s.fcache[key] = r
        if r == 'both': raise Fork(f)
        return r
    def decide_z(s, rel, f):
        a = smt.prove_z(rel, Not(f), 5)[0] == 'proved'
        if a: return False
        return True if smt.prove_z(rel, f, 5)[0] == 'proved' else 'both'
    def implied(s, st, f):
        """True if pc |- f by the linear abstraction (never forks)"""
        if f is True: return True
        if f is False: return False
        if f in st.pcset: return True
        return smt.check_linear(smt.relevant(st.pc, f) + [Not(f)])
    def truth(s, st, v):
        if isinstance(v, bool): return v
        if isinstance(v, UndefV): raise VerifError('branch on undefined value')
        if isinstance(v, int): return bool(v)
        if isinstance(v, Poly): v = E.ne(v, 0)
        return s.decide(st, v)

    # ------------------------------------------------------------ memory
    def reg(s, st, p):
        if not isinstance(p, Ptr): raise VerifError(f'memory access through {p!r}')
        if p.rid is None: raise VerifError('null pointer access')
        r = st.mem.get(p.rid)
        if r is None: raise VerifError(f'access to unknown region {p.rid}')
        return r
    def own(s, st, rid):
        r = st.mem[rid]
        if r.owner != st.id:
            r = r.copy(st.id); st.mem[rid] = r
        return r
    def write(s, st, p, val, size):
        r0 = s.reg(st, p)
        if r0.const: raise VerifError('write to constant')
        if st.wlog is not None: st.wlog.append(('w', p, size, val))
        r = s.own(st, p.rid)
        if not p.idx and not isinstance(p.off, Poly):
            if not r.layers or not isinstance(r.layers[-1], dict): r.layers.append({})
            d = r.layers[-1]
            # partially overlapping previous entries
            if p.off not in d or d[p.off][0] != size:
                for o in range(p.off - 15, p.off + size):
                    e = d.get(o)
                    if e is not None and o != p.off and o + e[0] > p.off:
                        if e[1] is UNDEF or o >= p.off and o + e[0] <= p.off + size: del d[o]
                        else: s.split(d, o, e)
                        if o in d and o + d[o][0] > p.off: raise VerifError(f'overlapping write {p} size {size} over {o} {e}')
                e = d.get(p.off)
                if e is not None and e[0] > size: s.split(d, p.off, e)
            d[p.off] = (size, val)
        else: r.layers.append(('w', p.idx, p.off, size, val))
    def split(s, d, o, e):
        sz, v = e
        if isinstance(v, int) and not isinstance(v, bool):
            del d[o]
            u = v % (1 << (8 * sz)); h = sz // 2
            lo, hi = u % (1 << (8 * h)), u >> (8 * h)
            for k, x in ((0, lo), (h, hi)):
                if x >= 1 << (8 * h - 1): x -= 1 << (8 * h)
                d[o + k] = (h, x)
        elif v is UNDEF:
            del d[o]; d[o] = (sz // 2, UNDEF); d[o + sz // 2] = (sz // 2, UNDEF)
        elif isinstance(v, int) or (isinstance(v, tuple) and v and v[0] == 'vec'):
            raise VerifError('split')
    def addr_eq(s, idx1, off1, idx2, off2):
        fs = [E.eq(off1, off2)]
        if len(idx1) != len(idx2): return False
        for a, b in zip(idx1, idx2): fs.append(E.eq(a, b))
        return And(*fs)
    def read(s, st, p, ty):
        r = s.reg(st, p)
        return s.read_layers(st, r, len(r.layers), p.idx, p.off, ty)
    def read_layers(s, st, r, n, idx, off, ty):
        size = ty.store
        const = not idx and not isinstance(off, Poly)
        k = n - 1
        while k >= 0:
            l = r.layers[k]
            if isinstance(l, dict):
                if const:
                    e = l.get(off)
                    if e is not None:
                        if e[0] == size or e[1] is UNDEF: return s.coerce(st, e[1], ty, e[0])
                        return s.read_mixed(st, r, k, l, off, ty, e)
                    if l:
                        hit = [o for o in range(off - 15, off + size) if o in l and o + l[o][0] > off]
                        if hit: return s.read_mixed(st, r, k, l, off, ty, None)
                else:
                    for o in sorted(l):
                        f = s.addr_eq(idx, off, (), o) if not idx else False
                        if f is not False and s.decide(st, f): return s.coerce(st, l[o][1], ty, l[o][0])
            elif l[0] == 'w':
                if l[3] != size:
                    f = s.overlap(st, idx, off, size, l)
                    if f is not False and s.decide(st, f): 
                        if l[4] is UNDEF: return UNDEF
                        raise VerifError('mixed-size access')
                else:
                    f = s.addr_eq(idx, off, l[1], l[2])
                    if f is not False and s.decide(st, f): return s.coerce(st, l[4], ty, size)
            elif l[0] == 'copy':      # ('copy', idx, off, n, srcregion(snapshot), sidx, soff)
                if l[1] == idx or len(l[1]) == len(idx):
                    f = And(*[E.eq(a, b) for a, b in zip(l[1], idx)], E.le(l[2], off), E.lt(off, E.add(l[2], l[3])))
                    if s.decide(st, f):
                        src = l[4]
                        return s.read_layers(st, src, len(src.layers), l[5], E.add(l[6], E.sub(off, l[2])), ty)
            elif l[0] == 'fill':      # ('fill', idx, off, n, byte value)
                f = And(*[E.eq(a, b) for a, b in zip(l[1], idx)], E.le(l[2], off), E.lt(off, E.add(l[2], l[3])))
                if s.decide(st, f):
                    return s.coerce(st, 0, ty, size) if l[4] == 0 else s.fillval(l[4], ty)
            elif l[0] == 'loop':
                h, v = s.read_loop(st, l, idx, off, ty, r, k)
                if h: return v
            elif l[0] == 'map':       # ('map', idx, off, n, stride, fn(st, k) -> value)   whole-array operation
                f = And(*[E.eq(a, b) for a, b in zip(l[1], idx)], E.le(l[2], off), E.lt(off, E.add(l[2], E.scale(l[3], l[4]))))
                if s.decide(st, f):
                    return s.coerce(st, l[5](st, E.floordiv(E.sub(off, l[2]), l[4])), ty, size)
            elif l[0] == 'havoc':     # ('havoc', name[, iteration])
                return s.symread(st, ('sym', l[1]), l[2:] + idx, off, ty)
            else: raise VerifError(f'layer {l[0]}')
            k -= 1
        return s.baseread(st, r, idx, off, ty)
    def overlap(s, st, idx, off, size, l):
        fs = [E.eq(a, b) for a, b in zip(idx, l[1])]
        return And(*fs, E.lt(l[2], E.add(off, size)), E.lt(off, E.add(l[2], l[3])))
    def fillval(s, b, ty):
        if ty.kind == 'int':
            v = int.from_bytes(bytes([b & 255]) * (ty.width // 8), 'little', signed=True); return v
        raise VerifError('fill value')
    def baseread(s, st, r, idx, off, ty):
        if r.base == 'zero': return s.coerce(st, 0, ty, ty.store)
        if r.base == 'undef':
            if ty.kind in ('struct', 'array', 'vector'): return s.aggread(st, r, idx, off, ty)
            return UNDEF
        return s.symread(st, r.base, idx, off, ty)
    def symread(s, st, base, idx, off, ty):
        key = base[1]
        if ty.kind in ('double', 'float'): return E.atomp(E.atom('sel', 'R', (key,) + idx + (off,), s.selname(key, idx, off)))
        if ty.kind == 'int':
            sort = {8: 'I', 16: 'I', 32: 'I', 64: 'I', 1: 'I'}[ty.width]
            p = E.atomp(E.atom('sel', sort, (key + (':i' if ty.width == 32 or not key.startswith('hv') else f':j{ty.width}'),) + idx + (off,), s.selname(key, idx, off)))
            if ty.width == 1: return E.ne(p, 0)
            return p
        if ty.kind == 'ptr':
            h = s.o.get('ptr_handler')
            if h:
                r = h(s, st, base, idx, off)
                if r is not None: return r
            rid = 'fam:' + key
            if rid not in st.mem:
                r = Region(rid, ('sym', key + '*'), rid); r.owner = -1; st.mem[rid] = r
            return Ptr(rid, 0, idx + (off,))
        raise VerifError(f'symbolic read of {ty.kind}')
    def selname(s, key, idx, off):
        return f'{key}[{",".join(str(x) for x in idx + (off,))}]'
    def aggread(s, st, r, idx, off, ty):
        p = Ptr(r.rid, off, idx)
        if ty.kind == 'struct': return tuple(s.read(st, p.plus(o), t) for o, t in zip(ty.offs, ty.elems))
        return tuple(s.read(st, p.plus(k * ty.el.size), ty.el) for k in range(ty.n))
    def read_mixed(s, st, r, k, l, off, ty, e):
        size = ty.store
        # constant integers of other widths
        if ty.kind in ('struct', 'array', 'vector'): return s.aggread(st, r, (), off, ty)
        bs = []
        o = off
        while o < off + size:
            e = l.get(o)
            if e is None:
                c = [x for x in range(o - 15, o) if x in l and x + l[x][0] > o]
                if not c: return UNDEF if r.base == 'undef' else self_zero(s, st, r, ty)
                x = c[0]; e = l[x]
                if e[1] is UNDEF: return UNDEF
                v = s.tobytes(e)
                if v is None: raise VerifError(f'mixed-size read {r.rid}+{off} of {ty}')
                bs += v[o - x:]; o = x + e[0]
            else:
                if e[1] is UNDEF: return UNDEF
                v = s.tobytes(e)
                if v is None:
                    # a pair of equal-sized values read as an integer (struct copies by i64 etc.)
                    return ('raw', tuple((l.get(q)) for q in range(off, off + size) if q in l), size)
                bs += v; o += e[0]
        b = bytes(bs[:size])
        if ty.kind == 'int': return int.from_bytes(b, 'little', signed=True)
        if ty.kind == 'double':
            import struct
            return Fraction(struct.unpack('<d', b)[0])
        if ty.kind == 'ptr' and b == b'\0' * 8: return NULLP
        raise VerifError('mixed read kind')
    def tobytes(s, e):
        sz, v = e
        if isinstance(v, bool): v = int(v)
        if isinstance(v, int): return list((v % (1 << (8 * sz))).to_bytes(sz, 'little'))
        return None
    def coerce(s, st, v, ty, size):
        k = ty.kind
        if k in ('struct', 'array', 'vector'): raise VerifError('aggregate load from scalar cell')
        if isinstance(v, tuple) and v and v[0] == 'raw': return v
        if k == 'ptr' and not isinstance(v, (Ptr, FnPtr, UndefV)):
            if v == 0: return NULLP
            if isinstance(v, tuple) and v[0] == 'bits': return v[1]
            raise VerifError(f'pointer load of {v!r}')
        if k == 'int':
            if isinstance(v, Ptr): return v
            if isinstance(v, (Fraction, Poly)) and not E.isint(v): return ('bits', v)
            if ty.width == 1 and not isinstance(v, (bool, tuple, UndefV)): return v != 0 if isinstance(v, int) else E.ne(v, 0)
            if ty.width > 1 and isinstance(v, bool): return int(v)
            if isinstance(v, tuple) and v and v[0] in ('eq', 'ne', 'lt', 'le', 'and', 'or', 'z') and ty.width > 1: return ('b2i', v)
        if k in ('double', 'float'):
            if isinstance(v, tuple) and v and v[0] == 'bits': return v[1]
        return v
    def copy(s, st, dst, src, n, st_sizehint=None):
        """memcpy/memmove"""
        if not isinstance(n, Poly) and n == 0: return
        sr = s.reg(st, src)
        if not dst.idx and not src.idx and not isinstance(n, Poly) and not isinstance(dst.off, Poly) and not isinstance(src.off, Poly) \
                and all(isinstance(l, dict) for l in sr.layers) and sr.base in ('undef', 'zero'):
            cells = {}
            for l in sr.layers:
                for o, e in l.items():
                    if src.off <= o < src.off + n: cells[o] = e
            if sr.base == 'zero':
                if n > 4096: raise VerifError('large zero copy')
                o = src.off
                while o < src.off + n:
                    if o in cells: o += cells[o][0]
                    else:
                        step = 8 if o % 8 == 0 and o + 8 <= src.off + n and not any((o + q) in cells for q in range(8)) else (4 if o % 4 == 0 and o + 4 <= src.off + n and not any((o + q) in cells for q in range(4)) else 1)
                        cells[o] = (step, 0); o += step
            # clear destination range then write
            r = s.own(st, dst.rid)
            for l in r.layers[-1:]:
                if isinstance(l, dict):
                    for o in [o for o in l if dst.off <= o < dst.off + n]:
                        if o + l[o][0] <= dst.off + n: del l[o]
            if len(r.layers) > 1 or r.base != 'undef':
                # holes must read as undefined, not fall through
                o = src.off
                while o < src.off + n:
                    if o in cells: o += cells[o][0]
                    else: s.write(st, dst.plus(o - src.off), UNDEF, 1); o += 1
            for o, (sz, v) in sorted(cells.items()): s.write(st, dst.plus(o - src.off), v, sz)
            return
        if dst.rid == src.rid and dst == src: return
        snap = sr.copy(-1) if dst.rid != src.rid else sr.copy(-1)
        if st.wlog is not None: st.wlog.append(('copy', dst, n, src, snap))
        r = s.own(st, dst.rid)
        r.layers.append(('copy', dst.idx, dst.off, n, snap, src.idx, src.off))
    def fill(s, st, p, byte, n):
        if isinstance(byte, Poly): raise VerifError('symbolic memset value')
        if isinstance(n, Poly) or p.idx or isinstance(p.off, Poly) or n > 4096:
            s.reg(st, p)
            if st.wlog is not None: st.wlog.append(('fill', p, n, byte))
            s.own(st, p.rid).layers.append(('fill', p.idx, p.off, n, byte)); return
        o = 0
        r = st.mem[p.rid]
        d = r.layers[-1] if r.layers and isinstance(r.layers[-1], dict) else {}
        while o < n:
            e = d.get(p.off + o)
            step = e[0] if e and o + e[0] <= n else (8 if (p.off + o) % 8 == 0 and o + 8 <= n else (4 if (p.off + o) % 4 == 0 and o + 4 <= n else 1))
            v = 0 if byte == 0 else int.from_bytes(bytes([byte & 255]) * step, 'little', signed=True)
            s.write(st, p.plus(o), v, step); o += step

    def read_loop(s, st, l, idx, off, ty, r, n):
        import loopcut
        return loopcut.read_loop(s, st, l, idx, off, ty, r, n)
    # ------------------------------------------------------------ values
    def val(s, st, fr, o):
        if isinstance(o, V_):
            try: return fr.env[o.id]
            except KeyError: raise VerifError('unbound value')
        if isinstance(o, (bool, int)): return o
        if isinstance(o, tuple) and o and o[0] in ('md', 'asm'): return o
        return s.constval(st, o)

    # ------------------------------------------------------------ running
    def call_fn(s, st, fn, args, onret=None, ret=None):
        fr = Frame(); fr.fn = fn; fr.block = fn.entry; fr.prev = None; fr.ip = 0; fr.env = dict(zip(fn.args, args)); fr.ret = ret; fr.loops = []; fr.onret = onret
        st.frames.append(fr)
        return fr
    def explore(s, st0, depth=None, loop=None):
        """run until the frame stack is shallower than `depth` (or empty), or control leaves/returns to the header of `loop`.
        -> list of (kind, state), kind in ret / exit / back / end"""
        out = []; work = [st0]
        d0 = depth if depth is not None else 1
        while work:
            st = work.pop()
            while True:
                s.steps += 1
                if s.steps > s.o['steps'] or time.time() > s.deadline: raise VerifError('step/time budget exhausted')
                if len(st.frames) < d0: out.append(('ret', st)); break
                E.TAUS[0] = st.ghost.get('taus', ())
                try: r = s.step(st)
                except Fork as fk:
                    s.npaths += 1
                    if s.npaths > s.o['maxpaths'] * 10: raise VerifError('path budget exhausted')
                    st2 = st.clone()
                    st.assume(fk.cond); st2.assume(Not(fk.cond))
                    if s.cut_depth == 0: s.pin(st, fk.cond); s.pin(st2, Not(fk.cond))
                    work.append(st2)
                    continue
                except PathEnd:
                    out.append(('end', st)); break
                if r is None: continue
                # r = target block: an edge is taken
                kind = s.edge(st, r, d0, loop)
                if kind == 'go': continue
                if kind in ('exit', 'back'): out.append((kind, st)); break
                # a loop was entered: result states continue
                work += kind[1]
                break
        return out
    def pin(s, st, f):
        """an input known to be one number is replaced by it everywhere"""
        if not isinstance(f, bool) and f[0] == 'or':
            q = [g for g in f[1] if not s.implied(st, Not(g))]
            if len(q) == 1 and q[0][0] in ('eq', 'le'): st.assume(q[0]); s.pin(st, q[0])
            return
        if isinstance(f, bool) or f[0] not in ('eq', 'le') or not isinstance(f[1], Poly): return
        ms = [m for m in f[1].t if m]
        if len(ms) != 1 or len(ms[0]) != 1 or ms[0][0][1] != 1: return
        i = ms[0][0][0]; a = E.ATOMS[i]
        if a.kind != 'sym' or a.sort != 'I' or a.name.endswith('~'): return
        v = Fraction(-E.lin_const(f[1])) / f[1].t[ms[0]]
        if v.denominator != 1: return
        v = int(v); e = E.eq(E.atomp(i), v)
        if f[0] == 'le' and not s.implied(st, e): return
        import loopcut
        if loopcut.subst_state(s, st, {i: v}): st.assume(e)
    def edge(s, st, target, d0, loop):
        fr = st.frames[-1]; fn = fr.fn
        fr.prev = fr.block
        depth = len(st.frames)
        if loop is not None and depth == d0:
            if target == loop.header: fr.block = target; return 'back'
            if target not in loop.body:
                s.enter(st, fr, target)
                fr.loops = [l for l in fr.loops if target in l.body]
                # entering another loop on exit is handled by the caller
                return 'exit'
        fr.loops = [l for l in fr.loops if target in l.body]
        L = fn.loops.get(target)
        if L is not None and L not in fr.loops:
            s.enter(st, fr, target)
            return ('loop', s.do_loop(st, L))
        s.enter(st, fr, target)
        return 'go'
    def enter(s, st, fr, target):
        B = fr.fn.blocks[target]
        if B.phis:
            vals = [(p.id, s.val(st, fr, p.x[fr.prev])) for p in B.phis]
            for i, v in vals: fr.env[i] = v
        fr.block = target; fr.ip = 0
    # after leaving a loop the state sits at the first instruction of a block that may itself be a loop header
    def resume(s, states):
        out = []
        for st in states:
            if not st.frames: out.append(st); continue
            fr = st.frames[-1]
            L = fr.fn.loops.get(fr.block)
            if L is not None and L not in fr.loops and fr.ip == 0:
                out += s.do_loop(st, L)
            else: out.append(st)
        return out
    def do_loop(s, st, L):
        depth = len(st.frames)
        fr = st.frames[-1]
        key = (fr.fn.name, L.id)
        mark = len(s.obls)
        if s.loops_done.get(key) != 'cut' and not s.o.get('force_cut'):
            fr.loops = fr.loops + [L]
            cur = [st.clone()]; exits = []; und = 0; n = 0; ok = True
            while cur:
                n += 1
                nxt = []
                forked = False
                for c in cur:
                    res = s.explore(c, depth, L)
                    kinds = {k for k, _ in res}
                    if 'back' in kinds and ('exit' in kinds or 'ret' in kinds): forked = True
                    if forked and __import__('os').environ.get('DLDBG'):
                        print('FORK', n, s.dem(fr.fn.name)[:40]); print('  pre', [repr(f)[:100] for f in c.pc][-30:])
                        for k, x in res: print('  ', k, [repr(f)[:100] for f in x.pc[len(c.pc):]][:12])
                    for k, x in res:
                        if k == 'back':
                            s.enter(x, x.frames[-1], L.header); nxt.append(x)
                        elif k in ('exit', 'ret'): exits.append(x)
                if forked: und += 1
                if und > s.o['fork_iters'] or n > s.o['unroll'] or len(nxt) > 256: ok = False; break
                cur = nxt
            if ok:
                return s.resume(exits)
            del s.obls[mark:]
            s.loops_done[key] = 'cut'
            fr.loops = fr.loops[:-1]
        import loopcut
        return s.resume(loopcut.cut(s, st, L))

    # ------------------------------------------------------------ instructions
    def step(s, st):
        fr = st.frames[-1]
        B = fr.fn.blocks[fr.block]
        ins = B.ins[fr.ip]
        r = getattr(s, 'i_' + ins.op)(st, fr, ins)
        if r is not None: return r
        return None
    def setv(s, fr, ins, v):
        fr.env[ins.id] = v; fr.ip += 1
    def i_ret(s, st, fr, ins):
        v = s.val(st, fr, ins.ops[0]) if ins.ops else None
        st.frames.pop(); st.retval = v
        if fr.onret is not None: v = fr.onret(s, st, v)
        if st.frames:
            c = st.frames[-1]
            if fr.ret is not None: c.env[fr.ret] = v
            ci = c.fn.blocks[c.block].ins[c.ip]
            if ci.op == 'invoke': 
                # continue at the normal destination
                st.frames[-1].ip = -1
                return s.after_invoke(st, c, ci)
            c.ip += 1
    def after_invoke(s, st, fr, ins):
        return ins.x['succ'][0]
    def i_br(s, st, fr, ins):
        su = ins.x['succ']
        if len(su) == 1: return su[0]
        # LLVM C API successor order: 0 = true, 1 = false
        c = s.truth(st, s.val(st, fr, ins.ops[0]))
        return su[0] if c else su[1]
    def i_switch(s, st, fr, ins):
        v = s.int_(st, s.val(st, fr, ins.ops[0]))
        for c, b in ins.x['cases']:
            if s.decide(st, E.eq(v, int(c))): return b
        return ins.x['default']
    def i_unreachable(s, st, fr, ins): raise PathEnd()
    def i_resume(s, st, fr, ins): raise PathEnd()
    def i_alloca(s, st, fr, ins):
        s.setv(fr, ins, Ptr(s.newregion(st, 'undef', 'al')))
    def i_load(s, st, fr, ins):
        p = s.val(st, fr, ins.ops[0])
        if ins.ty.kind in ('struct', 'array', 'vector'):
            v = s.aggread(st, s.reg(st, p), p.idx, p.off, ins.ty)
        else: v = s.read(st, p, ins.ty)
        s.setv(fr, ins, v)
    def i_store(s, st, fr, ins):
        v = s.val(st, fr, ins.ops[0]); p = s.val(st, fr, ins.ops[1])
        s.store(st, p, v, ins.x)
        fr.ip += 1
    def store(s, st, p, v, ty):
        if ty.kind == 'struct':
            for o, t, x in zip(ty.offs, ty.elems, v if not isinstance(v, UndefV) else [UNDEF] * len(ty.elems)): s.store(st, p.plus(o), x, t)
        elif ty.kind in ('array', 'vector'):
            for k in range(ty.n): s.store(st, p.plus(k * ty.el.size), v[k] if not isinstance(v, UndefV) else UNDEF, ty.el)
        else:
            if isinstance(v, tuple) and v and v[0] == 'raw':
                base = p; o = 0
                for sz, x in v[1]: s.write(st, base.plus(o), x, sz); o += sz
                return
            if isinstance(v, tuple) and v and v[0] == 'bits': v = v[1]
            s.write(st, p, v, ty.store)
    def i_gep(s, st, fr, ins):
        b = s.val(st, fr, ins.ops[0]); off, parts = ins.x
        if ins.ty.kind == 'vector': raise VerifError('vector gep')
        if b is UNDEF: return s.setv(fr, ins, UNDEF)
        d = off
        for sc, o in parts: d = E.add(d, E.scale(s.int_(st, s.val(st, fr, o)), sc))
        if not isinstance(b, Ptr): 
            if isinstance(b, FnPtr) and d == 0: return s.setv(fr, ins, b)
            raise VerifError(f'gep on {b!r}')
        s.setv(fr, ins, b.plus(d))
    def i_phi(s, st, fr, ins): raise VerifError('phi')
    def i_freeze(s, st, fr, ins):
        s.setv(fr, ins, s.val(st, fr, ins.ops[0]))
    def int_(s, st, v):
        """integer view (forks a boolean)"""
        if isinstance(v, bool): return int(v)
        if isinstance(v, (int, Poly)): return v
        if isinstance(v, tuple) and v:
            if v[0] == 'b2i': return int(s.decide(st, v[1]))
            if v[0] in ('eq', 'ne', 'lt', 'le', 'and', 'or', 'z'): return int(s.decide(st, v))
        if isinstance(v, Ptr): return v
        if isinstance(v, Fraction) and v.denominator == 1: return int(v)
        if v is UNDEF: return s.undefint(st)
        raise VerifError(f'not an integer: {v!r}')
    def undefint(s, st): return E.fresh('undef', 'I')
    def real_(s, v):
        if isinstance(v, (int, Fraction, Poly)): return v
        if v is UNDEF: return E.fresh('undef', 'R')
        if isinstance(v, tuple) and v and v[0] == 'bits': return v[1]
        raise VerifError(f'not a real: {v!r}')
    # floating point
    def fbin(s, st, fr, ins, f):
        a, b = s.val(st, fr, ins.ops[0]), s.val(st, fr, ins.ops[1])
        if ins.ty.kind == 'vector':
            return s.setv(fr, ins, tuple(s.absr(f(s.real_(x), s.real_(y))) for x, y in zip(a, b)))
        for x in (a, b):
            if isinstance(x, tuple) and x and x[0] in ('inf', 'nan'):
                return s.setv(fr, ins, s.inf_arith(st, ins.op, a, b))
        s.setv(fr, ins, s.absr(f(s.real_(a), s.real_(b))))
    def inf_arith(s, st, op, a, b):
        if a == NAN or b == NAN: return NAN
        raise VerifError('arithmetic on infinity')
    def i_fadd(s, st, fr, ins): s.fbin(st, fr, ins, E.add)
    def i_fsub(s, st, fr, ins): s.fbin(st, fr, ins, E.sub)
    def i_fmul(s, st, fr, ins): s.fbin(st, fr, ins, E.mul)
    def i_fdiv(s, st, fr, ins): s.fbin(st, fr, ins, fdiv_)
    def i_fneg(s, st, fr, ins):
        a = s.val(st, fr, ins.ops[0])
        if ins.ty.kind == 'vector': return s.setv(fr, ins, tuple(E.neg(s.real_(x)) for x in a))
        if isinstance(a, tuple) and a and a[0] == 'inf': return s.setv(fr, ins, ('inf', -a[1]))
        if a == NAN: return s.setv(fr, ins, NAN)
        s.setv(fr, ins, E.neg(s.real_(a)))
    def absr(s, r):
        """abstract registered quantities (linear span)"""
        if not s.absbasis or not isinstance(r, Poly): return r
        return s.abs_reduce(r)
    def abs_reduce(s, r):
        av = s.absvars
        if not any(i in av for m in r.t for i, _ in m): return r
        q = r
        for piv, b, A in s.absbasis:
            c = q.t.get(piv) if isinstance(q, Poly) else None
            if c is None:
                # products of the pivot with already abstract terms are left alone
                continue
            q = E.add(q, E.scale(E.sub(A, b), c))
        if isinstance(q, Poly) and any(i in av for m in q.t for i, _ in m): return r
        return q
    def abs_expand(s, v):
        """back to the original coordinates"""
        if not isinstance(v, Poly) or not s.absmap: return v
        save = s.absbasis; s.absbasis = []
        r = E.subst(v, s.absmap)
        s.absbasis = save
        return r
    def add_abs(s, p, A):
        """register  p (polynomial over input atoms) = A (fresh symbol)"""
        (m, _), = A.t.items(); s.absmap[m[0][0]] = s.abs_expand(p)
        q = p; AA = A
        for piv, b, B in s.absbasis:
            c = q.t.get(piv) if isinstance(q, Poly) else None
            if c is not None: q = E.sub(q, E.scale(b, c)); AA = E.sub(AA, E.scale(B, c))
        if not isinstance(q, Poly): return False
        piv = max(m for m in q.t if m)
        k = Fraction(1) / q.t[piv]
        q = E.scale(q, k); AA = E.scale(AA, k)
        nb = []
        for piv2, b, B in s.absbasis:
            c = b.t.get(piv)
            if c is not None: b = E.sub(b, E.scale(q, c)); B = E.sub(B, E.scale(AA, c))
            nb.append((piv2, b, B))
        nb.append((piv, q, AA)); s.absbasis = nb
        s.absvars = {i for _, b, _ in nb for i in b.atoms()}
        return True
    def i_fcmp(s, st, fr, ins):
        a, b = s.val(st, fr, ins.ops[0]), s.val(st, fr, ins.ops[1]); p = ins.x
        if p == 'ord': r = not (a == NAN or b == NAN)
        elif p == 'uno': r = (a == NAN or b == NAN)
        elif p in ('true', 'false'): r = p == 'true'
        elif a == NAN or b == NAN: r = p[0] == 'u'
        else:
            if isinstance(a, tuple) and a and a[0] == 'inf' or isinstance(b, tuple) and b and b[0] == 'inf':
                x = a[1] * 10 if isinstance(a, tuple) else 0
                y = b[1] * 10 if isinstance(b, tuple) else 0
                a, b = x, y
            else: a, b = s.real_(a), s.real_(b)
            q = p[1:]
            r = {'eq': lambda: epscmp('eq', a, b), 'ne': lambda: epscmp('ne', a, b), 'lt': lambda: epscmp('lt', a, b), 'le': lambda: epscmp('le', a, b),
                 'gt': lambda: epscmp('lt', b, a), 'ge': lambda: epscmp('le', b, a)}[q]()
        s.setv(fr, ins, r)
    # integers
    def ibin(s, st, fr, ins, f):
        a, b = s.val(st, fr, ins.ops[0]), s.val(st, fr, ins.ops[1])
        if ins.ty.kind == 'vector':
            return s.setv(fr, ins, tuple(f(s.int_(st, x), s.int_(st, y)) for x, y in zip(a, b)))
        if isinstance(a, (int, Poly)) and isinstance(b, (int, Poly)) and not isinstance(a, bool) and not isinstance(b, bool):
            r = f(a, b)
            if isinstance(r, int): r = s.wrap(r, ins.ty.width)
            return s.setv(fr, ins, r)
        s.setv(fr, ins, s.ptr_arith(st, ins, a, b, f))
    def wrap(s, r, w):
        if -(1 << (w - 1)) <= r < (1 << (w - 1)): return r
        r %= 1 << w
        return r - (1 << w) if r >= 1 << (w - 1) else r
    def ptr_arith(s, st, ins, a, b, f):
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if ins.op == 'sub' and isinstance(a, Ptr) and isinstance(b, Ptr):
                if a.rid == b.rid and a.idx == b.idx: return E.sub(a.off, b.off)
                raise VerifError(f'pointer difference across objects {a} {b}')
            if ins.op == 'add':
                if isinstance(a, Ptr): return a.plus(s.int_(st, b))
                return b.plus(s.int_(st, a))
            if ins.op == 'sub' and isinstance(a, Ptr): return a.plus(E.neg(s.int_(st, b)))
            if ins.op == 'and' and isinstance(a, Ptr): return a if not isinstance(a.off, Poly) else a
            raise VerifError('pointer arithmetic ' + ins.op)
        a, b = s.int_(st, a), s.int_(st, b)
        r = f(a, b)
        return s.wrap(r, ins.ty.width) if isinstance(r, int) else r
    def i_add(s, st, fr, ins): s.ibin(st, fr, ins, E.add)
    def i_sub(s, st, fr, ins): s.ibin(st, fr, ins, E.sub)
    def i_mul(s, st, fr, ins): s.ibin(st, fr, ins, E.mul)
    def i_shl(s, st, fr, ins):
        def f(a, b):
            if isinstance(b, Poly): raise VerifError('symbolic shift')
            r = E.scale(a, 1 << b)
            if isinstance(r, Poly) and not ins.nsw and not ins.nuw: r = s.fit(st, r, ins.ty.width)
            return r
        s.ibin(st, fr, ins, f)
    def fit(s, st, r, w):
        """keep r if it provably fits in w bits (unsigned or signed), else reduce modulo 2^w (unsigned view)"""
        if w >= 64: return r
        if s.implied(st, E.lt(r, 1 << w)) and s.implied(st, E.le(-(1 << (w - 1)), r)): return r
        if w == 32: return r     # listed assumption: 32/64-bit quantities do not wrap
        return s.mod2(r, w)
    def mod2(s, r, k):
        return E.sub(r, E.scale(E.floordiv(r, 1 << k), 1 << k))
    def i_lshr(s, st, fr, ins):
        def f(a, b):
            if isinstance(b, Poly): raise VerifError('symbolic shift')
            if isinstance(a, int): return (a % (1 << ins.ty.width)) >> b
            if not s.decide(st, E.le(0, a)): a = E.add(a, 1 << ins.ty.width)
            return E.floordiv(a, 1 << b)
        s.ibin(st, fr, ins, f)
    def i_ashr(s, st, fr, ins):
        def f(a, b):
            if isinstance(b, Poly): raise VerifError('symbolic shift')
            return E.floordiv(a, 1 << b)
        s.ibin(st, fr, ins, f)
    def i_udiv(s, st, fr, ins):
        def f(a, b):
            if isinstance(b, Poly): return s.gdiv(st, a, b)
            if isinstance(a, int): return (a % (1 << ins.ty.width)) // (b % (1 << ins.ty.width))
            return E.floordiv(a, b)
        s.ibin(st, fr, ins, f)
    def gdiv(s, st, a, b):
        q = E.atomp(E.atom('uf', 'I', ('gdiv', a, b)))
        prod = E.mul(q, b)
        st.assume(Or(Not(E.lt(0, b)), And(E.le(prod, a), E.lt(a, E.add(prod, b)))))
        return q
    def i_sdiv(s, st, fr, ins):
        def f(a, b):
            if isinstance(b, Poly): return s.gdiv(st, a, b)
            if isinstance(a, int):
                q = abs(a) // abs(b); return q if (a < 0) == (b < 0) else -q
            if b > 0 and (all(c % b == 0 for c in a.t.values()) or s.decide(st, E.le(0, a))): return E.floordiv(a, b)
            if b > 0: return E.neg(E.floordiv(E.neg(a), b))
            raise VerifError('sdiv by negative')
        s.ibin(st, fr, ins, f)
    def i_urem(s, st, fr, ins):
        def f(a, b):
            if isinstance(b, Poly): return E.sub(a, E.mul(b, s.gdiv(st, a, b)))
            if isinstance(a, int): return (a % (1 << ins.ty.width)) % b
            return E.sub(a, E.scale(E.floordiv(a, b), b))
        s.ibin(st, fr, ins, f)
    def i_srem(s, st, fr, ins):
        def f(a, b):
            if isinstance(b, Poly): return E.sub(a, E.mul(b, s.gdiv(st, a, b)))
            if isinstance(a, int):
                q = abs(a) // abs(b); q = q if (a < 0) == (b < 0) else -q
                return a - q * b
            if s.decide(st, E.le(0, a)): return E.sub(a, E.scale(E.floordiv(a, b), b))
            return E.neg(E.sub(E.neg(a), E.scale(E.floordiv(E.neg(a), b), b)))
        s.ibin(st, fr, ins, f)
    def boolop(s, st, fr, ins):
        a, b = s.val(st, fr, ins.ops[0]), s.val(st, fr, ins.ops[1])
        a, b = s.form(a), s.form(b)
        if ins.op == 'and': r = And(a, b)
        elif ins.op == 'or': r = Or(a, b)
        else:
            if isinstance(a, bool): r = Not(b) if a else b
            elif isinstance(b, bool): r = Not(a) if b else a
            else: r = Or(And(a, Not(b)), And(Not(a), b))
        s.setv(fr, ins, r)
    def form(s, v):
        if isinstance(v, bool): return v
        if isinstance(v, int): return bool(v)
        if isinstance(v, Poly): return E.ne(v, 0)
        if v is UNDEF: raise VerifError('undefined boolean')
        if v[0] == 'b2i': return v[1]
        return v
    def i_and(s, st, fr, ins):
        if ins.ty.kind == 'int' and ins.ty.width == 1: return s.boolop(st, fr, ins)
        def lowbits(a, k):
            if isinstance(a, Poly):
                if k > 8 and s.implied(st, E.le(0, a)) and s.implied(st, E.lt(a, 1 << k)): return a
                # whole multiples of 2^k drop out
                if E.isint(a) and all(c % (1 << k) == 0 for m, c in a.t.items() if m): return int(E.lin_const(a)) % (1 << k)
            return s.mod2(a, k)
        def f(a, b):
            if isinstance(a, int) and isinstance(b, int): return a & b
            if isinstance(a, int): a, b = b, a
            if isinstance(b, Poly): raise VerifError('symbolic and')
            if b == 0: return 0
            m = b % (1 << ins.ty.width)
            if m & (m + 1) == 0:
                k = m.bit_length()
                return lowbits(a, k)
            # contiguous mask  11..100..0
            lo = (m & -m).bit_length() - 1
            if (m >> lo) & ((m >> lo) + 1) == 0:
                hi = m.bit_length()
                if hi == ins.ty.width: return E.sub(a, lowbits(a, lo))
                x = lowbits(a, hi); return E.sub(x, lowbits(x, lo))
            raise VerifError(f'and mask {b}')
        a, b = s.val(st, fr, ins.ops[0]), s.val(st, fr, ins.ops[1])
        for x, y in ((a, b), (b, a)):
            if isinstance(x, tuple) and x and x[0] == 'b2i' and y == 1: return s.setv(fr, ins, x)
        s.ibin(st, fr, ins, f)
    def i_or(s, st, fr, ins):
        if ins.ty.kind == 'int' and ins.ty.width == 1: return s.boolop(st, fr, ins)
        def f(a, b):
            if isinstance(a, int) and isinstance(b, int): return a | b
            if a == 0: return b
            if b == 0: return a
            for x, y in ((a, b), (b, a)):
                # x multiple of 2^k and 0 <= y < 2^k
                from math import gcd
                g = 0
                for c in E.terms(x).values(): g = gcd(g, int(c))
                k = (g & -g) if g else 1
                while k > 1:
                    if s.implied(st, E.lt(y, k)) and s.implied(st, E.le(0, y)): return E.add(x, y)
                    k //= 2
            raise VerifError('symbolic or')
        s.ibin(st, fr, ins, f)
    def i_xor(s, st, fr, ins):
        if ins.ty.kind == 'int' and ins.ty.width == 1: return s.boolop(st, fr, ins)
        def f(a, b):
            if isinstance(a, int) and isinstance(b, int): return a ^ b
            if isinstance(a, int): a, b = b, a
            if b == -1: return E.sub(-1, a)
            if b == 1:
                return E.sub(1, a)       # only for 0/1 values
            raise VerifError('symbolic xor')
        s.ibin(st, fr, ins, f)
    def i_icmp(s, st, fr, ins):
        a, b = s.val(st, fr, ins.ops[0]), s.val(st, fr, ins.ops[1]); p, ty = ins.x
        s.setv(fr, ins, s.icmp(st, p, ty, a, b))
    def icmp(s, st, p, ty, a, b):
        if ty.kind == 'ptr' or isinstance(a, (Ptr, FnPtr)) or isinstance(b, (Ptr, FnPtr)):
            if isinstance(a, int) and a == 0: a = NULLP
            if isinstance(b, int) and b == 0: b = NULLP
            if a is UNDEF or b is UNDEF: raise VerifError('compare undef pointer')
            if isinstance(a, FnPtr) or isinstance(b, FnPtr):
                return (a == b) == (p == 'eq')
            if a.rid != b.rid:
                if p in ('eq', 'ne'): return p == 'ne'
                raise VerifError('ordered comparison of unrelated pointers')
            if p in ('eq', 'ne'):
                f = And(E.eq(a.off, b.off), *[E.eq(x, y) for x, y in zip(a.idx, b.idx)])
                return f if p == 'eq' else Not(f)
            a, b = a.off, b.off
            p = 's' + p[1:]
        if ty.kind == 'int' and ty.width == 1:
            a, b = s.form(a), s.form(b)
            if isinstance(a, bool): a, b = b, a
            if isinstance(b, bool):
                r = a if b else Not(a)
            else: r = Or(And(a, b), And(Not(a), Not(b)))
            return r if p == 'eq' else Not(r)
        for x, y in ((a, b), (b, a)):
            if isinstance(x, tuple) and x and x[0] == 'b2i' and isinstance(y, int) and p in ('eq', 'ne'):
                if y == 0: return Not(x[1]) if p == 'eq' else x[1]
                if y == 1: return x[1] if p == 'eq' else Not(x[1])
        a, b = s.int_(st, a), s.int_(st, b)
        if p[0] == 'u':
            # exact for values in the signed range
            W = 1 << ty.width
            def nn(x):
                if isinstance(x, int): return x >= 0
                return s.decide(st, E.le(0, x))
            na, nb = nn(a), nn(b)
            if not na: a = E.add(a, W)
            if not nb: b = E.add(b, W)
        q = p if p in ('eq', 'ne') else p[1:]
        return {'eq': lambda: E.eq(a, b), 'ne': lambda: E.ne(a, b), 'lt': lambda: E.lt(a, b), 'le': lambda: E.le(a, b),
                'gt': lambda: E.lt(b, a), 'ge': lambda: E.le(b, a)}[q]()
    def i_trunc(s, st, fr, ins):
        v = s.val(st, fr, ins.ops[0])
        if ins.ty.width == 1:
            if isinstance(v, tuple) and v and v[0] == 'b2i': return s.setv(fr, ins, v[1])
            if isinstance(v, int): return s.setv(fr, ins, bool(v & 1))
            if isinstance(v, Poly): return s.setv(fr, ins, E.ne(v, 0))     # bool objects hold 0 or 1
        if isinstance(v, int): v = s.wrap(v, ins.ty.width)
        elif isinstance(v, Poly) and ins.ty.width <= 16: v = s.fit8(st, v, ins.ty.width)
        elif isinstance(v, tuple) and v and v[0] == 'raw':
            return s.setv(fr, ins, v[1][0][1])
        s.setv(fr, ins, v)
    def fit8(s, st, v, w):
        """signed view of the low w bits"""
        if s.implied(st, E.lt(v, 1 << (w - 1))) and s.implied(st, E.le(-(1 << (w - 1)), v)): return v
        m = s.mod2(v, w)
        if s.decide(st, E.lt(m, 1 << (w - 1))): return m
        return E.sub(m, 1 << w)
    def i_zext(s, st, fr, ins):
        v = s.val(st, fr, ins.ops[0]); w = ins.x.width
        if w == 1:
            if isinstance(v, bool): v = int(v)
            elif isinstance(v, tuple): v = ('b2i', v)
            return s.setv(fr, ins, v)
        if isinstance(v, int): v = v % (1 << w)
        elif isinstance(v, Poly):
            if not s.decide(st, E.le(0, v)): v = E.add(v, 1 << w)
        s.setv(fr, ins, v)
    def i_sext(s, st, fr, ins):
        v = s.val(st, fr, ins.ops[0])
        if ins.x.width == 1: v = -int(s.truth(st, v))
        s.setv(fr, ins, v)
    def i_sitofp(s, st, fr, ins):
        v = s.val(st, fr, ins.ops[0])
        if ins.ty.kind == 'vector': return s.setv(fr, ins, tuple(s.int_(st, x) for x in v))
        s.setv(fr, ins, s.int_(st, v))
    def i_uitofp(s, st, fr, ins):
        v = s.val(st, fr, ins.ops[0])
        if ins.ty.kind == 'vector': return s.setv(fr, ins, tuple(s.int_(st, x) for x in v))
        v = s.int_(st, v)
        if isinstance(v, Poly) and ins.x.width > 1 and not s.decide(st, E.le(0, v)): v = E.add(v, 1 << ins.x.width)
        s.setv(fr, ins, v)
    def i_fptosi(s, st, fr, ins):
        v = s.real_(s.val(st, fr, ins.ops[0]))
        if not isinstance(v, Poly):
            import math
            return s.setv(fr, ins, math.trunc(v))
        if E.isint(v): return s.setv(fr, ins, v)
        q = E.atomp(E.atom('uf', 'I', ('trunc', v)))
        if s.decide(st, E.le(0, v)): st.assume(And(E.le(q, v), E.lt(v, E.add(q, 1))))
        else: st.assume(And(E.le(v, q), E.lt(E.sub(q, 1), v)))
        s.setv(fr, ins, q)
    i_fptoui = i_fptosi
    def i_fptrunc(s, st, fr, ins):
        v = s.val(st, fr, ins.ops[0])
        if isinstance(v, Poly): v = E.uf('f32', 'R', v)
        s.setv(fr, ins, v)
    def i_fpext(s, st, fr, ins): s.setv(fr, ins, s.val(st, fr, ins.ops[0]))
    def i_ptrtoint(s, st, fr, ins): s.setv(fr, ins, s.val(st, fr, ins.ops[0]))
    def i_inttoptr(s, st, fr, ins):
        v = s.val(st, fr, ins.ops[0])
        s.setv(fr, ins, NULLP if isinstance(v, int) and v == 0 else v)
    def i_bitcast(s, st, fr, ins):
        v = s.val(st, fr, ins.ops[0])
        if ins.ty.kind == 'int' and ins.x.kind == 'double': v = ('bits', v)
        elif ins.ty.kind == 'double' and isinstance(v, tuple) and v and v[0] == 'bits': v = v[1]
        elif ins.ty.kind != ins.x.kind and ins.ty.kind != 'ptr': raise VerifError('bitcast')
        s.setv(fr, ins, v)
    def i_select(s, st, fr, ins):
        c = s.val(st, fr, ins.ops[0])
        if isinstance(c, tuple) and c and isinstance(c[0], (bool, tuple)) and ins.ty.kind == 'vector':
            a, b = s.val(st, fr, ins.ops[1]), s.val(st, fr, ins.ops[2])
            return s.setv(fr, ins, tuple(x if s.truth(st, cc) else y for cc, x, y in zip(c, a, b)))
        a, b = s.val(st, fr, ins.ops[1]), s.val(st, fr, ins.ops[2])
        if ins.ty.kind == 'int' and ins.ty.width == 1:
            c = s.form(c)
            if c is True: return s.setv(fr, ins, a)
            if c is False: return s.setv(fr, ins, b)
            if a is UNDEF: a = False
            if b is UNDEF: b = False
            a, b = s.form(a), s.form(b)
            return s.setv(fr, ins, Or(And(c, a), And(Not(c), b)))
        if type(a) == type(b) and a == b: return s.setv(fr, ins, a)
        s.setv(fr, ins, a if s.truth(st, c) else b)
    def i_extractvalue(s, st, fr, ins):
        v = s.val(st, fr, ins.ops[0])
        for k in ins.x:
            v = UNDEF if v is UNDEF else v[k]
        s.setv(fr, ins, v)
    def i_insertvalue(s, st, fr, ins):
        v = s.val(st, fr, ins.ops[0]); x = s.val(st, fr, ins.ops[1])
        def ins_(agg, path, n=None):
            if not path: return x
            l = list(agg) if not isinstance(agg, UndefV) else [UNDEF] * 16
            l[path[0]] = ins_(l[path[0]], path[1:]); return tuple(l)
        s.setv(fr, ins, ins_(v, ins.x))
    def i_extractelement(s, st, fr, ins):
        v, k = s.val(st, fr, ins.ops[0]), s.val(st, fr, ins.ops[1])
        s.setv(fr, ins, UNDEF if v is UNDEF else v[k])
    def i_insertelement(s, st, fr, ins):
        v, x, k = [s.val(st, fr, o) for o in ins.ops]
        l = list(v) if v is not UNDEF else [UNDEF] * ins.ty.n
        l[k] = x; s.setv(fr, ins, tuple(l))
    def i_shufflevector(s, st, fr, ins):
        a, b = s.val(st, fr, ins.ops[0]), s.val(st, fr, ins.ops[1])
        n = len(a) if a is not UNDEF else len(b)
        a = a if a is not UNDEF else (UNDEF,) * n; b = b if b is not UNDEF else (UNDEF,) * n
        l = a + b
        s.setv(fr, ins, tuple(l[k] if k >= 0 else UNDEF for k in ins.x))
    def i_fence(s, st, fr, ins): fr.ip += 1
    def i_atomicrmw(s, st, fr, ins):
        p = s.val(st, fr, ins.ops[0]); v = s.val(st, fr, ins.ops[1])
        old = s.read(st, p, ins.ty)
        if ins.x == 1: new = E.add(old, v)
        elif ins.x == 2: new = E.sub(old, v)
        elif ins.x == 0: new = v
        elif ins.x == 11: new = E.add(old, v)
        else: raise VerifError('atomicrmw')
        s.write(st, p, new, ins.ty.store); s.setv(fr, ins, old)
    def i_landingpad(s, st, fr, ins): raise PathEnd()
    # ------------------------------------------------------------ calls
    def dem(s, name):
        d = s.demcache.get(name)
        if d is None:
            d = subprocess.run(['c++filt', name], capture_output=True, text=True).stdout.strip(); s.demcache[name] = d
        return d
    def i_invoke(s, st, fr, ins): return s.i_call(st, fr, ins)
    def i_call(s, st, fr, ins):
        cal = ins.x['callee']
        if isinstance(cal, tuple) and cal and cal[0] == 'asm':
            fr.ip += 1; return
        f = s.val(st, fr, cal)
        if not isinstance(f, FnPtr): raise VerifError(f'call through {f!r}')
        name = s.m.aliases.get(f.name, f.name)
        if name.startswith('llvm.'): return s.llvm_intr(st, fr, ins, name)
        args = [s.val(st, fr, o) for o in ins.ops]
        import models
        h = models.lookup(s, name)
        if h is not None:
            v = h(s, st, fr, ins, args)
            return s.finish_call(st, fr, ins, v)
        c = s.contract_for(name)
        if c is not None and fr.fn.name != c:
            s.contract_used[name] = s.contract_used.get(name, 0) + 1
            cf = s.m.fn(c)
            s.call_fn(st, cf, args, ret=ins.id); return
        fn = s.m.fn(name)
        if fn is None: raise VerifError('unmodelled external function ' + s.dem(name))
        if len(st.frames) > 200: raise VerifError('recursion too deep')
        s.called[name] = s.called.get(name, 0) + 1
        s.call_fn(st, fn, args, ret=ins.id)
    def finish_call(s, st, fr, ins, v):
        if v is CALLED: return
        fr.env[ins.id] = v
        if ins.op == 'invoke': return ins.x['succ'][0]
        fr.ip += 1
    def contract_for(s, name):
        if not s.contracts: return None
        c = s.invcache.get(('c', name), 0)
        if c == 0:
            c = None
            d = s.dem(name)
            for rx, target in s.contracts:
                if re.search(rx, d): c = target; break
            s.invcache[('c', name)] = c
        return c
    def llvm_intr(s, st, fr, ins, name):
        a = [s.val(st, fr, o) for o in ins.ops]
        b = name.split('.')[1]
        v = None
        if b in ('lifetime', 'dbg', 'invariant', 'experimental', 'donothing', 'stacksave', 'stackrestore', 'prefetch', 'va_start', 'va_end', 'sideeffect'): v = UNDEF
        elif b == 'assume':
            if not (a and (a[0] is True or a[0] is UNDEF)):
                pass
        elif b == 'expect': v = a[0]
        elif b == 'sqrt': v = tuple(E.sqrt(s.real_(x)) for x in a[0]) if ins.ty.kind == 'vector' else E.sqrt(s.real_(a[0]))
        elif b == 'fabs':
            x = a[0]
            if isinstance(x, tuple): v = INF if x[0] == 'inf' else x
            else:
                x = s.real_(x)
                v = x if s.decide(st, E.le(0, x)) else E.neg(x)
        elif b in ('fmuladd', 'fma'): v = s.absr(E.add(E.mul(a[0], a[1]), a[2]))
        elif b in ('minnum', 'minimum'): v = a[0] if s.decide(st, E.le(a[0], a[1])) else a[1]
        elif b in ('maxnum', 'maximum'): v = a[0] if s.decide(st, E.le(a[1], a[0])) else a[1]
        elif b in ('smax', 'umax'): v = a[0] if s.decide(st, E.le(s.int_(st, a[1]), s.int_(st, a[0]))) else a[1]
        elif b in ('smin', 'umin'): v = a[0] if s.decide(st, E.le(s.int_(st, a[0]), s.int_(st, a[1]))) else a[1]
        elif b == 'abs': v = a[0] if s.decide(st, E.le(0, a[0])) else E.neg(a[0])
        elif b == 'sin': v = E.sin(a[0])
        elif b == 'cos': v = E.cos(a[0])
        elif b in ('log', 'exp', 'log10', 'log2', 'exp2'): v = E.uf(b, 'R', s.real_(a[0]))
        elif b in ('memcpy', 'memmove'): s.copy(st, a[0], a[1], s.int_(st, a[2]))
        elif b == 'memset': s.fill(st, a[0], a[1], s.int_(st, a[2]))
        elif b == 'trap': raise PathEnd()
        elif b == 'objectsize': v = -1
        elif b == 'umul' or b == 'smul': v = (E.mul(a[0], a[1]), False)
        elif b in ('uadd', 'sadd'): v = (E.add(a[0], a[1]), False) if 'with' in name else E.add(a[0], a[1])
        elif b in ('usub',):
            if 'sat' in name: v = E.sub(a[0], a[1]) if s.decide(st, E.le(a[1], a[0])) else 0
            else: v = (E.sub(a[0], a[1]), E.lt(a[0], a[1]))
        elif b in ('pow', 'powi'):
            import models
            v = models.pow_(s, st, a[0], a[1])
        elif b in ('floor', 'ceil', 'round', 'rint', 'trunc', 'nearbyint'):
            import models
            v = models.rounding(s, st, b, a[0])
        elif b == 'vector' and 'reduce.fadd' in name:
            v = a[0]
            for x in a[1]: v = E.add(v, x)
        elif b == 'is' : v = False     # is.fpclass
        elif b == 'copysign':
            x = a[0]; ax = x if s.decide(st, E.le(0, x)) else E.neg(x)
            v = ax if s.decide(st, E.le(0, a[1])) else E.neg(ax)
        elif b == 'threadlocal': v = a[0]
        else: raise VerifError('intrinsic ' + name)
        return s.finish_call(st, fr, ins, v)
def self_zero(s, st, r, ty):
    if r.base == 'zero': return s.coerce(st, 0, ty, ty.store)
    raise VerifError('mixed read of symbolic memory')
CALLED = object()
def run_ctors(ex, st):
    """dynamic initialisation of globals in the unit (library ios initialisers are ignored)"""
    g = ex.m.globals.get('llvm.global_ctors')
    if not g or not g['init']: return st
    c = ex.m.init_of('llvm.global_ctors')
    if not isinstance(c, Agg): return st
    l = sorted(((e.vals[0], e.vals[1]) for e in c.vals), key=lambda x: x[0])
    for _, f in l:
        fn = ex.m.fn(f.name)
        if fn is None: continue
        ex.call_fn(st, fn, [])
        res = ex.explore(st)
        if len(res) != 1 or res[0][0] != 'ret': raise VerifError('global initialiser forks')
        st = res[0][1]
    return st
