"""Loops.  A loop whose decisions are concrete is executed step by step.  Otherwise the loop is
replaced by an inductive closed form: every loop-carried value is given as a function of the
iteration number n (guessed from one symbolic iteration, then *checked*: it must hold for n = 0 and
one arbitrary iteration must take it from n to n+1), and the state after the loop is the state of
the iteration that left it, together with 'for all k < n iteration k did not leave the loop'.
Partial correctness: termination is not proved."""
import z3
from engine import *
import engine as E

import os
DEBUG = os.environ.get('PODVER_LOOPS')

class Loop:
    def __init__(s, head, body):
        s.head, s.body = head, body

def succs(ins):
    if ins.op == 'br':
        return [ins.a[0]] if len(ins.a) == 1 else [ins.a[1], ins.a[2]]
    if ins.op == 'switch':
        return [ins.a[1]] + [b for _, b in ins.a[2]]
    if ins.op == 'invoke':
        return [ins.a[2], ins.a[3]]
    return []

def analyze(f):
    if hasattr(f, '_loops'):
        return f._loops
    sc = {b: succs(i[-1]) if i else [] for b, i in f.blocks.items()}
    order = []; seen = set()
    stack = [(f.entry, iter(sc[f.entry]))]; seen.add(f.entry)
    while stack:
        b, it = stack[-1]
        for x in it:
            if x not in seen and x in sc:
                seen.add(x); stack.append((x, iter(sc[x]))); break
        else:
            order.append(b); stack.pop()
    order.reverse()
    preds = {b: [] for b in order}
    for b in order:
        for x in sc[b]:
            preds[x].append(b)
    dom = {b: set(order) for b in order}
    dom[f.entry] = {f.entry}
    ch = True
    while ch:
        ch = False
        for b in order[1:]:
            nd = set.intersection(*[dom[p] for p in preds[b]]) | {b}
            if nd != dom[b]:
                dom[b] = nd; ch = True
    loops = {}
    for b in order:
        for h in sc[b]:
            if h in dom[b]:
                body = loops.setdefault(h, {h})
                w = [b]
                while w:
                    x = w.pop()
                    if x not in body:
                        body.add(x); w.extend(preds[x])
    f._loops = {h: Loop(h, body) for h, body in loops.items()}
    return f._loops

def loop_at(eng, fr):
    if not hasattr(fr.f, '_loops'):
        analyze(fr.f)
    return fr.f._loops.get(fr.blk)

class Dead:
    def __init__(s, why):
        s.why = why
    def __repr__(s):
        return f'<dead {s.why}>'

def consts_in(e, acc=None, seen=None):
    acc = set() if acc is None else acc
    seen = set() if seen is None else seen
    if e.get_id() in seen:
        return acc
    seen.add(e.get_id())
    if z3.is_quantifier(e):
        consts_in(e.body(), acc, seen)
    elif z3.is_app(e):
        if e.num_args() == 0 and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            acc.add(e)
        for c in e.children():
            consts_in(c, acc, seen)
    return acc

def ival(v):
    """pointer as a tuple of index terms, or None"""
    return [x.t for x in v.steps if isinstance(x, Sel)]

def shape(v):
    if isinstance(v, Ptr):
        return ('p', v.root.id) + tuple((x.k, x.size) if isinstance(x, Sel) else x for x in v.steps)
    return None

def rebuild(v, ts):
    it = iter(ts)
    return Ptr(v.root, tuple(Sel(x.k, next(it), x.size) if isinstance(x, Sel) else x for x in v.steps))

def same(a, b):
    if a is b:
        return True
    if z3.is_expr(a) and z3.is_expr(b):
        return a.sort() == b.sort() and z3.eq(a, b)
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        return shape(a) == shape(b) and all(z3.eq(x, y) for x, y in zip(ival(a), ival(b)))
    if isinstance(a, FuncPtr) and isinstance(b, FuncPtr):
        return a.name == b.name
    if isinstance(a, list) and isinstance(b, list) and len(a) == len(b):
        return all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, Scaled) and isinstance(b, Scaled):
        return a.sc == b.sc and z3.eq(a.t, b.t)
    if isinstance(a, PtrInt) and isinstance(b, PtrInt):
        return same(a.p, b.p)
    return False

class Form:
    """closed form of one loop-carried location; at(n) -> value; facts(n) -> facts about fresh symbols"""
    def at(s, n): raise NotImplementedError
    def facts(s): return []

class Linear(Form):
    def __init__(s, v0, d):
        s.v0, s.d = v0, d
    def at(s, n):
        nn = n if s.v0.size() == 64 else z3.Extract(s.v0.size() - 1, 0, n)
        return simp(s.v0 + (nn if is_one(s.d) else nn * s.d))
def is_one(d):
    return z3.is_bv_value(d) and d.as_long() == 1

class LinPtr(Form):
    def __init__(s, v0, ds):
        s.v0, s.ds = v0, ds
    def at(s, n):
        ts = []
        for t, d in zip(ival(s.v0), s.ds):
            ts.append(t if d is None else advance(t, n, d))
        return rebuild(s.v0, ts)

def advance(t, n, d):
    """t moved on by n steps of d (d: constant bv, or ('key', ...) for map positions)"""
    if isinstance(d, tuple):
        f, args = d[1], d[2]
        return f(*args[:-1], simp(args[-1] + n))
    return simp(t + (n if is_one(d) else n * d))

class Last(Form):
    def __init__(s, v0, e, n):
        s.v0, s.e, s.n = v0, e, n
    def at(s, m):
        m = simp(m)
        prev = z3.substitute(s.e, (s.n, simp(m - 1)))
        return simp(z3.If(m == 0, s.v0, prev))

class Cand(Form):
    """closed form proposed by a contract: fn(n) -> value; fn.step(n) -> facts that hold at iteration n"""
    def __init__(s, fn):
        s.fn = fn
    def at(s, n):
        return self_simp(s.fn(n))
def self_simp(x):
    return simp(x) if z3.is_expr(x) else x

class Havoc(Form):
    """location about which only the invariants of the contract are known"""
    def __init__(s, v0):
        s.v0 = v0
        s.fam = z3.Function(f'hv_{next(E._uid)}', z3.BitVecSort(64), v0.sort())
    def at(s, n):
        return s.fam(simp(n))
    def facts_at(s, n):
        return [z3.Implies(n == 0, s.fam(n) == s.v0)]

class Point(Form):
    """array of which only the entries at some fixed places change: [(index, form of the entry)]"""
    def __init__(s, v0, subs):
        s.v0, s.subs = v0, subs
    def at(s, n):
        r = s.v0
        for a, f in s.subs:
            r = z3.Store(r, a, f.at(n))
        return simp(r)
    def facts_at(s, n):
        return [q for a, f in s.subs if hasattr(f, 'facts_at') for q in f.facts_at(n)]
def cands(fm):
    return [fm] if isinstance(fm, Cand) else [x for a, f in fm.subs for x in cands(f)] if isinstance(fm, Point) else []
def havocs(fm):
    return isinstance(fm, Havoc) or isinstance(fm, Point) and any(havocs(f) for a, f in fm.subs)
def entry(x, a):
    """x[a] for a chain of stores at places that are equal to a (same term) or different"""
    while z3.is_store(x):
        b, i, v = x.children()
        if z3.eq(i, a):
            return flat(v)
        x = b
    return simp(z3.Select(x, a))
def resolve(eng, st, e, n):
    """skip stores at places that are known to be different from the one read"""
    done = {}; memo = {}
    old = lambda e: not any(z3.eq(c, n) for c in consts_in(e))
    def apart(a, b):
        k = (a.get_id(), b.get_id())
        if k not in memo:
            memo[k] = eng.distinct(st, a, b) if a.sort() == b.sort() and old(a) and old(b) else eng.known_distinct(st, a, b)
        return memo[k]
    def r(e):
        if not z3.is_app(e) or e.num_args() == 0:
            return e
        k = e.get_id()
        if k not in done:
            cs = [r(x) for x in e.children()]
            if z3.is_select(e):
                a, i = cs
                while z3.is_store(a) and not z3.eq(a.arg(1), i) and apart(a.arg(1), i):
                    a = a.arg(0)
                done[k] = (e, a.arg(2) if z3.is_store(a) and z3.eq(a.arg(1), i) else z3.Select(a, i))
            else:
                done[k] = (e, e if all(z3.eq(x, y) for x, y in zip(cs, e.children())) else e.decl()(*cs))
        return done[k][1]
    return simp(r(e))
def resolved(eng, st, q, n=None):
    """(statement resolved, the names of what it is for all of)"""
    n = bvv(0) if n is None else n
    vs = []
    if z3.is_quantifier(q) and q.is_forall():
        vs = [z3.Const(f'{q.var_name(i)}!{next(E._uid)}', q.var_sort(i)) for i in range(q.num_vars())]
        q = z3.substitute_vars(q.body(), *vs[::-1])
    return resolve(eng, st, q, n), vs
def flat(x):
    """resolve reads of stores at the bottom of a chain of stores"""
    if z3.is_store(x):
        b, i, v = x.children()
        return z3.Store(flat(b), i, v)
    if z3.is_select(x) and z3.is_store(x.arg(0)):
        return entry(x.arg(0), x.arg(1))
    return x
def points(eng, v, fm, v0, vn, vals, conds, n, skol, G, bes, steps, hasinv):
    """Point form (the old one if it is inductive) or None"""
    if not (z3.is_expr(v0) and z3.is_array(v0) and all(z3.is_expr(x) and z3.is_array(x) for x in vals + [vn])):
        return None
    old = fm if isinstance(fm, Point) else None
    known = [a for a, f in old.subs] if old else []
    bottom = lambda x: bottom(x.arg(0)) if z3.is_store(x) else x
    base = bottom(v0)
    ix = list(known); every = list(known)
    for x in vals + [v0]:
        while z3.is_store(x):
            i = x.arg(1)
            if any(z3.eq(c, n) for c in consts_in(i)) or not z3.eq(skol(i), i):
                return None
            if not any(z3.eq(i, a) for a in every):
                every.append(i)
            x = x.arg(0)
        if not z3.eq(x, base):
            return None
    for q, a in enumerate(every):
        for b in every[:q]:
            if not eng.distinct(G, a, b):
                return None
    vals = [resolve(eng, G, x, n) for x in vals]
    conds = [resolve(eng, G, x, n) for x in conds]
    ix += [a for a in every if not any(z3.eq(a, k) for k in known) and any(not same(entry(x, a), entry(vn, a)) for x in vals)]
    if not ix:
        return None
    subs = []; same_ = bool(old) and len(ix) == len(known)
    for q, a in enumerate(ix):
        f0 = old.subs[q][1] if old and q < len(known) else None
        e0, en, es = entry(v0, a), entry(vn, a), [entry(x, a) for x in vals]
        if f0 is not None and isinstance(f0, Havoc):
            f = f0
        else:
            f = guess(eng, ('entry', v, q), f0, e0, en, es, conds, n, skol, G, bes, steps)
        if isinstance(f, DeadF) and hasinv:
            f = Havoc(e0)
        if f is None or isinstance(f, DeadF):
            return None
        same_ = same_ and f is f0
        subs.append((a, f))
    return old if same_ else Point(v0, subs)

def invariants(eng, st, fr, n, lp):
    """[(label, formula)] that the contract states for this loop at iteration n"""
    out = []
    for f in eng.loop_invariants:
        r = f(eng, st, fr, n)
        if r:
            out += r
    return out

class DeadF(Form):
    def __init__(s, why):
        s.why = why
    def at(s, n):
        return Dead(s.why)

CHOICE = {}
class ArrF(Form):
    """array cell: writes (cond, idx list, val), all as functions of iteration n"""
    def __init__(s, a0, writes, n, name):
        s.a0, s.writes, s.n = a0, writes, n
        s.fam = z3.Function(f'loop_{name}_{next(E._uid)}', z3.BitVecSort(64), a0.sort())
        s.c = None
        s.opaque = False        # only where is written is known, not what
    def at(s, m):
        m = simp(m)
        return s.fam(m)
    def facts_at(s, m):
        """what AF(m) is"""
        out = []
        AF = s.fam(m)
        k = z3.BitVec(f'k!{next(E._uid)}', 64)
        sub = lambda e: z3.substitute(e, (s.n, k))
        frame_not = []
        ixs = None
        for cond, idx, val in s.writes if not s.opaque else ():
            sel = AF; sel0 = s.a0
            # a unit-stride index is used as the bound variable itself (so that it can be matched)
            pos = [i for i in idx if z3.is_bv(i) and i.size() == 64 and any(z3.eq(c, s.n) for c in consts_in(i)) and is_one(simp(z3.substitute(i, (s.n, s.n + 1)) - i))]
            kv = simp(k - z3.substitute(pos[0], (s.n, bvv(0)))) if pos else k
            sub = lambda e: simp(z3.substitute(e, (s.n, kv)))
            for i in idx:
                j = k if pos and i is pos[0] else sub(i)
                sel = z3.Select(sel, j); sel0 = z3.Select(sel0, j)
            rhs = sub(val) if cond is None else z3.If(sub(cond), sub(val), sel0)
            out.append(z3.ForAll([k], z3.Implies(z3.ULT(kv, m), sel == rhs), patterns=pats(sel, k)))
        # frame
        bs = []
        srt = s.a0.sort()
        depth = len(s.writes[0][1])
        for i in range(depth):
            bs.append(z3.Const(f'x!{next(E._uid)}', srt.domain())); srt = srt.range()
        hit = []
        for cond, idx, val in s.writes:
            eqs = []
            var = [(b, i) for b, i in zip(bs, idx) if any(z3.eq(c, s.n) for c in consts_in(i))]
            eqs += [b == i for b, i in zip(bs, idx) if not any(z3.eq(c, s.n) for c in consts_in(i))]
            # an index that moves on by one each time tells the iteration; otherwise some iteration is
            # chosen that wrote there (a choice function: it need not be the only one)
            lin = [(b, i) for b, i in var if z3.is_bv(i) and i.size() == 64 and is_one(simp(z3.substitute(i, (s.n, s.n + 1)) - i))]
            if lin:
                kk = simp(lin[0][0] - z3.substitute(lin[0][1], (s.n, bvv(0))))
            elif var:
                kq = z3.BitVec('k!choice', 64)
                ik = [z3.substitute(i, (s.n, kq)) for b, i in var]
                ck = (tuple(x.sexpr() for x in ik), m.sexpr())
                if ck not in CHOICE:
                    inv = z3.Function(f'inv_{next(E._uid)}', *[i.sort() for b, i in var], z3.BitVecSort(64))
                    ch = inv(*ik)
                    CHOICE[ck] = inv, z3.ForAll([kq], z3.Implies(z3.ULT(kq, m), z3.And(z3.ULT(ch, m), *[z3.substitute(i, (s.n, ch)) == x for (b, i), x in zip(var, ik)])))
                inv, ax = CHOICE[ck]
                out.append(ax)
                kk = inv(*[b for b, i in var])
            if var:
                eqs.append(z3.ULT(kk, m))
                eqs += [b == z3.substitute(i, (s.n, kk)) for b, i in var if not (lin and b is lin[0][0])]
            hit.append(z3.And(*eqs) if eqs else z3.BoolVal(True))
        sel = AF; sel0 = s.a0
        for b in bs:
            sel = z3.Select(sel, b); sel0 = z3.Select(sel0, b)
        out.append(z3.ForAll(bs, z3.Implies(z3.Not(z3.Or(*hit)), sel == sel0), patterns=[] if has_kind(sel, z3.Z3_OP_ITE) else [sel]))
        return out

def pats(sel, k):
    if has_kind(sel, z3.Z3_OP_ITE):
        return []
    return [sel] if any(z3.eq(k, c) for c in consts_in(sel)) and not has_arith_on(sel, k) else []
def has_kind(e, k):
    return z3.is_app(e) and (e.decl().kind() == k or any(has_kind(c, k) for c in e.children()))
def has_arith_on(e, k):
    if z3.is_app(e):
        if e.decl().kind() in (z3.Z3_OP_BADD, z3.Z3_OP_BMUL, z3.Z3_OP_BSUB) and any(z3.eq(k, c) for c in consts_in(e)):
            return True
        return any(has_arith_on(c, k) for c in e.children())
    return False

def peel_stores(v, base):
    """v as a chain of stores on base -> [(cond, idx list, val)] (innermost first) or None"""
    if z3.eq(v, base):
        return []
    if z3.is_store(v):
        a, i, x = v.children()
        r = peel_stores(a, base)
        if r is None:
            return None
        if z3.is_array(x):
            inner = z3.Select(a, i)
            r2 = peel_stores(x, simp(inner))
            if r2 is None:
                r2 = peel_stores(x, inner)
            if r2 is None:
                return r + [(None, [i], x)]
            return r + [(c, [i] + ix, y) for c, ix, y in r2]
        return r + [(None, [i], x)]
    return None

IGN_GHOST = ('fresh', 'loopcnt', 'summarized', 'bounded')

def cells_of(st):
    out = {}
    for key, c in st.mem.cells.items():
        for off, (w, v) in c.items():
            out[(key, off)] = (w, v)
    return out

def split_cells(states):
    """cells that some of these states hold in pieces are held in the same pieces by all of them"""
    fine = {}
    for s in states:
        for key, c in s.mem.cells.items():
            for off, (w, v) in c.items():
                if isinstance(w, int):
                    fine.setdefault((key, off), set()).add(w)
    for (key, off), ws in fine.items():
        if len(ws) < 2:
            continue
        lo = min(ws)
        for s in states:
            c = s.mem.cells.get(key, {})
            if off in c and isinstance(c[off][0], int) and c[off][0] > lo:
                w, v = c[off]
                if not (z3.is_bv(v) and v.size() == w and w % lo == 0):
                    continue
                c = dict(c)
                for i in range(w // lo):
                    c[off + i * lo // 8] = (lo, simp(z3.Extract((i + 1) * lo - 1, i * lo, v)))
                s.mem.cells[key] = c

def initial_of(st, key, off, w):
    return st.mem.initial.get((key[0], key[1], off, str(w)))

def enter(eng, st, lp):
    fr = st.frames[-1]
    depth = len(st.frames)
    saved = fr.noloop
    # one trial iteration
    t = st.fork()
    tf = t.frames[-1]
    tf.noloop = lp; tf.skip = True
    cnt = st.ghost.get('loopcnt', 0)
    if cnt > 400:
        raise Unsupported('loop runs too long to unroll')
    outs = eng.run(t, quiet=True)
    be = [o for o in outs if o.kind == 'backedge' and o.val is lp]
    rest = [o for o in outs if not (o.kind == 'backedge' and o.val is lp)]
    def cont(o):
        o.st.frames[-1].noloop = saved
        return o.st
    if not be:
        return [cont(o) if o.kind == 'exit' and o.val is lp else o for o in rest]
    if len(be) == 1 and not rest:
        o = be[0]
        o.st.ghost['loopcnt'] = cnt + 1
        eng.stats['unrolled'] += 1
        return [cont(o)]
    if eng.unroll and bounded(eng, st, lp, be):
        out = []
        k = st.ghost['bounded'][2] if (st.ghost.get('bounded') or (0,))[:2] == (lp.head, depth) else 0
        for o in outs:
            mine = o.val is lp and o.kind in ('backedge', 'exit')
            if mine:
                o.st.ghost['bounded'] = (lp.head, depth, k + 1) if o.kind == 'backedge' else None
            out.append(cont(o) if mine else o)
        eng.stats['unrolled'] += 1
        return out
    return summarize(eng, st, lp, saved)

UNROLL = 8
def bounded(eng, st, lp, be):
    """does the loop provably end within UNROLL iterations? (second attempts only; executing it is exact then)"""
    g = st.ghost.get('bounded')
    if g and g[:2] == (lp.head, len(st.frames)):
        return g[2] < UNROLL
    front = [o.st for o in be]
    try:
        for k in range(UNROLL - 1):
            nxt = []
            for s in front:
                s = s.fork()
                s.frames[-1].noloop = lp; s.frames[-1].skip = True
                nxt += [o.st for o in eng.run(s, quiet=True) if o.kind == 'backedge' and o.val is lp]
            if len(nxt) > 24:
                return False
            front = nxt
            if not front:
                return True
    except Unsupported:
        return False
    return False

def summarize(eng, st, lp, saved):
    fr0 = st.frames[-1]
    f = fr0.f
    phis = [i.res for i in f.blocks[lp.head] if i.op == 'phi']
    forms = {}        # ('phi', name) or ('cell', key, off) -> Form
    eng.stats['loops'] += 1
    base_cells = cells_of(st)
    nunsafe = len(eng.unsafe)
    sites = {}; nopoint = set()
    hasinv = bool(invariants(eng, st, fr0, bvv(0), lp))
    bound, unbound = None, []
    for rnd in range(14 if hasinv or eng.points else 8):
        n = z3.BitVec(f'n!{next(E._uid)}', 64)
        G = st.fork()
        gf = G.frames[-1]
        gf.noloop = lp; gf.skip = True
        G.assume(z3.ULT(n, bvv(1 << 40)))
        if bound is not None:
            G.assume(z3.ULE(n, bound)); G.assume(z3.ULT(n, bvv(1 << 31)))
            E.SMALL[n.get_id()] = n
        cur = {}
        steps = []
        for v, fm in forms.items():
            x = fm.at(n)
            cur[v] = x
            if v[0] == 'phi':
                gf.loc[v[1]] = x
            else:
                key, off = v[1], v[2]
                w = v[3]
                G.mem._put(key, off, w, x)
            if isinstance(fm, (ArrF, Havoc, Point)):
                for q in fm.facts_at(n):
                    if not any(q is x for x in G.facts):
                        G.facts.append(q)
            for f_ in cands(fm):
                if hasattr(f_.fn, 'step'):
                    q = z3.And(*f_.fn.step(n))
                    if not any(z3.eq(q, x) for x in steps):
                        steps.append(q)
        if any(havocs(fm) for fm in forms.values()):
            for l, q in invariants(eng, G, gf, n, lp):
                q, vs = resolved(eng, G, q, n)
                G.facts.append(z3.ForAll(vs, q) if vs else q)
        uid0 = next(E._uid)
        nroots0 = next(Root._n)
        # symbols created by the iteration
        def newconsts(es):
            out = set()
            for e in es:
                for c in consts_in(e):
                    nm = c.decl().name()
                    if '!' in nm and nm.rsplit('!', 1)[1].isdigit() and int(nm.rsplit('!', 1)[1]) > uid0:
                        out.add(c)
                    elif nm.startswith('addr_') and int(nm.rsplit('_', 1)[1]) > nroots0:
                        out.add(c)
            return out
        def before(conds):
            """by induction the iterations before n did not leave the loop either: what the ways through the body require, but for what an iteration makes"""
            C0 = z3.Or(*[z3.And(*[q for q in conjuncts(c) if not newconsts([q])]) for c in conds])
            return [z3.Implies(z3.ULT(kk, n), z3.substitute(C0, (n, kk))) for kk in [bvv(0), simp(n - 1)] + list(eng.loop_instances)]
        nf = len(G.facts)
        gcells = cells_of(G)
        gloc = dict(gf.loc)
        entry0 = eng.loop_entry
        def explore():
            eng.exploring += 1; eng.loop_entry = st.facts
            try:
                return eng.run(G.fork(), quiet=True)
            finally:
                eng.exploring -= 1; eng.loop_entry = entry0
        odd = lambda o: len(o.st.events) != len(st.events) or o.st.mem.freed - st.mem.freed
        outs = explore()
        bes = [o for o in outs if o.kind == 'backedge' and o.val is lp]
        rest = [o for o in outs if not (o.kind == 'backedge' and o.val is lp)]
        if not bes:
            raise Unsupported('loop iteration never repeats')
        if bound is not None and not all(eng.valid(o.st, z3.ULE(n + 1, bound)) for o in bes):
            unbound.append(bound); bound = None
            continue
        if bound is None and rnd and any(v[0] == 'phi' and isinstance(fm, Linear) and z3.is_bv(fm.v0) and fm.v0.size() == 32 for v, fm in forms.items()):
            bound = next((b for b in bounds(bes, nf, n) if not newconsts([b]) and not any(z3.eq(b, u) for u in unbound) and eng.valid(st, z3.ULT(b, bvv(1 << 31)))
                          and all(eng.valid(o.st, z3.Implies(z3.ULE(n, b), z3.ULE(n + 1, b))) for o in bes)), None)
            if bound is not None:
                continue
        idea = [v for v, fm in forms.items() if isinstance(fm, Point) and any(isinstance(f, Last) for a, f in fm.subs)]
        if idea and any(odd(o) for o in bes):
            nopoint.update(idea)        # what was thought of these leads to something else: start again without
            forms = {v: fm for v, fm in forms.items() if v not in idea}
            continue
        bes = [o for o in bes if not odd(o) or eng.check(o.st.facts, (), 10000) != z3.unsat]
        if any(odd(o) for o in bes):
            # not if what is known of the iterations before is used
            conds = [z3.And(*o.st.facts[nf:], z3.BoolVal(True)) for o in bes]
            G.facts += before(conds)
            nf = len(G.facts)
            outs = explore()
            bes = [o for o in outs if o.kind == 'backedge' and o.val is lp and not (odd(o) and eng.check(o.st.facts, (), 10000) == z3.unsat)]
            rest = [o for o in outs if not (o.kind == 'backedge' and o.val is lp)]
            if not bes:
                raise Unsupported('loop iteration never repeats')
        for o in bes:
            if len(o.st.events) != len(st.events):
                raise Unsupported(f'events inside a loop: {o.st.events[len(st.events):]}'[:300])
            for k in set(o.st.ghost) | set(st.ghost):
                if k not in IGN_GHOST and o.st.ghost.get(k) is not st.ghost.get(k) and o.st.ghost.get(k) != st.ghost.get(k):
                    raise Unsupported(f'ghost {k} changes in a loop')
            if o.st.mem.freed - st.mem.freed:
                raise Unsupported('deallocation in a loop')
        # locations and new values
        prior = None
        conds = []
        for o in bes:
            d = o.st.facts[nf:]
            conds.append(z3.And(*d) if d else z3.BoolVal(True))
        # what all ways through the body require need not tell them apart
        parts = [{q.get_id(): q for q in conjuncts(c)} for c in conds]
        common = set.intersection(*[set(x) for x in parts])
        apart = [z3.And(*[q for q in x.values() if q.get_id() not in common]) if any(q not in common for q in x) else z3.BoolVal(True) for x in parts] if len(conds) > 1 else conds
        steps += before(conds)
        locs = [('phi', p) for p in phis]
        keys = set()
        split_cells([o.st for o in bes] + [G, st])
        gcells, base_cells = cells_of(G), cells_of(st)
        for o in bes:
            for (key, off), (w, v) in cells_of(o.st).items():
                if key[0] > nroots0 and key[0] not in gcells:
                    # cell of an object created in the iteration and not escaped: local to it
                    continue
                old = gcells.get((key, off))
                if old is None:
                    ini = initial_of(o.st, key, off, w)
                    if ini is not None and same(ini, v):
                        continue
                    old = (w, ini)
                elif same(old[1], v) and old[0] == w:
                    continue
                keys.add((key, off))
        for key, off in keys:
            ws = {cells_of(o.st)[(key, off)][0] for o in bes if (key, off) in cells_of(o.st)}
            if len(ws) != 1:
                raise Unsupported(f'cell width changes in a loop: {key} {off} {ws}')
            locs.append(('cell', key, off, ws.pop()))
        for v in forms:
            if v not in locs:
                locs.append(v)
        # undefined contents of containers made before the loop get a name
        named = False
        for key, off in keys:
            if (key, off) in base_cells:
                continue
            for o in bes:
                if (key, off) in cells_of(o.st):
                    w, x = cells_of(o.st)[(key, off)]
                    if initial_of(o.st, key, off, w) is None and z3.is_expr(x) and z3.is_array(x):
                        st.mem._put(key, off, w, fresh('undef_loop', x.sort()))
                        named = True
                    break
        if named:
            base_cells = cells_of(st)
            continue
        stable = True
        newforms = dict(forms)
        sk = {}
        def skol(e):
            subs = []
            for c in newconsts([e]):
                k = c.decl().name()
                if k not in sk:
                    F = None
                    if k.startswith('addr_'):
                        # what an instruction allocates in iteration k is the same in every round of the analysis
                        site = E.SITE.get(int(k.rsplit('_', 1)[1]))
                        if site is not None:
                            F = sites.setdefault(site, z3.Function(f'it_{k}', z3.BitVecSort(64), c.sort()))
                    sk[k] = (c, F if F is not None else z3.Function(f'it_{k}', z3.BitVecSort(64), c.sort()))
                subs.append((c, sk[k][1](n)))
            return z3.substitute(e, *subs) if subs else e
        # what an iteration makes is what the functions of the iteration stand for
        skol.links = lambda: [F(n) == c for c, F in sk.values()]
        for v in locs:
            fm = forms.get(v)
            if isinstance(fm, DeadF):
                continue
            vals = []
            for o in bes:
                if v[0] == 'phi':
                    vals.append(o.st.frames[-1].loc[v[1]])
                else:
                    c = o.st.mem.cells.get(v[1], {}).get(v[2])
                    vals.append(c[1] if c else None)
            if v[0] == 'phi':
                v0 = fr0.loc[v[1]]; vn = gloc[v[1]]
            else:
                c = base_cells.get((v[1], v[2]))
                v0 = c[1] if c and c[0] == v[3] else initial_of(bes[0].st, v[1], v[2], v[3])
                c = gcells.get((v[1], v[2]))
                vn = c[1] if c and c[0] == v[3] else v0
            vals = [vn if x is None else x for x in vals]
            eng.loop_entry = st.facts
            nf_ = points(eng, v, fm, v0, vn, vals, apart, n, skol, G, bes, steps, hasinv) if eng.points and not isinstance(fm, Havoc) and v not in nopoint else None
            if nf_ is None and isinstance(fm, Point):       # start again without that idea
                nopoint.add(v); del newforms[v]; stable = False
                continue
            eng.loop_entry = entry0
            nf_ = nf_ or (fm if isinstance(fm, Havoc) else guess(eng, v, fm, v0, vn, vals, apart, n, skol, G, bes, steps))
            if isinstance(nf_, DeadF) and (hasinv or z3.is_expr(v0) and z3.is_array(v0) and (eng.havoc or eng.unroll)) and z3.is_expr(v0) and all(z3.is_expr(x) and x.sort() == v0.sort() for x in vals):
                nf_ = Havoc(v0)
            if DEBUG:
                print('loop', f.name[:40], lp.head, rnd, v, type(fm).__name__, '->', type(nf_).__name__, getattr(nf_, 'why', ''), 'vn', str(vn)[:80], 'new', [str(x)[:200] for x in vals])
            if nf_ is not fm:
                newforms[v] = nf_
                stable = False
        forms = newforms
        if stable:
            break
    else:
        raise Unsupported('no closed form found for the loop')
    if hasinv and (any(havocs(fm) for fm in forms.values()) or not eng.points):
        for when, s_, m in [('initially', st, bvv(0))] + [('by every iteration', o.st, simp(n + 1)) for o in bes]:
            ex = [] if s_ is st else steps
            for l, q in invariants(eng, s_, s_.frames[-1], m, lp):
                r = eng.decide(s_.facts + ex, resolved(eng, s_, q, n)[0])
                eng.inv_results.append((f'loop invariant holds {when}: {l}', *r))
    # what must hold within an iteration is judged knowing the closed forms and that the loop was not left before
    if len(eng.unsafe) > nunsafe:
        del eng.unsafe[nunsafe:]
        for q in steps:
            G.facts.append(q)
        rest = [o for o in eng.run(G.fork(), quiet=True) if not (o.kind == 'backedge' and o.val is lp)]
    # fresh objects of different iterations differ
    extra = []
    C = z3.Or(*[skol(c) for c in conds]) if len(conds) > 1 else skol(conds[0])
    k = z3.BitVec(f'k!{next(E._uid)}', 64)
    body = z3.substitute(resolve(eng, G, C, n) if eng.points else C, (n, k))
    fams = list({F.name(): F for nm, (c, F) in sk.items() if nm.startswith('addr_')}.values())
    for i, F in enumerate(fams):
        for G_ in fams[i:]:
            a, b = z3.BitVecs(f'a!{next(E._uid)} b!{next(E._uid)}', 64)
            extra.append(z3.ForAll([a, b], z3.Implies(z3.And(z3.ULT(a, n), z3.ULT(b, n), a != b if G_ is F else z3.BoolVal(True)), F(a) != G_(b))))
    res = []
    for o in rest:
        if not z3.is_true(simp(body)):
            o.st.facts.append(z3.ForAll([k], z3.Implies(z3.ULT(k, n), body)))
            for kk in [bvv(0), simp(n - 1)] + list(eng.loop_instances):
                o.st.facts.append(z3.Implies(z3.ULT(kk, n), z3.substitute(body, (k, kk))))
        o.st.facts.extend(extra)
        o.st.ghost['summarized'] = o.st.ghost.get('summarized', 0) + 1
        if o.kind == 'exit' and o.val is lp:
            o.st.frames[-1].noloop = saved
            res.append(o.st)
        else:
            res.append(o)
    return res

def bounds(bes, nf, n):
    """what a counter of 32 bits that counts the iterations may not go beyond: [64-bit term]"""
    for q in bes[0].st.facts[nf:]:
        for q in conjuncts(q):
            if z3.is_not(q) and z3.is_app(q.arg(0)) and q.arg(0).num_args() == 2:
                a, b = q.arg(0).children()
                if z3.is_bv(a) and a.size() == 32:
                    for x, y in ((a, b), (b, a)):
                        if z3.eq(x, simp(z3.Extract(31, 0, n))) and not any(z3.eq(c, n) for c in consts_in(y)):
                            yield y.arg(0) if y.decl().kind() == z3.Z3_OP_EXTRACT and y.params() == [31, 0] else simp(z3.ZeroExt(32, y))
def conjuncts(e):
    return [q for x in e.children() for q in conjuncts(x)] if z3.is_and(e) else [e]
def merge(vals, conds):
    r = vals[-1]
    for v, c in zip(vals[:-1][::-1], conds[:-1][::-1]):
        r = z3.If(c, v, r)
    return simp(r)

def guess(eng, v, fm, v0, vn, vals, conds, n, skol, G, bes, steps=()):
    """new form for location v (the old one if it is already inductive)"""
    def isz(x): return z3.is_expr(x)
    # check the present form first
    if all(same(x, vn) for x in vals) and fm is None:
        return None
    want = None
    if fm is not None:
        want = fm.at(simp(n + 1))
        if isinstance(fm, ArrF):
            return check_arr(eng, fm, vn, vals, conds, n, skol, bes)
        sks = [skolv(x, skol) for x in vals]
        if all(equal(eng, o.st, want, x, list(steps) + skol.links()) for o, x in zip(bes, sks)):
            return fm
    def propose():
        for q, cand in enumerate(eng.loop_candidates):
            if isinstance(fm, Cand) and (not eng.points or q <= fm.q):
                continue
            c = cand(eng, G, v, v0, n)
            if c is not None and equal(eng, G, self_simp(c(bvv(0))), v0):
                r = Cand(c); r.q = q
                return r
    if not eng.points:
        r = propose()
        if r is not None:
            return r
    if fm is None:
        # pointers moving through elements
        if all(isinstance(x, Ptr) for x in vals + [vn, v0]) and len({shape(x) for x in vals + [vn]}) == 1:
            ds = []
            for i, t in enumerate(ival(vn)):
                dd = {str(step_of(t, ival(x)[i])): step_of(t, ival(x)[i]) for x in vals}
                if len(dd) != 1 or list(dd.values())[0] is None:
                    return DeadF('pointer')
                d = list(dd.values())[0]
                ds.append(None if not isinstance(d, tuple) and z3.is_bv_value(d) and d.as_long() == 0 else d)
            return LinPtr(v0, ds)
        if all(isz(x) and z3.is_bv(x) for x in vals + [vn]):
            ds = [simp(x - vn) for x in vals]
            if all(z3.eq(d, ds[0]) for d in ds) and z3.is_bv_value(ds[0]):
                return Linear(v0, ds[0])
        if all(isz(x) and z3.is_array(x) for x in vals + [vn]):
            return make_arr(v, v0, vn, vals, conds, n, skol)
    if eng.points and (fm is None or isinstance(fm, (Linear, Cand))) and isz(v0) and z3.is_bv(v0):
        r = propose()
        if r is not None:
            return r
    if fm is not None and isinstance(fm, (Linear, LinPtr, Cand)) or fm is None or isinstance(fm, Last):
        # last value written
        if not isinstance(fm, Last) and all(isz(x) for x in vals) and isz(v0) and all(x.sort() == v0.sort() for x in vals):
            e = skol(merge(vals, conds))
            if not any(z3.eq(c, vn) for c in consts_in(e)) and 'loop_' not in e.sexpr()[:0]:
                return Last(v0, e, n)
    return DeadF('value')

def skolv(x, skol):
    return skol(x) if z3.is_expr(x) else x

def equal(eng, st, a, b, extra=()):
    if same(a, b):
        return True
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        if shape(a) != shape(b):
            return False
        return all(z3.eq(x, y) or eng.valid(st, x == y) for x, y in zip(ival(a), ival(b)))
    if z3.is_expr(a) and z3.is_expr(b) and a.sort() == b.sort():
        if eng.unify:
            # definitional facts first, then make equal reads of the same bytes syntactically equal
            ex = list(extra)
            subs = [(e.arg(0), e.arg(1)) for x in ex if z3.is_app(x) for e in ([x] if z3.is_eq(x) else x.children()) if z3.is_eq(e)]
            a2, b2 = [simp(z3.substitute(t, *subs)) if subs else t for t in (a, b)]
            a2, b2 = unify(eng, st.facts + ex, [a2, b2])
            if z3.eq(simp(a2), simp(b2)):
                return True
            a, b = a2, b2
        return eng.check(st.facts, [*extra, z3.Not(a == b)], 10000, rlimit=12 * E.FEASIBLE_WORK if eng.points else 0) == z3.unsat
    return False

def apps(e, acc, ites, seen):
    if e.get_id() in seen:
        return
    seen.add(e.get_id())
    if z3.is_app(e):
        if e.decl().kind() == z3.Z3_OP_UNINTERPRETED and e.num_args() > 0:
            acc.append(e)
        if e.decl().kind() == z3.Z3_OP_ITE:
            ites.append(e.arg(0))
        for c in e.children():
            apps(c, acc, ites, seen)

def unify(eng, facts, es):
    """replace applications f(.., i) whose last argument is provably equal to that of another one by that
    one, and conditions that the facts decide by their value"""
    acc, ites, seen = [], [], set()
    for e in es:
        apps(e, acc, ites, seen)
    subs = []
    for c in ites:
        if eng.check(facts, [z3.Not(c)], 2000) == z3.unsat:
            subs.append((c, z3.BoolVal(True)))
        elif eng.check(facts, [c], 2000) == z3.unsat:
            subs.append((c, z3.BoolVal(False)))
    if subs:
        es = [simp(z3.substitute(e, *subs)) for e in es]
        acc, seen = [], set()
        for e in es:
            apps(e, acc, [], seen)
    reps = []; subs = []
    for x in acc:
        for r in reps:
            if z3.eq(x.decl(), r.decl()) and all(z3.eq(p, q) for p, q in zip(x.children()[:-1], r.children()[:-1])) and eng.check(facts, [x.children()[-1] != r.children()[-1]], 3000) == z3.unsat:
                subs.append((x, r)); break
        else:
            reps.append(x)
    return [simp(z3.substitute(e, *subs)) if subs else e for e in es]

def step_of(t, t2):
    if z3.eq(t, t2):
        return bvv(0, t.size()) if z3.is_bv(t) else bvv(0)
    if z3.is_bv(t) and z3.is_bv(t2):
        d = simp(t2 - t)
        if z3.is_bv_value(d):
            return d
    # position in a map: keyat(version, i) -> keyat(version, i+1)
    if z3.is_app(t) and z3.is_app(t2) and t.decl().name().startswith('keyat') and z3.eq(t.decl(), t2.decl()):
        a, b = t.children(), t2.children()
        if all(z3.eq(x, y) for x, y in zip(a[:-1], b[:-1])):
            d = simp(b[-1] - a[-1])
            if is_one(d):
                return ('key', t.decl(), a)
    return None

def writes_of(vn, vals, conds):
    per = []
    for x in vals:
        w = peel_stores(x, vn)
        if w is None:
            return None
        per.append(w)
    if len(per) == 1:
        return per[0]
    # several ways through the body: equal index lists are merged, others become conditional
    out = []
    for w, c in zip(per, conds):
        for cc, idx, val in w:
            out.append((c if cc is None else z3.And(c, cc), idx, val))
    # same index under every condition -> one unconditional write
    if all(len(w) == 1 for w in per) and all(len(w[0][1]) == len(per[0][0][1]) and all(z3.eq(a, b) for a, b in zip(w[0][1], per[0][0][1])) for w in per):
        return [(None, per[0][0][1], merge([w[0][2] for w in per], conds))]
    if len(out) == 1:
        return out
    return None

def opaque_arr(v0, vn, vals, n, skol, fm=None):
    """an array of which only the places that the loop writes to are known"""
    if v0 is None:
        return DeadF('array')
    w = []
    for x in vals:
        p = peel_stores(x, vn)
        if p is None:
            return DeadF('array')
        for c, ix, y in p:
            ix = [skol(i) for i in ix]
            if any(z3.eq(y, vn) for i in ix for y in consts_in(i)) or fm is not None and any(fm_refs(i, fm) for i in ix):
                return DeadF('array indexed by itself')
            if not any([norm(i) for i in ix] == [norm(i) for i in jx] for _, jx, _ in w):
                w.append((None, ix, None))
    if not w or len({len(ix) for c, ix, x in w}) != 1:
        return DeadF('array')
    if fm is not None and fm.opaque:
        old = [[norm(z3.substitute(i, (fm.n, n))) for i in ix] for _, ix, _ in fm.writes]
        if all([norm(i) for i in ix] in old for _, ix, _ in w):
            return fm
    r = ArrF(v0, w, n, 'o')
    r.opaque = True
    r.tries = getattr(fm, 'tries', 0) + 1
    return DeadF('array form unstable') if r.tries > 6 else r
def make_arr(v, v0, vn, vals, conds, n, skol):
    r = make_arr_(v, v0, vn, vals, conds, n, skol)
    return opaque_arr(v0, vn, vals, n, skol) if isinstance(r, DeadF) else r
def check_arr(eng, fm, vn, vals, conds, n, skol, bes):
    r = DeadF('array') if fm.opaque else check_arr_(eng, fm, vn, vals, conds, n, skol, bes)
    return opaque_arr(fm.a0, vn, vals, n, skol, fm) if isinstance(r, DeadF) else r
def unwritten(w, vn, v0, n):
    """what an iteration reads where it alone writes is what was there before the loop"""
    if len(w) != 1 or v0 is None:
        return w
    c, ix, x = w[0]
    if not any(z3.is_bv(i) and i.size() == 64 and is_one(simp(z3.substitute(i, (n, n + 1)) - i)) for i in ix) or any(z3.eq(y, vn) for i in ix for y in consts_in(i)):
        return w
    a, b = vn, v0
    for i in ix:
        a, b = z3.Select(a, i), z3.Select(b, i)
    sub = lambda e: simp(z3.substitute(simp(e), (simp(a), simp(b)), (a, b)))
    return [(None if c is None else sub(c), ix, sub(x))]
def make_arr_(v, v0, vn, vals, conds, n, skol):
    w = writes_of(vn, vals, conds)
    if w is None or not w or v0 is None:
        return DeadF('array')
    w = [(None if c is None else skol(c), [skol(i) for i in ix], skol(x)) for c, ix, x in unwritten(w, vn, v0, n)]
    if len({len(ix) for c, ix, x in w}) != 1:
        return DeadF('array')
    for c, ix, x in w:
        for e in [x] + ix + ([c] if c is not None else []):
            if any(z3.eq(y, vn) for y in consts_in(e)):
                return DeadF('array reads itself')
    nm = 'a'
    return ArrF(v0, w, n, nm)

def check_arr_(eng, fm, vn, vals, conds, n, skol, bes):
    w = writes_of(vn, vals, conds)
    if w is None:
        return DeadF('array')
    w = [(None if c is None else skol(c), [skol(i) for i in ix], skol(x)) for c, ix, x in unwritten(w, vn, fm.a0, n)]
    if len(w) != len(fm.writes):
        return DeadF('array')
    st = bes[0].st
    sn = lambda e: z3.substitute(e, (fm.n, n))
    for (c, ix, x), (c2, ix2, x2) in zip(w, fm.writes):
        # the skolem functions differ per round: compare modulo renaming by requiring identical text
        if norm(x) != norm(sn(x2)) or [norm(i) for i in ix] != [norm(sn(i)) for i in ix2]:
            if any(z3.eq(y, vn) for y in consts_in(x)) or fm_refs(x, fm) or any(fm_refs(i, fm) for i in ix):
                return DeadF('array reads itself')
            fm2 = ArrF(fm.a0, w, n, 'a')
            fm2.tries = getattr(fm, 'tries', 0) + 1
            if fm2.tries > 3:
                return DeadF('array form unstable')
            return fm2
    # writes of different iterations must not collide (unless they write the same value)
    k = z3.BitVec(f'k!{next(E._uid)}', 64)
    sk = lambda e: z3.substitute(e, (n, k))
    for i, (c, ix, x) in enumerate(w):
        for j, (d, jx, y) in enumerate(w):
            same_ix = z3.And(*[sk(p) == q for p, q in zip(ix, jx)])
            fresh_ix = any(z3.is_app(p) and p.decl().name().startswith('it_addr_') for p in jx)
            if fresh_ix:
                continue
            ok = eng.valid(st, z3.Implies(z3.ULT(k, n), z3.Or(z3.Not(same_ix), z3.And(sk(x) == y, *([] if c is None else [sk(c) == d])) if i == j else z3.BoolVal(False))))
            if not ok:
                return DeadF('array writes collide')
            if i < j:
                if not eng.valid(st, z3.Not(z3.And(*[p == q for p, q in zip(ix, jx)]))):
                    return DeadF('array writes collide')
    return fm

def fm_refs(e, fm):
    return fm.fam.name() in e.sexpr()

import re
def norm(e):
    t = simp(e).sexpr()
    t = re.sub(r'!(\d+)', '!', t)
    t = re.sub(r'addr_([A-Za-z_]*)_\d+', r'addr_\1', t)
    return re.sub(r'\s+', ' ', t)
