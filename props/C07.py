"""C07: schema evolution applies exactly the registered function"""
from props.common import *
TITLE = 'Schema evolution applies exactly the function registered for a stored version'
HARNESS = ['c07.cpp']
modules = core('SchemaEvolution.cc')
ASSUMPTIONS = ['documented precondition of registration: 1 <= fromVersion <= currentVersion', 'evolution functions are not empty']
NOTE = 'registerEvolutionFunc and evolveBuffers are proved against a map (type, version) -> (function, priority) for every state that satisfies the store invariant.'
CLS = 'podio::SchemaEvolution'
PF = 'podio::SchemaEvolution::PrioritizedFunc'
MI = 'podio::SchemaEvolution::MapIndex'
RB = 'podio::CollectionReadBuffers'
NOEVO = bvv(0xffffffff)

class Store:
    def __init__(t, c):
        t.c = c; t.this = c.ptr('evolution')
        t.map = MapView(c, t.this.add(c.field(CLS, 'm_versionMapIndices')), STR, MI)
        t.vecs = c.vec(t.this.add(c.field(CLS, 'm_evolutionFuncs')))
        t.zv = 24; t.zf = stdlib.types(c.eng).size(PF)
        t.offF, t.offP = c.field(PF, 'func'), c.field(PF, 'priority')
        t.offC, t.offI = c.field(MI, 'currentVersion'), c.field(MI, 'index')
    def has(t, st, k): return t.map.has(st, k)
    def cur(t, st, k): return st.mem.get(t.map.val(k).add(t.offC), 32)
    def idx(t, st, k): return st.mem.get(t.map.val(k).add(t.offI), 64)
    def n(t, st): return t.vecs.len(st)
    def inner(t, i): return t.vecs.p.elem(i, t.zv)
    def len(t, st, i): return stdlib.vlen(st, t.inner(i))
    def f(t, st, i, j): return stdlib.getfn(st, t.inner(i).elem(j, t.zf).add(t.offF))
    def p(t, st, i, j): return st.mem.get(t.inner(i).elem(j, t.zf).add(t.offP), 32)
    def inv(t, st):
        k, l = z3.Consts('k l', t.map.ks)
        live = lambda x: z3.And(t.has(st, x), t.idx(st, x) != NOEVO)
        return {'every index refers to a list of functions': z3.ForAll([k], z3.Implies(t.has(st, k), z3.And(t.idx(st, k) != NOEVO, z3.ULT(t.idx(st, k), t.n(st)), z3.UGE(t.len(st, t.idx(st, k)), z3.ZeroExt(32, t.cur(st, k)))))),
                'types do not share a list of functions': z3.ForAll([k, l], z3.Implies(z3.And(live(k), live(l), k != l), t.idx(st, k) != t.idx(st, l)))}
    def assume(t):
        st = t.c.st
        t.c.assume(*t.inv(st).values(), z3.ULT(t.n(st), bvv(1 << 31)))

def register(c):
    t = Store(c); p, s = c.string('type')
    frm, cur, prio = c.bv('from', 32), c.bv('current', 32), c.bv('priority', 32)
    fp = c.ptr('func'); fn = z3.Const('newfn', FnS)
    c.st.mem.put(fp.sub('#fn'), FnS, fn)
    t.assume()
    c.assume(frm != 0, z3.ULE(frm, cur), z3.Or(prio == 0, prio == 1), fn != NULLFN)
    pre0 = c.st
    live = z3.And(t.has(pre0, s), t.idx(pre0, s) != NOEVO)
    c.assume(z3.Implies(live, z3.ULT(t.len(pre0, t.idx(pre0, s)), bvv(1 << 33))))
    v1 = simp(z3.ZeroExt(32, frm) - 1)
    t.f(pre0, t.idx(pre0, s), v1); t.p(pre0, t.idx(pre0, s), v1)
    k = t.map.key(); j = z3.BitVec('j', 64)
    for o in c.run(r'^podio::SchemaEvolution::registerEvolutionFunc\(', [t.this, p, frm, cur, fp, prio]):
        pre, st = c.pre, o.st
        if o.kind == 'throw':
            c.prove(o, 'registration does not throw', False); continue
        for l, x in t.inv(st).items():
            c.prove(o, 'invariant kept: ' + l, x)
        c.prove(o, 'the type is known with its current version', z3.And(t.has(st, s), t.cur(st, s) == z3.If(t.has(pre, s), t.cur(pre, s), cur), t.idx(st, s) != NOEVO))
        i0, i1 = t.idx(pre, s), t.idx(st, s)
        olduser = z3.And(live, z3.ULT(v1, t.len(pre, i0)), t.p(pre, i0, v1) == 1)
        wins = z3.Or(prio == 1, z3.Not(olduser))
        c.prove(o, 'the function is stored for this type and version unless a user defined one takes precedence', z3.Implies(wins, z3.And(t.f(st, i1, v1) == fn, t.p(st, i1, v1) == prio)))
        c.prove(o, 'a user defined function is never replaced by an auto generated one', z3.Implies(z3.Not(wins), z3.And(t.f(st, i1, v1) == t.f(pre, i0, v1), t.p(st, i1, v1) == 1)))
        c.prove(o, 'functions for other versions of the type stay', z3.ForAll([j], z3.Implies(z3.And(live, z3.ULT(j, t.len(pre, i0)), j != v1), z3.And(t.f(st, i1, j) == t.f(pre, i0, j), t.p(st, i1, j) == t.p(pre, i0, j)))))
        ik = t.idx(pre, k); ik1 = t.idx(st, k)
        c.prove(o, 'other types stay known or unknown with their version', z3.ForAll([k], z3.Implies(k != s, z3.And(t.has(st, k) == t.has(pre, k), z3.Implies(t.has(pre, k), z3.And(t.cur(st, k) == t.cur(pre, k), ik1 == ik))))))
        c.prove(o, 'functions of other types stay', z3.ForAll([k, j], z3.Implies(z3.And(k != s, t.has(pre, k), ik != NOEVO, z3.ULT(j, t.len(pre, ik))), z3.And(t.len(st, ik) == t.len(pre, ik), t.f(st, ik, j) == t.f(pre, ik, j), t.p(st, ik, j) == t.p(pre, ik, j)))))

def evolve(c):
    t = Store(c); p, s = c.string('type')
    frm = c.bv('from', 32)
    t.assume()
    bp = c.ptr('buffers'); ret = c.ptr('result')
    fields = {'data': 64, 'references': 64, 'vectorMembers': 64, 'schemaVersion': 32}
    old = {k: z3.BitVec('old_' + k, w) for k, w in fields.items()}
    new = {k: z3.BitVec('new_' + k, w) for k, w in fields.items()}
    fns = ('createCollection', 'deleteBuffers')
    oldf = {k: z3.Const('old_' + k, FnS) for k in fns}; newf = {k: z3.Const('new_' + k, FnS) for k in fns}
    for k, w in fields.items():
        c.st.mem.put(bp.add(c.field(RB, k)), w, old[k])
    for k in fns:
        c.st.mem.put(bp.add(c.field(RB, k)).sub('#fn'), FnS, oldf[k])
    v1 = simp(z3.ZeroExt(32, frm) - 1)
    i0 = t.idx(c.st, s)
    known = z3.And(t.has(c.st, s), i0 != NOEVO)
    older = z3.And(known, frm != 0, frm != t.cur(c.st, s), z3.ULT(z3.ZeroExt(32, frm), t.len(c.st, i0)))
    c.assume(z3.Implies(older, t.f(c.st, i0, v1) != NULLFN))
    def call(eng, st, f, a, n, ins, sret):
        got = {k: term(st.mem.get(a[1 + sret].add(c.field(RB, k)), w), st.mem) for k, w in fields.items()} if False else None
        buf, ver = a[-2], a[-1]
        if n.params and isinstance(ver, Ptr):
            ver = st.mem.get(ver, 32)
        got = {k: term(st.mem.get(buf.add(c.field(RB, k)), w), st.mem) for k, w in fields.items()}
        gotf = {k: stdlib.getfn(st, buf.add(c.field(RB, k))) for k in fns}
        st.events.append(('call', f, got, gotf, ver))
        for k, w in fields.items():
            st.mem.put(a[0].add(c.field(RB, k)), w, new[k])
        for w in (0, 8):
            st.mem.put(a[0].add(c.field(RB, 'type') + w), 64, z3.BitVec('new_type%d' % w, 64))
        for k in fns:
            st.mem.put(a[0].add(c.field(RB, k)).sub('#fn'), FnS, newf[k])
    c.eng.fncall = call
    for o in c.run(r'^podio::SchemaEvolution::evolveBuffers\(', [ret, t.this, bp, frm, p]):
        pre, st = c.pre, o.st
        if o.kind == 'throw':
            c.prove(o, 'evolveBuffers does not throw by itself', False); continue
        calls = [e for e in st.events if e[0] == 'call']
        c.prove(o, 'an evolution function is called exactly once for an older version of a known type and never otherwise', z3.If(older, bvv(1), bvv(0)) == len(calls))
        for e in calls:
            c.prove(o, 'it is the function registered for this type and version', e[1] == t.f(pre, i0, v1))
            c.prove(o, 'it gets the stored buffers', z3.And(*[e[2][k] == old[k] for k in fields], *[e[3][k] == oldf[k] for k in fns]))
            c.prove(o, 'it gets the version', e[4] == frm)
        want, wantf = (new, newf) if calls else (old, oldf)
        lab = 'its result is returned' if calls else 'the buffers come back unchanged'
        for k, w in fields.items():
            c.prove(o, f'{lab} ({k})', term(st.mem.get(ret.add(c.field(RB, k)), w), st.mem) == want[k])
        for k in fns:
            c.prove(o, f'{lab} ({k})', stdlib.getfn(st, ret.add(c.field(RB, k))) == wantf[k])

CONTRACTS = [('SchemaEvolution::registerEvolutionFunc', register), ('SchemaEvolution::evolveBuffers', evolve)]
