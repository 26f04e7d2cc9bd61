"""C17: lookup of linked objects"""
from props.common import *
TITLE = 'Looking up linked objects returns exactly the linked ones with their weights'
HARNESS = ['c17.cpp']
ASSUMPTIONS = ['std::multimap behaves as the standard says (contract in podver/stdlib.py: an insertion sequence and its enumeration by equal keys)', 'fewer than 2^31 links in a collection', 'copying, moving and destroying a handle only changes the reference count of its object (proved for C13)', 'getFrom, getTo and getWeight fulfil the contracts proved for C16', 'handles are ordered by the address of their object (proved for C21)']
NOTE = 'the constructor of LinkNavigator is proved (loop invariant over the links) to put every link once into each direction under the object at that end, and getLinkedFrom and getLinkedTo (every overload and tag) to return exactly the entries of the object asked for, each once, for every link collection with ends of two types and with two ends of the same type; links whose ends are interface types are covered by the bounded harness.'
NAV = {'Link': ('HitClusterLinkCollection', 'Hit', 'Cluster'), 'HHLink': ('HitHitLinkCollection', 'Hit', 'Hit')}
CLIENT = MODEL_INC + LINK_INC + '#include "podio/LinkNavigator.h"\n#pragma clang diagnostic ignored "-Wdeprecated-declarations"\nusing podio::detail::links::WeightedObject;\nextern "C" {\n'
for n, (C, F, T) in NAV.items():
    N = f'podio::LinkNavigator<{C}>'
    CLIENT += f'void nav_{n}({N}* r, const {C}& c) {{ new (r) {N}(c); }}\n'
    for d, R, A in (('From', F, T), ('To', T, F)):
        V = f'std::vector<WeightedObject<{R}>>'
        CLIENT += f'void {d}_{n}({V}* r, const {N}& n, const {A}& o) {{ new (r) {V}(n.getLinked{d}(o)); }}\n'
        CLIENT += f'void tag_{d}_{n}({V}* r, const {N}& n, const {A}& o) {{ new (r) {V}(n.getLinked(o, podio::Return{d})); }}\n'
        CLIENT += f'void tagm_{d}_{n}({V}* r, const {N}& n, const Mutable{A}& o) {{ new (r) {V}(n.getLinked(o, podio::Return{d})); }}\n'
        if F != T:
            CLIENT += f'void any_{d}_{n}({V}* r, const {N}& n, const {A}& o) {{ new (r) {V}(n.getLinked(o)); }}\n'
            CLIENT += f'void anym_{d}_{n}({V}* r, const {N}& n, const Mutable{A}& o) {{ new (r) {V}(n.getLinked(o)); }}\n'
CLIENT += '}\n'
modules = model(CLIENT, r'/(Mutable)?(Hit|Cluster)(Collection|CollectionData|Obj)?\.cc', '/DatamodelLinks.cc')

class Nav:
    """a navigator: two sequences of entries (key handle, value handle, weight)"""
    def __init__(v, c, n, p):
        v.c = c
        C, v.F, v.T = NAV[n]
        N = f'podio::LinkNavigator<podio::LinkCollection<{v.F}, {v.T}> >'
        v.p = p
        v.f2t, v.t2f = p.add(c.field(N, 'm_from2to')), p.add(c.field(N, 'm_to2from'))
        c.eng.keyof = {t: (lambda st, q: term(st.mem.get(q, 64), st.mem)) for t in ('Hit', 'Cluster')}
    def n(v, st, m): return stdlib.vlen(st, m)
    def key(v, st, m, i): return term(st.mem.get(m.elem(i, 40), 64), st.mem)
    def val(v, st, m, i): return term(st.mem.get(m.elem(i, 40).add(16), 64), st.mem)
    def weight(v, st, m, i): return term(st.mem.get(m.elem(i, 40).add(32), 32), st.mem)

def handles(c):
    """contracts of copying and destroying a handle, proved in C13: the copy refers to the same object; no object changes"""
    def copy(eng, st, a, ins, dem):
        for o in (0, 8):
            st.mem.put(a[0].add(o) if o else a[0], 64, st.mem.get(a[1].add(o) if o else a[1], 64))
    c.eng.contracts.append((lambda d: re.fullmatch(r'(Hit|Cluster)::\1\((\1|Mutable\1) const&\)', d), copy))
    c.eng.contracts.append((lambda d: re.fullmatch(r'(Hit|Cluster)::~\1\(\)', d), lambda eng, st, a, ins, dem: None))

def ends(c, k, eo):
    """contract of getFrom and getTo, proved in C16: a handle of the object set last, or of none"""
    def get(eng, st, a, ins, dem):
        e = 'from' if 'getFrom' in dem else 'to'
        x = eng.load(st, a[1], PTR, eng.mods[0])
        xp = x if isinstance(x, Ptr) else Ptr(HEAP, (Sel('h', term(x)),))
        b = term(st.mem.get(xp.add(eo[e]), 64), st.mem)
        for o in (0, 8):
            st.mem.put(a[0].add(o) if o else a[0], 64, z3.If(b == 0, bvv(0), term(st.mem.get(Ptr(HEAP, (Sel('h', b),)).add(o) if o else Ptr(HEAP, (Sel('h', b),)), 64), st.mem)))
    c.eng.contracts.append((lambda d: re.fullmatch(r'podio::LinkT<.*>::get(From|To)\(\) const', d), get))

def build(n):
    def f(c):
        k = Kind(n)
        t = Coll(c, k, 'links'); t.assume()
        handles(c); ends(c, k, {e: c.field(k.obj, 'm_' + e) for e in k.ends})
        v = Nav(c, n, c.ptr('navigator'))
        eo = {e: c.field(k.obj, 'm_' + e) for e in k.ends}
        wo = c.field(k.obj, 'data') + c.field('podio::LinkData', 'weight')
        i = z3.BitVec('i', 64)
        def end(st, x, e):
            b = term(st.mem.get(t.objp(x).add(eo[e]), 64), st.mem)
            return z3.If(b == 0, bvv(0), term(st.mem.get(t.objp(b), 64), st.mem))
        weight = lambda st, x: term(st.mem.get(t.objp(x).add(wo), 32), st.mem)
        x0 = t.entry(c.st, i)
        for e in k.ends:
            end(c.st, x0, e)
        weight(c.st, x0)
        for o in nothrow(c, c.run(f'^nav_{n}$', [v.p, t.this]), 'building the navigator'):
            st, pre = o.st, c.pre
            x = t.entry(pre, i)
            for m, a, b, label in ((v.f2t, 'from', 'to', 'from the from objects'), (v.t2f, 'to', 'from', 'from the to objects')):
                c.prove(o, f'there is one entry per link {label}', v.n(st, m) == t.n(pre))
                c.prove(o, f'every link is an entry {label}', z3.Implies(z3.ULT(i, t.n(pre)), z3.And(v.key(st, m, i) == end(pre, x, a), v.val(st, m, i) == end(pre, x, b), v.weight(st, m, i) == weight(pre, x))))
            frame(c, o, 'no object changes', only=OBJECT)
    return f

def find(n, d):
    def f(c):
        handles(c)
        v = Nav(c, n, c.ptr('navigator'))
        m, R, A = (v.t2f, v.F, v.T) if d == 'From' else (v.f2t, v.T, v.F)
        i, j = z3.BitVecs('i j', 64)
        for w in (v.f2t, v.t2f):
            v.key(c.st, w, i), v.val(c.st, w, i), v.weight(c.st, w, i)
        c.assume(z3.ULT(v.n(c.st, m), bvv(1 << 31)))
        x = UHandle(c, A, 'object')
        for p in ('', 'tag_', 'tagm_', 'any_', 'anym_'):
            fn = f'^{p}{d}_{n}$'
            if not c.v.lookup(fn):
                continue
            r = c.ptr('result_' + p)
            for o in nothrow(c, c.run(fn, [r, v.p, x.p], c.st.fork()), 'lookup'):
                st, pre = o.st, c.pre
                n_ = v.n(pre, m)
                u, cnt = stdlib.mm_range(c.eng, st, m, x.p, A, 40)
                _, sel, rank = c.eng.mmranges[u][:3]
                got = lambda i: z3.And(term(st.mem.get(r.elem(i, 24), 64), st.mem) == v.val(pre, m, sel(i)), term(st.mem.get(r.elem(i, 24).add(16), 32), st.mem) == v.weight(pre, m, sel(i)))
                ln = stdlib.vlen(st, r)
                obj = x.obj(pre)
                c.prove(o, 'every result is a link of this object', z3.Implies(z3.ULT(i, ln), z3.And(z3.ULT(sel(i), n_), v.key(pre, m, sel(i)) == obj, got(i))))
                c.prove(o, 'every link of this object is a result', z3.Implies(z3.And(z3.ULT(j, n_), v.key(pre, m, j) == obj), z3.And(z3.ULT(rank(j), ln), sel(rank(j)) == j)))
                c.prove(o, 'no link appears twice', z3.Implies(z3.And(z3.ULT(i, ln), z3.ULT(j, ln), i != j), sel(i) != sel(j)))
                frame(c, o, 'no object changes', only=OBJECT)
    return f

CONTRACTS = []
for n, (C, F, T) in NAV.items():
    CONTRACTS.append((f'LinkNavigator<{C}>::LinkNavigator', build(n)))
    for d in ('From', 'To'):
        CONTRACTS.append((f'LinkNavigator<{C}>::getLinked{d}', find(n, d)))
