"""C16: links"""
from props.common import *
from props import C12
from props.C12 import result, equal, BOX
TITLE = 'Links report the two objects and the weight they were given'
HARNESS = ['c16.cpp']
ASSUMPTIONS = C12.ASSUMPTIONS
NOTE = 'every constructor, getter (by name, by index, by type), setter, comparison and hash function of the mutable and immutable handles of three link types (two different datatypes, twice the same datatype, an interface type) is proved against the compiled code, with frame conditions over all objects; link collections are proved as collections of this kind in C09, C10, C11 and C15 and run by the harness here.'
SETTABLE = {'Hit': ['Hit', 'MutableHit'], 'Cluster': ['Cluster', 'MutableCluster'], 'Energetic': ['Energetic', 'Hit', 'MutableCluster', 'Info']}
CLIENT = MODEL_INC + LINK_INC + 'extern "C" {\n'
for n in LINKS:
    k = Kind(n)
    F, T = k.ends['from'], k.ends['to']
    CLIENT += f'void default_{n}({k.M}* r) {{ new (r) {k.M}(); }}\nvoid make_{n}({k.M}* r, float w) {{ new (r) {k.M}(w); }}\n'
    CLIENT += f'void setw_{n}({k.M}& h, float w) {{ h.setWeight(w); }}\n'
    for p, q in (('', k.T), ('m', k.M)):
        CLIENT += f'float {p}w_{n}(const {q}& h) {{ return h.getWeight(); }}\nfloat {p}w2_{n}(const {q}& h) {{ return h.get<2>(); }}\nbool {p}avail_{n}(const {q}& h) {{ return h.isAvailable(); }}\nvoid {p}id_{n}(podio::ObjectID* r, const {q}& h) {{ *r = h.getObjectID(); }}\n'
        CLIENT += f'void {p}all_{n}({F}* f, {T}* t, float* u, const {q}& h) {{ const auto& [a, b, c] = h; new (f) {F}(a); new (t) {T}(b); *u = c; }}\n'
        for i, (e, t) in enumerate(k.ends.items()):
            E = e.capitalize()
            CLIENT += f'void {p}get_{n}_{e}({t}* r, const {q}& h) {{ new (r) {t}(h.get{E}()); }}\nvoid {p}geti_{n}_{e}({t}* r, const {q}& h) {{ new (r) {t}(h.get<{i}>()); }}\n'
            if F != T:
                CLIENT += f'void {p}gett_{n}_{e}({t}* r, const {q}& h) {{ new (r) {t}(h.get<{t}>()); }}\n'
    for e, t in k.ends.items():
        E = e.capitalize()
        CLIENT += f'void set_{n}_{e}({k.M}& h, const {t}& v) {{ h.set{E}(v); }}\n'
        if F != T:
            CLIENT += f'void sett_{n}_{e}({k.M}& h, const {t}& v) {{ h.set(v); }}\n'
        if t != 'Energetic':
            CLIENT += f'void setm_{n}_{e}({k.M}& h, const Mutable{t}& v) {{ h.set{E}(v); }}\n'
    for c_, (a, b) in {'ii': (k.T, k.T), 'im': (k.T, k.M), 'mi': (k.M, k.T), 'mm': (k.M, k.M)}.items():
        CLIENT += f'bool eq_{n}_{c_}(const {a}& a, const {b}& b) {{ return a == b; }}\nbool ne_{n}_{c_}(const {a}& a, const {b}& b) {{ return a != b; }}\n'
    for c_, a in {'i': k.T, 'm': k.M}.items():
        CLIENT += f'bool lt_{n}_{c_}(const {a}& a, const {a}& b) {{ return a < b; }}\nsize_t hash_{n}_{c_}(const {a}& a) {{ return std::hash<{a}>{{}}(a); }}\n'
CLIENT += '}\n'
modules = model(CLIENT, r'/(Mutable)?(Hit|Cluster|Part|Info)(Collection|CollectionData|Obj)?\.cc', '/DatamodelLinks.cc')

class LinkObj:
    def __init__(l, c, n, h):
        k = l.k = Kind(n); l.h = h; l.c = c
        l.wo = c.field(k.obj, 'data') + c.field('podio::LinkData', 'weight')
        l.eo = {e: c.field(k.obj, 'm_' + e) for e in k.ends}
    def p(l, st): return l.h.at(l.h.obj(st))
    def weight(l, st): return term(st.mem.get(l.p(st).add(l.wo), 32), st.mem)
    def box(l, st, e): return term(st.mem.get(l.p(st).add(l.eo[e]), 64), st.mem)
    def end(l, st, e): return result(st, l.k.ends[e], l.h.at(l.box(st, e)))
    def assume(l):
        c = l.c
        for e, t in l.k.ends.items():
            old = l.box(c.st, e); was = l.end(c.st, e)
            c.assume(z3.Not(OBJECT(old)), OLD(old), BOX(old), z3.Not(CTRL(old)))
            if t != 'Energetic':
                c.assume(z3.Implies(old != 0, z3.And(z3.Not(OBJECT(was[1])), z3.Not(BOX(was[1])), OLD(was[1]))))
        f, t = l.k.ends
        c.assume(z3.Or(l.box(c.st, f) != l.box(c.st, t), l.box(c.st, f) == 0))
    def empty(l, o, e, q):
        """the handle refers to nothing"""
        if l.k.ends[e] == 'Energetic':
            m = o.st.mem.get(q, 64)
            return term(o.st.mem.get((m if isinstance(m, Ptr) else l.h.at(term(m))).add(8), 64), o.st.mem) == 0
        return result(o.st, l.k.ends[e], q)[0] == 0

def start(c, n, ends=True):
    h = UHandle(c, n, 'link'); x = h.obj(c.st); c.assume(x != 0, OBJECT(x), z3.Not(OBJECT(h.ctrl(c.st))))
    interfaces(c)
    l = LinkObj(c, n, h)
    if ends:
        l.assume()
    return h, x, l

def weights(n):
    def f(c):
        h, x, l = start(c, n, ends=False)
        k = l.k
        for p in ('', 'm'):
            for fn in ('w', 'w2'):
                for o in nothrow(c, c.run(f'^{p}{fn}_{n}$', [h.p], c.st.fork()), 'asking for the weight'):
                    c.prove(o, 'the weight is the one last set', term(o.val) == l.weight(c.pre))
                    frame(c, o, 'asking changes nothing')
            for o in nothrow(c, c.run(f'^{p}avail_{n}$', [h.p], c.st.fork()), 'isAvailable'):
                c.prove(o, 'a link is available', boolean(o))
            r = c.ptr('id')
            for o in nothrow(c, c.run(f'^{p}id_{n}$', [r, h.p], c.st.fork()), 'getObjectID'):
                io = c.field(k.obj, 'id')
                c.prove(o, 'the ID is that of the link', z3.And(*[term(o.st.mem.get(r.add(a) if a else r, 32), o.st.mem) == term(c.pre.mem.get(h.at(x).add(io + a), 32)) for a in (0, 4)]))
                frame(c, o, 'asking changes nothing')
        w = z3.BitVec('weight', 32)
        for o in nothrow(c, c.run(f'^setw_{n}$', [h.p, w], c.st.fork()), 'setWeight'):
            c.prove(o, 'the weight is what was set', l.weight(o.st) == w)
            frame_part(c, o, 'setting the weight changes nothing else', x, l.wo, l.wo + 4)
            c.prove(o, 'the handle refers to the same link', z3.And(h.obj(o.st) == x, h.ctrl(o.st) == h.ctrl(c.pre)))
    return f

def end(n, e):
    def f(c):
        h, x, l = start(c, n)
        t = l.k.ends[e]
        was, old = l.end(c.st, e), l.box(c.st, e)
        for p in ('', 'm'):
            for fn in ('get', 'geti', 'gett'):
                if not c.v.lookup(f'^{p}{fn}_{n}_{e}$'):
                    continue
                q = c.ptr(f'result_{p}{fn}')
                for o in nothrow(c, c.run(f'^{p}{fn}_{n}_{e}$', [q, h.p], c.st.fork()), fn):
                    got = result(o.st, t, q)
                    c.prove(o, f'{e} is the object last set, or none if none was set', z3.If(old == 0, l.empty(o, e, q), equal(got, was)))
                    if t != 'Energetic':
                        c.prove(o, 'the result counts as one more handle', z3.Implies(z3.And(old != 0, was[1] != 0), term(o.st.mem.get(h.at(was[1]), 32)) == term(c.pre.mem.get(h.at(was[1]), 32)) + 1))
                    frame(c, o, 'asking changes no object', only=OBJECT)
        for fn in ('set', 'sett', 'setm'):
            if not c.v.lookup(f'^{fn}_{n}_{e}$'):
                continue
            c.eng.contracts.append((lambda d: re.fullmatch(r'(Hit|Cluster|Info)Obj::~\w+\(\)', d), lambda eng, st, a, ins, dem: st.events.append(('dtor', a[0]))))
            v = c.ptr('value_' + fn); want = result(c.st, t, v)
            if t != 'Energetic':
                hv = UHandle(c, t, 'value', v); c.assume(z3.Not(OBJECT(want[1])), z3.Not(BOX(want[1])))
            for o in nothrow(c, c.run(f'^{fn}_{n}_{e}$', [h.p, v], c.st.fork()), fn):
                st = o.st
                c.prove(o, f'{e} refers to the object that was set', z3.And(l.box(st, e) != 0, equal(l.end(st, e), want)))
                frame(c, o, f'setting {e} changes nothing else of the link or any object', only=OBJECT, part=(x, l.eo[e], l.eo[e] + 8))
                other = 'to' if e == 'from' else 'from'
                c.prove(o, 'the other end refers to the same object', z3.And(l.box(st, other) == l.box(c.pre, other), z3.Implies(l.box(st, other) != 0, equal(l.end(st, other), l.end(c.pre, other)))))
                c.prove(o, 'the handle refers to the same link', z3.And(h.obj(st) == x, h.ctrl(st) == h.ctrl(c.pre)))
    return f

def binding(n):
    def f(c):
        h, x, l = start(c, n)
        ends = list(l.k.ends)
        for p in ('', 'm'):
            q, u = [c.ptr(f'{p}result_{e}') for e in ends], c.ptr(f'{p}result_weight')
            for o in nothrow(c, c.run(f'^{p}all_{n}$', q + [u, h.p], c.st.fork()), 'structured binding'):
                for e, r in zip(ends, q):
                    c.prove(o, f'{e} is the object last set, or none if none was set', z3.If(l.box(c.pre, e) == 0, l.empty(o, e, r), equal(result(o.st, l.k.ends[e], r), l.end(c.pre, e))))
                c.prove(o, 'the weight is the one last set', term(o.st.mem.get(u, 32), o.st.mem) == l.weight(c.pre))
                frame(c, o, 'asking changes no object', only=OBJECT)
    return f

def makes(n):
    def f(c):
        q = c.ptr('result'); h = UHandle(c, n, 'link', q, valid=False)
        l = LinkObj(c, n, h)
        w = z3.BitVec('weight', 32)
        for fn, args, want in (('default', [], bvv(0x3f800000, 32)), ('make', [w], w)):
            for o in nothrow(c, c.run(f'^{fn}_{n}$', [q] + args, c.st.fork()), 'construction'):
                st = o.st; x = h.obj(st)
                c.prove(o, 'the handle is the only owner of a new link', z3.And(x != 0, h.ctrl(st) != 0, h.count(st) == 1, h.owned(st) == 1, z3.Not(OLD(x)), z3.Not(OLD(h.ctrl(st)))))
                c.prove(o, 'the weight is the one given, or one', l.weight(st) == want)
                for e in l.k.ends:
                    c.prove(o, f'{e} is not set', l.box(st, e) == 0)
                c.prove(o, 'the link has no ID yet', term(st.mem.get(h.at(x).add(c.field(l.k.obj, 'id')), 32)) == bvv(2**32 - 1, 32))
                frame(c, o, 'no other object changes')
    return f

def compare(n):
    def f(c):
        a, b = UHandle(c, n, 'a'), UHandle(c, n, 'b')
        x, y = a.obj(c.st), b.obj(c.st)
        for k in ('ii', 'im', 'mi', 'mm'):
            for op, spec in (('eq', x == y), ('ne', x != y)):
                for o in nothrow(c, c.run(f'^{op}_{n}_{k}$', [a.p, b.p], c.st.fork()), 'comparison'):
                    c.prove(o, f'{op} ({k}) is equality of the links', boolean(o) == spec)
                    frame(c, o, 'comparing changes nothing')
        for k in 'im':
            for o in nothrow(c, c.run(f'^lt_{n}_{k}$', [a.p, b.p], c.st.fork()), 'comparison'):
                c.prove(o, f'less than ({k}) is the order of the addresses', boolean(o) == z3.ULT(x, y))
            for o in nothrow(c, c.run(f'^hash_{n}_{k}$', [a.p], c.st.fork()), 'hash'):
                c.prove(o, f'the hash ({k}) is a function of the link, the same for mutable and immutable handles', term(o.val) == x)
    return f

CONTRACTS = []
for n in LINKS:
    t = Kind(n).T
    CONTRACTS += [(f'constructors of {t}', makes(n)), (f'weight of {t}', weights(n)), (f'{t}::from', end(n, 'from')), (f'{t}::to', end(n, 'to')), (f'structured binding of {t}', binding(n)), (f'comparison and hash of {t}', compare(n))]
