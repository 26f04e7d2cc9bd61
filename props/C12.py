"""C12: members and relations of an object"""
from props.common import *
TITLE = 'Members and relations of an object report exactly what was set'
HARNESS = ['c12.cpp']
ASSUMPTIONS = ['an object has fewer than 2^32 - 1 elements in each relation (positions are 32 bit integers)', 'relation vectors, control blocks, handles and objects are distinct allocations', 'elements are added only to objects that own their relation vector (objects of collections that were read are constant)',
               'the virtual functions of interface values behave as proved in C22', 'std::vector and std::unique_ptr behave as the C++ standard says']
NOTE = 'every constructor, getter, setter, relation and vector member function of the mutable and immutable handles of four generated datatypes (covering all kinds of members the generator knows) is proved against the compiled code, with frame conditions over all objects.'
# type, {member: (type, path inside the data)}, sub members (accessor: path), one-to-one, one-to-many, vector members
TYPES = {
 'Hit': ({'cellID': 'unsigned long long', 'energy': 'double', 'position': 'Vec3', 'comp': 'Comp', 'codes': 'std::array<int, 4>', 'weight': 'float', 'flag': 'bool'},
         {'x': ('double', 'position.x'), 'y': ('double', 'position.y'), 'z': ('double', 'position.z'), 'pos': ('Vec3', 'comp.pos'), 'arr': ('std::array<int, 3>', 'comp.arr'), 's': ('std::int16_t', 'comp.s')},
         {}, {}, {'counts': 'int', 'points': 'Vec3'}),
 'Cluster': ({'energy': 'double'}, {}, {'mainHit': 'Hit', 'parent': 'Cluster'}, {'hits': 'Hit', 'clusters': 'Cluster'}, {}),
 'Part': ({'energy': 'double', 'pdg': 'std::int32_t'}, {}, {'best': 'Energetic'}, {'sources': 'Energetic'}, {'w': 'double'}),
 'Info': ({'number': 'int', 'big': 'std::uint64_t', 'p': 'Vec3', 'energy': 'double'}, {'x': ('double', 'p.x'), 'y': ('double', 'p.y'), 'z': ('double', 'p.z')}, {}, {}, {}),
}
CLIENT = MODEL_INC + 'extern "C" {\n'
for n, (mem, sub, one, many, vecs) in TYPES.items():
    k = Kind(n)
    for m, t in list(mem.items()) + [(a, t) for a, (t, _) in sub.items()]:
        CLIENT += f'void get_{n}_{m}({t}* r, const {k.T}& h) {{ *r = h.{m}(); }}\nvoid mget_{n}_{m}({t}* r, const {k.M}& h) {{ *r = h.{m}(); }}\n'
        CLIENT += f'void set_{n}_{m}({k.M}& h, const {t}& v) {{ h.{m}(v); }}\n'
        if m in mem or t in ('Vec3', 'std::array<int, 3>'):
            CLIENT += f'void ref_{n}_{m}({k.M}& h, const {t}& v) {{ h.{m}() = v; }}\n'
    for m, t in one.items():
        CLIENT += f'void get_{n}_{m}({t}* r, const {k.T}& h) {{ new (r) {t}(h.{m}()); }}\nvoid mget_{n}_{m}({t}* r, const {k.M}& h) {{ new (r) {t}(h.{m}()); }}\n'
        CLIENT += f'void set_{n}_{m}({k.M}& h, const {t}& v) {{ h.{m}(v); }}\n'
    for m, t in list(many.items()) + list(vecs.items()):
        for p, q in (('', k.T), ('m', k.M)):
            CLIENT += f'unsigned long {p}size_{n}_{m}(const {q}& h) {{ return h.{m}_size(); }}\nvoid {p}at_{n}_{m}({t}* r, const {q}& h, unsigned long i) {{ new (r) {t}(h.{m}(i)); }}\n'
            CLIENT += f'void {p}it_{n}_{m}({t}* r, const {q}& h, unsigned long i) {{ new (r) {t}(*(h.{m}_begin() + i)); }}\nlong {p}dist_{n}_{m}(const {q}& h) {{ return h.{m}_end() - h.{m}_begin(); }}\n'
            CLIENT += f'void {p}range_{n}_{m}({t}* r, const {q}& h, unsigned long i) {{ auto x = h.{m}(); new (r) {t}(*(x.begin() + i)); }}\n'
            CLIENT += f'unsigned long {p}rsize_{n}_{m}(const {q}& h) {{ return h.{m}().size(); }}\nlong {p}rdist_{n}_{m}(const {q}& h) {{ auto x = h.{m}(); return x.end() - x.begin(); }}\nbool {p}rempty_{n}_{m}(const {q}& h) {{ return h.{m}().empty(); }}\n'
            CLIENT += f'void {p}rindex_{n}_{m}({t}* r, const {q}& h, unsigned long i) {{ auto x = h.{m}(); new (r) {t}(x[i]); }}\nvoid {p}rat_{n}_{m}({t}* r, const {q}& h, unsigned long i) {{ auto x = h.{m}(); new (r) {t}(x.at(i)); }}\n'
        CLIENT += f'void add_{n}_{m}({k.M}& h, const {t}& v) {{ h.add{m}(v); }}\n'
for n, (mem, sub, one, many, vecs) in TYPES.items():
    k = Kind(n)
    CLIENT += f'void default_{n}({k.M}* r) {{ new (r) {k.M}(); }}\nvoid make_{n}({k.M}* r, ' + ', '.join(f'const {t}& {m}' for m, t in mem.items()) + f') {{ new (r) {k.M}({", ".join(mem)}); }}\n'
CLIENT += '''void get_Hit_code(int* r, const Hit& h, unsigned long i) { *r = h.codes(i); }
void mget_Hit_code(int* r, const MutableHit& h, unsigned long i) { *r = h.codes(i); }
void set_Hit_code(MutableHit& h, unsigned long i, int v) { h.codes(i, v); }
}
'''
modules = model(CLIENT, r'/(Mutable)?(Hit|Cluster|Part|Info)(Collection|CollectionData|Obj)?\.cc')

def data_type(n): return Kind(n).obj[:-3] + 'Data'
def offset(c, n, path):
    """offset of a (sub)member of the data of an object, from the debug information of the compiled code"""
    k = Kind(n)
    cls, off = data_type(n), c.field(k.obj, 'data')
    types_ = {'position': 'Vec3', 'comp': 'Comp', 'p': 'Vec3', 'pos': 'Vec3'}
    for p in path.split('.'):
        off += c.field(cls, p)
        cls = types_.get(p)
    return off
W = {'unsigned long long': [(0, 64)], 'double': [(0, 64)], 'float': [(0, 32)], 'bool': [(0, 8)], 'int': [(0, 32)], 'std::int32_t': [(0, 32)], 'std::int16_t': [(0, 16)], 'std::uint64_t': [(0, 64)],
     'Vec3': [(0, 64), (8, 64), (16, 64)], 'std::array<int, 4>': [(4 * i, 32) for i in range(4)], 'std::array<int, 3>': [(4 * i, 32) for i in range(3)]}
W['Comp'] = W['Vec3'] + [(24 + o, w) for o, w in W['std::array<int, 3>']] + [(36, 16)]

def simple(n):
    mem, sub, one, many, vecs = TYPES[n]
    def f(c):
        h = UHandle(c, n, 'object'); x = h.obj(c.st); c.assume(x != 0)
        for m, (t, path) in list({a: (t, a) for a, t in mem.items()}.items()) + list(sub.items()):
            off = offset(c, n, path)
            cell = lambda st, o, w: term(st.mem.get(h.at(x).add(off + o), w), st.mem)
            for a, w in W[t]:
                v = cell(c.st, a, w)
                if t == 'bool':
                    c.assume(z3.ULE(v, 1))
            for fn in ('get', 'mget'):
                r = c.ptr(f'result_{fn}_{m}')
                for o in nothrow(c, c.run(f'^{fn}_{n}_{m}$', [r, h.p], c.st.fork()), 'getter'):
                    c.prove(o, f'{m}() returns the value stored for it', z3.And(*[term(o.st.mem.get(r.add(a) if a else r, w), o.st.mem) == cell(c.pre, a, w) for a, w in W[t]]))
                    frame(c, o, 'getting changes no object')
            for fn in ('set', 'ref'):
                if not c.v.lookup(f'^{fn}_{n}_{m}$'):
                    continue
                v = c.ptr(f'value_{m}'); want = [(a, w, term(c.st.mem.get(v.add(a) if a else v, w), c.st.mem)) for a, w in W[t]]
                if t == 'bool':
                    c.assume(z3.ULE(want[0][2], 1))
                for o in nothrow(c, c.run(f'^{fn}_{n}_{m}$', [h.p, v], c.st.fork()), 'setter'):
                    c.prove(o, f'{m} is what was set', z3.And(*[cell(o.st, a, w) == v for a, w, v in want]))
                    frame_part(c, o, f'setting {m} changes no other member and no other object', x, off, off + size(t))
                    c.prove(o, 'the handle refers to the same object', z3.And(h.obj(o.st) == x, h.ctrl(o.st) == h.ctrl(c.pre)))
    return f
def size(t): return max(o + w // 8 for o, w in W[t])

ESZ = {'int': 4, 'double': 8, 'Vec3': 24, 'Energetic': 8, 'Hit': 16, 'Cluster': 16}
class Many:
    """a relation or vector member of the object x: the elements from begin to end of a vector"""
    def __init__(r, c, n, m, t, x):
        k = Kind(n)
        r.c, r.t, r.x = c, t, x
        r.o = Ptr(HEAP, (Sel('h', x),))
        r.vp = r.o.add(c.field(k.obj, 'm_' + m))
        r.bo, r.eo = offset(c, n, m + '_begin'), offset(c, n, m + '_end')
        st = c.st
        r.v = term(st.mem.get(r.vp, 64), st.mem)
        r.vec = Ptr(HEAP, (Sel('h', r.v),))
        c.assume(r.v != 0, OLD(r.v), z3.Not(OBJECT(r.v)), z3.ULE(r.begin(st), r.end(st)), z3.ULE(z3.ZeroExt(32, r.end(st)), stdlib.vlen(st, r.vec)))
        r.size = z3.ZeroExt(32, r.end(st) - r.begin(st))
    def begin(r, st): return term(st.mem.get(r.o.add(r.bo), 32))
    def end(r, st): return term(st.mem.get(r.o.add(r.eo), 32))
    def elem(r, st, i, a, w): return term(st.mem.get(r.vec.elem(i, ESZ[r.t]).add(a), w), st.mem)
    def raw(r, st, i): return [meaning(r.t, r.elem(st, i, a, w)) for a, w in leaves(r.t)]

def leaves(t):
    return W.get(t) or ([(0, 64)] if t == 'Energetic' else [(0, 64), (8, 64)])
def meaning(t, v):
    return HELD(v) if t == 'Energetic' else v
def result(st, t, p):
    return [meaning(t, term(st.mem.get(p.add(a) if a else p, w), st.mem)) for a, w in leaves(t)]
def equal(a, b): return z3.And(*[x == y for x, y in zip(a, b)])

def many(n, m, t):
    def f(c):
        h = UHandle(c, n, 'object'); x = h.obj(c.st); c.assume(x != 0, OBJECT(x), z3.Not(OBJECT(h.ctrl(c.st))))
        r = Many(c, n, m, t, x)
        interfaces(c)
        i = z3.BitVec('i', 64); j = z3.BitVec('j', 64)
        b = z3.ZeroExt(32, r.begin(c.st))
        r.raw(c.st, i)
        if t in ('Hit', 'Cluster'):
            ctl = r.elem(c.st, j, 8, 64)
            c.assume(z3.ForAll([j], z3.Not(OBJECT(ctl)), patterns=[ctl]))
        for p in ('', 'm'):
            for fn, spec in (('size', lambda o: term(o.val) == r.size), ('dist', lambda o: term(o.val) == r.size), ('rsize', lambda o: term(o.val) == r.size), ('rdist', lambda o: term(o.val) == r.size), ('rempty', lambda o: boolean(o) == (r.size == 0))):
                for o in nothrow(c, c.run(f'^{p}{fn}_{n}_{m}$', [h.p], c.st.fork()), fn):
                    c.prove(o, f'{fn} reports the number of elements', spec(o))
                    frame(c, o, 'asking changes nothing')
            for fn in ('at', 'it', 'range', 'rindex', 'rat'):
                checked = fn in ('at', 'rat')
                st0 = c.st.fork()
                if not checked:
                    st0.assume(z3.ULT(i, r.size))
                q = c.ptr(f'result_{p}{fn}')
                for o in c.run(f'^{p}{fn}_{n}_{m}$', [q, h.p, i], st0):
                    if o.kind == 'throw':
                        c.prove(o, 'access throws only beyond the end', z3.UGE(i, r.size) if checked else False)
                    else:
                        c.prove(o, 'access beyond the end throws', z3.ULT(i, r.size))
                        c.prove(o, 'the element at the position is returned', equal(result(o.st, t, q), r.raw(c.pre, b + i)))
                    frame(c, o, 'access changes no object', only=OBJECT)
        # adding
        st0 = c.st.fork()
        v = c.ptr('value')
        n0 = stdlib.vlen(st0, r.vec)
        st0.assume(z3.ZeroExt(32, r.end(st0)) == n0, z3.ULT(n0, bvv((1 << 32) - 1)))
        want = result(st0, t, v)
        if t in ('Hit', 'Cluster'):
            hv = UHandle(c, t, 'value', v)
            st0.facts += c.st.facts[len(c.st.facts) - 3:]
            st0.assume(z3.Not(OBJECT(want[1])), want[1] != r.v)
        for o in nothrow(c, c.run(f'^add_{n}_{m}$', [h.p, v], st0), 'add'):
            pre, st = c.pre, o.st
            c.prove(o, 'the relation keeps its elements', z3.And(r.begin(st) == r.begin(pre), term(st.mem.get(r.vp, 64), st.mem) == r.v, z3.ForAll([j], z3.Implies(z3.ULT(j, n0), equal(r.raw(st, j), r.raw(pre, j))))))
            c.prove(o, 'there is one more element', z3.And(r.end(st) == r.end(pre) + 1, stdlib.vlen(st, r.vec) == n0 + 1))
            c.prove(o, 'the new element is the one that was added', equal(r.raw(st, n0), want))
            if t in ('Hit', 'Cluster'):
                c.prove(o, 'the relation counts as one more handle of the object', z3.Implies(hv.ctrl(pre) != 0, term(st.mem.get(hv.at(hv.ctrl(pre)), 32)) == hv.count(pre) + 1))
            frame(c, o, 'nothing else of the object or any other object changes', only=OBJECT, part=(x, r.eo, r.eo + 4))
    return f

BOX = z3.Function('is_handle_box', z3.BitVecSort(64), z3.BoolSort())      # memory that holds the handle of a one-to-one relation
def single(n, m, t):
    def f(c):
        h = UHandle(c, n, 'object'); x = h.obj(c.st); c.assume(x != 0, OBJECT(x), z3.Not(OBJECT(h.ctrl(c.st))))
        interfaces(c)
        c.eng.contracts.append((lambda d: re.fullmatch(r'(Hit|Cluster|Info)Obj::~\w+\(\)', d), lambda eng, st, a, ins, dem: st.events.append(('dtor', a[0]))))
        k = Kind(n)
        mp = Ptr(HEAP, (Sel('h', x),)).add(c.field(k.obj, 'm_' + m))
        rel = lambda st: term(st.mem.get(mp, 64), st.mem)
        ref = lambda st, p: result(st, t, Ptr(HEAP, (Sel('h', p),)))
        old = rel(c.st)
        c.assume(z3.Not(OBJECT(old)), OLD(old))
        was = ref(c.st, old)
        c.assume(BOX(old), z3.Not(CTRL(old)))
        if t != 'Energetic':
            c.assume(z3.Implies(old != 0, z3.And(z3.Not(OBJECT(was[1])), z3.Not(BOX(was[1])), OLD(was[1]))))
        q = c.ptr('result')
        for fn in ('get', 'mget'):
            for o in nothrow(c, c.run(f'^{fn}_{n}_{m}$', [q, h.p], c.st.fork()), fn):
                got = result(o.st, t, q)
                if t == 'Energetic':
                    model_ = o.st.mem.get(q, 64)
                    empty = term(o.st.mem.get((model_ if isinstance(model_, Ptr) else Ptr(HEAP, (Sel('h', term(model_)),))).add(8), 64), o.st.mem) == 0
                    c.prove(o, f'{m}() refers to the object last set, or to none if there is none', z3.If(old == 0, empty, equal(got, was)))
                else:
                    c.prove(o, f'{m}() refers to the object last set, or to none if there is none', z3.If(old == 0, got[0] == 0, equal(got, was)))
                    c.prove(o, f'{m}() counts as one more handle', z3.Implies(z3.And(old != 0, was[1] != 0), term(o.st.mem.get(h.at(was[1]), 32)) == term(c.pre.mem.get(h.at(was[1]), 32)) + 1))
                frame(c, o, 'asking changes no object', only=OBJECT)
        v = c.ptr('value'); want = result(c.st, t, v)
        if t != 'Energetic':
            hv = UHandle(c, t, 'value', v); c.assume(z3.Not(OBJECT(want[1])), z3.Not(BOX(want[1])))
        for o in nothrow(c, c.run(f'^set_{n}_{m}$', [h.p, v], c.st.fork()), 'set'):
            st = o.st
            c.prove(o, f'{m} refers to the object that was set', z3.And(rel(st) != 0, equal(ref(st, rel(st)), want)))
            off = c.field(k.obj, 'm_' + m)
            frame(c, o, 'nothing else of the object or any other object changes', only=OBJECT, part=(x, off, off + 8))
    return f

def codes(c):
    h = UHandle(c, 'Hit', 'object'); x = h.obj(c.st); c.assume(x != 0)
    off = offset(c, 'Hit', 'codes')
    i = z3.BitVec('i', 64); v = z3.BitVec('v', 32)
    cell = lambda st, j: term(st.mem.get(h.at(x).add(off + 4 * j), 32), st.mem)
    pick = lambda st: z3.If(i == 0, cell(st, 0), z3.If(i == 1, cell(st, 1), z3.If(i == 2, cell(st, 2), cell(st, 3))))
    for j in range(4):
        cell(c.st, j)
    q = c.ptr('result')
    for fn in ('get', 'mget'):
        for o in c.run(f'^{fn}_Hit_code$', [q, h.p, i], c.st.fork()):
            if o.kind == 'throw':
                c.prove(o, 'access throws only beyond the end', z3.UGE(i, 4))
            else:
                c.prove(o, 'access beyond the end throws', z3.ULT(i, 4))
                c.prove(o, 'the element is returned', term(o.st.mem.get(q, 32)) == pick(c.pre))
            frame(c, o, 'access changes no object')
    for o in c.run('^set_Hit_code$', [h.p, i, v], c.st.fork()):
        if o.kind == 'throw':
            c.prove(o, 'setting throws only beyond the end', z3.UGE(i, 4))
            frame(c, o, 'nothing is changed then')
        else:
            c.prove(o, 'setting beyond the end throws', z3.ULT(i, 4))
            c.prove(o, 'the element is what was set, the others stay', z3.And(*[cell(o.st, j) == z3.If(i == j, v, cell(c.pre, j)) for j in range(4)]))
            frame_part(c, o, 'setting changes nothing else', x, off, off + 16)

def makes(n):
    mem, sub, one, mny, vecs = TYPES[n]
    k = Kind(n)
    def f(c):
        q = c.ptr('result'); h = UHandle(c, n, 'object', q, valid=False)
        args = []; want = {}
        for m, t in mem.items():
            p = c.ptr('arg_' + m); args.append(p)
            want[m] = [(a, w, term(c.st.mem.get(p.add(a) if a else p, w), c.st.mem)) for a, w in W[t]]
            if t == 'bool':
                c.assume(z3.ULE(want[m][0][2], 1))
        for fn in ('make', 'default'):
            for o in nothrow(c, c.run(f'^{fn}_{n}$', [q] + (args if fn == 'make' else []), c.st.fork()), 'construction'):
                st = o.st
                x = h.obj(st); op = h.at(x)
                c.prove(o, 'the handle is the only owner of a new object', z3.And(x != 0, h.ctrl(st) != 0, h.count(st) == 1, h.owned(st) == 1, z3.Not(OLD(x)), z3.Not(OLD(h.ctrl(st)))))
                at = lambda p, w=64: term(st.mem.get(p, w), st.mem)
                for m, t in mem.items():
                    if fn == 'make':
                        c.prove(o, f'{m} is the value given', z3.And(*[term(st.mem.get(op.add(offset(c, n, m) + a), w), st.mem) == v for a, w, v in want[m]]))
                for m in one:
                    c.prove(o, f'{m} is not set', term(st.mem.get(op.add(c.field(k.obj, 'm_' + m)), 64), st.mem) == 0)
                for m in list(mny) + list(vecs):
                    v = h.at(at(op.add(c.field(k.obj, 'm_' + m))))
                    c.prove(o, f'{m} is empty', z3.And(stdlib.vlen(st, v) == 0, term(st.mem.get(op.add(offset(c, n, m + '_begin')), 32)) == 0, term(st.mem.get(op.add(offset(c, n, m + '_end')), 32)) == 0, z3.Not(OLD(term(v, st.mem)))))
                c.prove(o, 'the object has no ID yet', z3.And(term(st.mem.get(op.add(c.field(k.obj, 'id')), 32)) == bvv(2**32 - 1, 32)))
                frame(c, o, 'no other object changes')
    return f

CONTRACTS = []
for n, (mem, sub, one, mny, vecs) in TYPES.items():
    CONTRACTS.append((f'constructors of {n}', makes(n)))
    CONTRACTS.append((f'getters and setters of the members of {n}', simple(n)))
    for m, t in one.items():
        CONTRACTS.append((f'{n}::{m}', single(n, m, t)))
    for m, t in list(mny.items()) + list(vecs.items()):
        CONTRACTS.append((f'{n}::{m}', many(n, m, t)))
CONTRACTS.append(('Hit::codes(i)', codes))
