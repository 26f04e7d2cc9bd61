"""C15: iteration and indexing"""
from props.common import *
from props import C09
TITLE = 'Iteration and indexing visit every element once, in order'
HARNESS = ['c15.cpp']
ASSUMPTIONS = C09.ASSUMPTIONS + ['iterator positions are only compared and subtracted within one collection', 'termination of loops is not proved (partial correctness); std::reverse_iterator is executed as it is in the headers']
NOTE = 'iterator positions, access, comparison and differences, range-for and reverse iteration and the member-wise vector access are proved for every collection of four generated datatypes and a link collection; collections of other datatypes come from the same templates.'
ALL = C09.ALL
ID = 'static uint64_t packed(podio::ObjectID i) { return uint64_t(uint32_t(i.index)) | uint64_t(i.collectionID) << 32; }\n'
CLIENT = MODEL_INC + LINK_INC + '#include <new>\n#include <iterator>\n' + ID + 'extern "C" {\n'
OPS = {  # name: (expression for a bool or number, its meaning for positions k and j of a list with n entries)
    'diff': ('ptrdiff_t', '(b + k) - (b + j)', lambda k, j, n: k - j),
    'back': ('ptrdiff_t', '((b + k) - j) - b', lambda k, j, n: k - j),
    'front': ('ptrdiff_t', '(j + (b + k)) - b', lambda k, j, n: k + j),
    'eq': ('bool', '(b + k) == (b + j)', lambda k, j, n: k == j),
    'ne': ('bool', '(b + k) != (b + j)', lambda k, j, n: k != j),
    'lt': ('bool', '(b + k) < (b + j)', lambda k, j, n: k < j),
    'le': ('bool', '(b + k) <= (b + j)', lambda k, j, n: k <= j),
    'gt': ('bool', '(b + k) > (b + j)', lambda k, j, n: k > j),
    'ge': ('bool', '(b + k) >= (b + j)', lambda k, j, n: k >= j),
    'len': ('ptrdiff_t', 'c.end() - b', lambda k, j, n: n),
    'atend': ('bool', '(b + k) == c.end()', lambda k, j, n: k == n),
    'addassign': ('ptrdiff_t', '({ auto x = b + k; auto& y = (x += j); &y == &x ? x - b : -1; })', lambda k, j, n: k + j),
    'subassign': ('ptrdiff_t', '({ auto x = b + k; auto& y = (x -= j); &y == &x ? x - b : -1; })', lambda k, j, n: k - j),
    'preinc': ('ptrdiff_t', '({ auto x = b + k; auto& y = ++x; &y == &x ? x - b : -1; })', lambda k, j, n: k + 1),
    'predec': ('ptrdiff_t', '({ auto x = b + k; auto& y = --x; &y == &x ? x - b : -9; })', lambda k, j, n: k - 1),
    'postinc': ('ptrdiff_t', '({ auto x = b + k; auto y = x++; y - b; })', lambda k, j, n: k),
    'postinc2': ('ptrdiff_t', '({ auto x = b + k; x++; x - b; })', lambda k, j, n: k + 1),
    'postdec': ('ptrdiff_t', '({ auto x = b + k; auto y = x--; y - b; })', lambda k, j, n: k),
    'postdec2': ('ptrdiff_t', '({ auto x = b + k; x--; x - b; })', lambda k, j, n: k - 1),
    'copy': ('ptrdiff_t', '({ auto x = b; x = b + k; auto y(x); y - b; })', lambda k, j, n: k),
}
for n in ALL:
    k = Kind(n)
    for q, con, T in (('', '', k.M), ('c', 'const ', k.T)):
        for name, (ty, ex, _) in OPS.items():
            CLIENT += f'{ty} {q}{name}_{n}({con}{k.C}& c, ptrdiff_t k, ptrdiff_t j) {{ auto b = c.begin(); return {ex}; }}\n'
        CLIENT += f'''void {q}deref_{n}({T}* r, {con}{k.C}& c, ptrdiff_t k) {{ new (r) {T}(*(c.begin() + k)); }}
void {q}arrow_{n}({T}* r, {con}{k.C}& c, ptrdiff_t k) {{ auto x = c.begin() + k; new (r) {T}(*x.operator->()); }}
void {q}sub_{n}({T}* r, {con}{k.C}& c, ptrdiff_t k, ptrdiff_t j) {{ auto x = c.begin() + k; new (r) {T}(x[j]); }}
void {q}rderef_{n}({T}* r, {con}{k.C}& c, ptrdiff_t k) {{ new (r) {T}(*(c.rbegin() + k)); }}
size_t {q}each_{n}({con}{k.C}& c, uint64_t* out) {{ size_t i = 0; for (auto x : c) out[i++] = packed(x.getObjectID()); return i; }}
size_t {q}reach_{n}({con}{k.C}& c, uint64_t* out) {{ size_t i = 0; for (auto x = c.rbegin(); x != c.rend(); ++x) out[i++] = packed((*x).getObjectID()); return i; }}
'''
MEMBERS = {'Hit': [('energy', 'double', 64), ('cellID', 'unsigned long long', 64), ('weight', 'float', 32)], 'Cluster': [('energy', 'double', 64)], 'Part': [('energy', 'double', 64), ('pdg', 'int', 32)], 'Info': [('number', 'int', 32), ('big', 'uint64_t', 64), ('energy', 'double', 64)]}
for n, l in MEMBERS.items():
    for m, ty, w in l:
        CLIENT += f'void vec_{m}_{n}(std::vector<{ty}>* r, const {Kind(n).C}& c, size_t k) {{ new (r) std::vector<{ty}>(c.{m}(k)); }}\n'
CLIENT += '}\n'
modules = model(CLIENT, r'/(Mutable)?(Hit|Cluster|Part|Info)(Collection|CollectionData|Obj)?\.cc', '/DatamodelLinks.cc')

def positions(n):
    def f(c):
        t = Coll(c, n); t.assume()
        k, j = c.bv('k'), c.bv('j')
        lim = bvv(1 << 40)
        c.assume(k >= 0, k < lim, j >= 0, j < lim, k - j >= 0)
        for q in ('', 'c'):
            for name, (ty, ex, spec) in OPS.items():
                st = c.st.fork()
                for o in nothrow(c, c.run(f'^{q}{name}_{n}$', [t.this, k, j], st), 'iterator arithmetic'):
                    want = spec(k, j, t.n(c.pre))
                    c.prove(o, f'positions: {ex} means what it means for integers', boolean(o) == want if ty == 'bool' else term(o.val) == want)
                    c.prove(o, 'the collection stays as it is', t.kept(c.pre, o.st))
    return f

def elements(n):
    def f(c):
        t = Coll(c, n); t.assume()
        k, j = c.bv('k'), c.bv('j'); r = c.ptr('result'); h = UHandle(c, n, 'result', r, False)
        cases = [('deref', [k], k, 'dereferencing position k gives the element at index k'), ('arrow', [k], k, 'operator-> gives the element at its position'), ('sub', [k, j], k + j, 'subscripting an iterator counts from its position'), ('rderef', [k], t.n(c.st) - 1 - k, 'position k from the back is the element k places before the last one')]
        for q in ('', 'c'):
            for name, args, i, what in cases:
                st = c.st.fork()
                st.assume(k >= 0, z3.ULT(k, t.n(st)), z3.ULT(i, t.n(st)), j < bvv(1 << 40), j > bvv(-(1 << 40)))
                for o in nothrow(c, c.run(f'^{q}{name}_{n}$', [r, t.this] + args, st), 'access through an iterator'):
                    c.prove(o, what, z3.And(h.obj(o.st) == t.entry(c.pre, i), h.ctrl(o.st) == 0))
                    c.prove(o, 'the collection stays as it is', t.kept(c.pre, o.st))
    return f

def visits(n):
    def f(c):
        t = Coll(c, n); t.assume(); out = c.ptr('out')
        i = z3.BitVec('i', 64)
        c.eng.unroll = 0
        for q in ('', 'c'):
            for name, at, what in (('each', lambda p, i: t.entry(p, i), 'a range-for loop visits every element once in index order'), ('reach', lambda p, i: t.entry(p, t.n(p) - 1 - i), 'reverse iterators visit every element once from the last to the first')):
                for o in nothrow(c, c.run(f'^{q}{name}_{n}$', [t.this, out], c.st.fork()), 'iterating'):
                    pre, st = c.pre, o.st
                    got = term(st.mem.get(Ptr(out.root, ('#arr', Sel('e', i, 8))), 64), st.mem)
                    e = at(pre, i)
                    c.prove(o, what, z3.And(term(o.val) == t.n(pre), z3.ForAll([i], z3.Implies(z3.ULT(i, t.n(pre)), got == z3.Concat(t.cid(pre, e), t.index(pre, e))))))
                    c.prove(o, 'the collection stays as it is', t.kept(pre, st))
    return f

def columns(n, m, ty, w):
    def f(c):
        t = Coll(c, n); t.assume(); r = c.ptr('result'); k = c.bv('count'); i = z3.BitVec('i', 64)
        d = c.field(t.k.obj, 'data') + c.field(KINDS[n] + 'Data', m)
        val = lambda st, x: term(st.mem.get(t.objp(x).add(d), w))
        val(c.st, bvv(1))
        for o in nothrow(c, c.run(f'^vec_{m}_{n}$', [r, t.this, k]), 'vector access'):
            pre, st = c.pre, o.st
            N = t.n(pre)
            want = z3.If(z3.Or(k == 0, z3.ULT(N, k)), N, k)
            c.prove(o, 'there is one value per object (of the first objects if a number is given)', stdlib.vlen(st, r) == want)
            c.prove(o, 'the values are those of the objects in order', z3.ForAll([i], z3.Implies(z3.ULT(i, want), term(st.mem.get(r.elem(i, w // 8), w), st.mem) == val(pre, t.entry(pre, i)))))
            c.prove(o, 'the collection stays as it is', t.kept(pre, st))
            frame(c, o, 'no object changes')
    return f

CONTRACTS = []
for n in ALL:
    C = Kind(n).coll
    CONTRACTS += [(f'{C} iterator positions', positions(n)), (f'{C} iterator access', elements(n)), (f'{C} iteration', visits(n))]
    CONTRACTS += [(f'{C}::{m} (vector access)', columns(n, m, ty, w)) for m, ty, w in MEMBERS.get(n, [])]
for n in ALL:
    CONTRACTS.append((f'{Kind(n).coll} element access', C09.access(n)))
for n in ALL:
    k = Kind(n)
    CLIENT += f'''extern "C" {{
size_t size_{n}(const {k.C}& c) {{ return c.{k.C if n != 'Link' else k.coll}::size(); }}
bool empty_{n}(const {k.C}& c) {{ return c.{k.C if n != 'Link' else k.coll}::empty(); }}
void index_{n}({k.M}* r, {k.C}& c, size_t i) {{ new (r) {k.M}(c[i]); }}
void cindex_{n}({k.T}* r, const {k.C}& c, size_t i) {{ new (r) {k.T}(c[i]); }}
void at_{n}({k.M}* r, {k.C}& c, size_t i) {{ new (r) {k.M}(c.at(i)); }}
void cat_{n}({k.T}* r, const {k.C}& c, size_t i) {{ new (r) {k.T}(c.at(i)); }}
}}
'''
modules = model(CLIENT, r'/(Mutable)?(Hit|Cluster|Part|Info)(Collection|CollectionData|Obj)?\.cc', '/DatamodelLinks.cc')
