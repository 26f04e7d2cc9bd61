"""C25: shared contents are only touched under their lock"""
from props.common import *
from props import frame as FR, C03, C02
TITLE = 'Shared stores are only touched while their lock is held'
HARNESS = [('c25.cpp', {'flags': ['-std=c++20', '-O1', '-g1', '-fno-omit-frame-pointer', '-fsanitize=thread', '-w', '-pthread']})]
MODEL = True
def modules(b):
    return C03.modules(b) + [f'{B.REPO}/src/CollectionIDTable.cc'] + FR.modules(b)

class Guards:
    """parts of objects (root, from, to) and the locks of which one must be held whenever they are touched"""
    def __init__(g, c):
        g.c, g.parts, g.touched = c, [], []
        c.eng.access = g.access
    def add(g, name, p, lo, size, *locks):
        g.parts.append((name, p.root, lo, lo + size, locks))
    def access(g, eng, st, p, write, what):
        for name, root, lo, hi, locks in g.parts:
            if p.root is root:
                k = p.steps[0] if p.steps and isinstance(p.steps[0], int) else 0
                if lo <= k < hi:
                    held = st.ghost.get('locks', ())
                    g.touched.append((name, any(stdlib.lockid(eng, st, m) in held for m in locks), what, st.frames[-1].f.name if st.frames else ''))
    def check(g, outs, must=None):
        c = g.c
        for name in sorted({x[0] for x in g.touched}):
            bad = sorted({(w, f) for n, ok, w, f in g.touched if n == name and not ok})
            c.prove(c.st, f'{name}: touched only while the lock is held' + (f' ({bad[0][0][:60]} in {c.eng.dem(bad[0][1])[:60]})' if bad else ''), not bad)
        c.prove(c.st, 'the function touches what is guarded', bool(g.touched) and (must is None or must in {x[0] for x in g.touched}))
        for o in outs:
            c.prove(o, 'no lock is held afterwards' + (' (exception)' if o.kind == 'throw' else ''), not o.st.ghost.get('locks', ()))
        g.touched = []

def store(c, g, p, tag):
    for n, (t, m, w) in C03.TY.items():
        mx = c.ptr(f'{tag}_{n}_mutex')
        c.st.mem.put(p.add(c.field(C03.CLS, f'm_{n}Mtx')), 64, mx)
        g.add(f'{n} parameters', p, c.field(C03.CLS, m), 48, mx)

def parameters(n, fn):
    def f(c):
        g = Guards(c); s = C03.Store(c); s.touch(c.st); store(c, g, s.p, 'store')
        kp, k = c.string('key')
        if fn in ('set', 'setv'):
            vp, v = C03.value(c, n) if fn == 'set' else (c.ptr('values'), None)
            args = [s.p, kp, vp]
        elif fn in ('has', 'hasv'):
            args = [s.p, kp, c.ptr('result')]
        elif fn == 'load':
            a, b = c.vec(c.ptr('keys')), c.vec(c.ptr('lists'))
            c.assume(a.len(c.st) == b.len(c.st))
            args = [s.p, a.p, b.p]
        elif fn == 'getN':
            args = [s.p, kp]
        else:
            args = [s.p, c.ptr('result')]
        g.check(c.run(f'^{fn}_{n}$', args), f'{n} parameters')
    return f

def copying(c):
    g = Guards(c); s = C03.Store(c); s.touch(c.st); store(c, g, s.p, 'store')
    g.check(c.run('^copy_store$', [s.p, c.ptr('copy')]))

def idtable(pat, kind):
    def f(c):
        use_hash(c); g = Guards(c); t = Table(c); t.assume()
        mx = c.ptr('table_mutex')
        c.st.mem.put(t.this.add(c.field(TABLE, 'm_mutex')), 64, mx)
        for m in ('m_collectionIDs', 'm_names'):
            g.add(m, t.this, c.field(TABLE, m), 24, mx)
        p, s = c.string('name'); r = c.ptr('result'); i = c.bv('id', 32)
        g.check(c.run(pat, {'n': [t.this, p], 'i': [t.this, i], 'ri': [r, t.this, i]}[kind]))
    return f

def fr(call):
    def f(c):
        g = Guards(c); p, s = c.string('name'); f = FR.Frame(c, but=s)
        if call[:5] not in ('doGet',):
            f.by_contract()
        at = lambda m: c.field(FR.FM, m)
        g.add('collections', f.this, at('m_collections'), at('m_mapMtx') - at('m_collections'), f.mapMtx)
        g.add('retrieved IDs', f.this, at('m_retrievedIDs'), 48, f.mapMtx)
        g.add('raw data', f.data, 0, 1 << 40, f.dataMtx)
        data = []
        u = c.ptr('given'); q = c.bv('collection')
        c.st.mem.put(u, 64, Ptr(HEAP, (Sel('h', q),)))
        c.assume(q != 0)
        r = c.ptr('result')
        FNS = 'podio::Frame::FrameModel<MemData>::'
        pat, args = {'doGet': ('^' + FNS + r'doGet\(', [f.this, p, z3.BoolVal(True)]), 'doGet2': ('^' + FNS + r'doGet\(', [f.this, p, z3.BoolVal(False)]),
                     'byid': ('^' + FNS + r'get\(unsigned int, podio::CollectionBase\*&\) const$', [f.this, c.bv('id', 32), r]),
                     'put': ('^put$', [f.frame, u, p]), 'available': ('^available$', [r, f.frame]), 'name': ('^name$', [r, f.frame, c.bv('id', 32)]), 'forWrite': ('^forWrite$', [f.frame, p])}[call]
        outs = c.run(pat, args)
        seen = False
        for o in outs:
            for e in o.st.events:
                if e[0] in ('unpack', 'rawnames'):
                    seen = True
                    c.prove(o, 'the raw data are asked only while their lock is held', e[-1])
                if e[0] == 'table from':
                    seen = True
                    c.prove(o, 'the ID table is copied only while no name can be added', e[3])
                if e[0] == 'add':
                    c.prove(o, 'names are added to the ID table only while it cannot be copied', e[3])
                if e[0] in ('doGet', 'setReferences', 'create', 'evolve'):
                    seen = True
        if not g.touched and seen:
            for o in outs:
                c.prove(o, 'no lock is held afterwards', not o.st.ghost.get('locks', ()))
        else:
            g.check(outs)
    return f

CONTRACTS = []
for n in C03.TY:
    for fn, what in (('set', 'set'), ('setv', 'set of a vector'), ('has', 'get'), ('hasv', 'get of a vector'), ('getN', 'getN'), ('keys', 'getKeys'), ('kv', 'getKeysAndValues'), ('load', 'loadFrom')):
        CONTRACTS.append((f'GenericParameters {what}, {n}', parameters(n, fn)))
CONTRACTS.append(('GenericParameters copy', copying))
CONTRACTS += [('CollectionIDTable::add', idtable(r'^podio::CollectionIDTable::add\(', 'n')), ('CollectionIDTable::name', idtable(r'^podio::CollectionIDTable::name\(', 'ri')), ('CollectionIDTable::collectionID', idtable(r'^podio::CollectionIDTable::collectionID\(', 'n')),
              ('CollectionIDTable::present, name', idtable(r'^podio::CollectionIDTable::present\(std', 'n')), ('CollectionIDTable::present, ID', idtable(r'^podio::CollectionIDTable::present\(unsigned', 'i'))]
CONTRACTS += [(f'Frame {n}', fr(k)) for n, k in (('doGet', 'doGet'), ('doGet without relations', 'doGet2'), ('get by ID', 'byid'), ('put', 'put'), ('getAvailableCollections', 'available'), ('getName', 'name'), ('getCollectionForWrite', 'forWrite'))]
ASSUMPTIONS = ['mutual exclusion: a mutex is held by one thread at a time', 'GenericParameters::clear, empty, print, getMap and the moves, CollectionIDTable::ids, names and empty are not meant to be used while another thread changes the object', 'the objects of collections are not guarded: what the relations of a collection refer to is resolved after the collection can be found (see P07)']
NOTE = 'for every listed operation each access to guarded contents (each load, store and container operation on any path, in loops as well) is checked against the set of locks held at that point; the harness runs the operations from several threads under ThreadSanitizer.'
