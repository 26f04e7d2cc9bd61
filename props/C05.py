"""C05: unpacking stored data on demand"""
from props.frame import *
TITLE = 'A Frame unpacks stored data on demand, completely and once'
HARNESS = ['c05.cpp']

def doget(c, flag):
    p, s = c.string('name'); f = Frame(c, but=s)
    provider = repr(f.this.add(8))
    pre = c.st.fork()
    for o in nothrow_but(c, c.run(r'^podio::Frame::FrameModel<MemData>::doGet\(', [f.this, p, z3.BoolVal(flag)], c.st.fork())):
        st = o.st; ev = f.events(o); r = term(o.val, st.mem)
        kinds = [e[0] for e in ev]
        asked = [e for e in ev if e[0] == 'unpack']
        got = [e for e in asked if e[3] is not None]
        f.keeps(c, o)
        c.prove(o, 'a name that is neither unpacked nor stored gives nothing', (r == 0) == z3.Not(z3.Or(f.has(pre, s), f.raw(pre, s))))
        c.prove(o, 'what is returned is what the name now refers to', z3.Implies(r != 0, z3.And(f.has(st, s), f.at(st, s) == r)))
        c.prove(o, 'what was unpacked before stays', z3.ForAll([T], z3.Implies(f.has(pre, T), z3.And(f.has(st, T), f.at(st, T) == f.at(pre, T)))))
        c.prove(o, 'no name appears or vanishes', z3.ForAll([T], z3.Or(f.has(pre, T), f.raw(pre, T)) == z3.Or(f.has(st, T), f.raw(st, T))))
        c.prove(o, 'the raw data are asked at most once, for this name, and only if it is not unpacked yet', z3.And(z3.BoolVal(len(asked) <= 1), *[z3.And(e[2] == s, z3.Not(f.has(pre, s)), z3.BoolVal(e[1] == repr(f.data))) for e in asked]))
        if not got:
            c.prove(o, 'nothing is made, changed or freed', z3.And(z3.BoolVal(all(k == 'unpack' for k in kinds)), f.same(pre, st)))
            c.prove(o, 'stored data are unpacked', z3.Not(f.raw(pre, s)))
            continue
        v = got[0][3]
        of = lambda k: [e for e in ev if e[0] == k]
        pos = lambda k: kinds.index(k)
        subset = v[0] == 0
        ok = len(of('create')) == 1 and len(of('evolve')) <= 1
        c.prove(o, 'exactly one collection is made', ok)
        if not ok:
            continue
        cr = of('create')[0]; q = cr[4]
        c.prove(o, 'it is returned', r == q)
        c.prove(o, 'subset collections are made from the stored buffers, others from the evolved ones', z3.BoolVal(not of('evolve')) == subset)
        src = v
        for e in of('evolve'):
            c.prove(o, 'all buffers are handed to schema evolution', z3.And(*[x == y for x, y in zip(e[1][:3], v[:3])], e[1][6] == v[6], e[1][7] == v[7]))
            c.prove(o, 'they are evolved from their own version and type', z3.And(e[2] == v[3], e[3] == st.ghost['typestr']))
            c.prove(o, 'no lock is held meanwhile', e[5])
            src = e[4]
        c.prove(o, 'the creation function of the buffers makes the collection', cr[1] == src[6])
        c.prove(o, 'it is given the complete buffers', z3.And(*[x == y for x, y in zip(cr[2][:3], src[:3])]))
        c.prove(o, 'it is told whether this is a subset collection', term_bool(cr[3]) == subset)
        one = lambda k: len(of(k)) == 1
        c.prove(o, 'the collection is prepared and identified exactly once', one('prepareAfterRead') and one('setID'))
        if not (one('prepareAfterRead') and one('setID')):
            continue
        c.prove(o, 'the collection is prepared', of('prepareAfterRead')[0][1] == q)
        c.prove(o, 'its ID is the one recorded for the name', z3.And(of('setID')[0][1] == q, of('setID')[0][2] == TID(s)))
        looked = [e for e in ev if e[0] == 'id']
        c.prove(o, 'the ID is looked up in the table of the Frame', z3.And(z3.BoolVal(len(looked) >= 1 and all(e[1] == repr(f.table) for e in looked)), *[e[2] == s for e in looked]))
        refs = of('setReferences')
        c.prove(o, 'its relations are resolved once' if flag else 'its relations are left to the caller', z3.BoolVal(len(refs) == (1 if flag else 0)))
        for e in refs:
            c.prove(o, 'they are resolved by this Frame', z3.And(e[1] == q, z3.BoolVal(e[2] == provider)))
            c.prove(o, 'no lock is held while other collections may be asked for', e[3])
            for k, x in f.inv(e[4]).items():
                c.prove(o, 'while its relations are resolved: ' + k, x)
            c.prove(o, 'the collection can be found while its relations are resolved', z3.And(f.has(e[4], s), f.at(e[4], s) == q))
            c.prove(o, 'it is prepared and identified before its relations are resolved', z3.BoolVal(max(pos('prepareAfterRead'), pos('setID')) < pos('setReferences')))
        c.prove(o, 'nothing is freed', z3.BoolVal(not of('destroy') and not [x for e in of('deleted') for x in [e]]))
        if not flag:
            c.prove(o, 'only this name changes', z3.And(f.same(pre, st, but=s)))

T = z3.Const('T', StrS)
def term_bool(x): return x if z3.is_bool(x) else term(x) != 0
def nothrow_but(c, outs):
    for o in outs:
        if o.kind == 'throw':
            c.prove(o, 'asking for a collection does not throw', False)
        else:
            yield o

def by_id(c):
    """what resolves relations: a collection by its ID"""
    f = Frame(c); f.by_contract()
    i = c.bv('id', 32); r = c.ptr('result'); old = term(c.st.mem.get(r, 64), c.st.mem)
    pre = c.st.fork()
    for o in nothrow_but(c, c.run(r'^podio::Frame::FrameModel<MemData>::get\(unsigned int, podio::CollectionBase\*&\) const$', [f.this, i, r], c.st.fork())):
        st = o.st; ok = boolean(o); new = term(st.mem.get(r, 64), st.mem); n = TNAME(i)
        f.keeps(c, o)
        there = z3.And(KNOWN(i), z3.Or(f.has(pre, n), f.raw(pre, n)))
        c.prove(o, 'an ID is found exactly if there is a collection with the name recorded for it', ok == there)
        c.prove(o, 'the collection with this name is given', z3.Implies(ok, z3.And(new == f.at(st, n), f.has(st, n))))
        c.prove(o, 'nothing is given otherwise', z3.Implies(z3.Not(ok), new == old))
        c.prove(o, 'no name appears or vanishes', z3.ForAll([T], z3.Or(f.has(pre, T), f.raw(pre, T)) == z3.Or(f.has(st, T), f.raw(st, T))))
        c.prove(o, 'what was unpacked before stays', z3.ForAll([T], z3.Implies(f.has(pre, T), z3.And(f.has(st, T), f.at(st, T) == f.at(pre, T)))))
        for e in f.events(o):
            if e[0] == 'doGet':
                c.prove(o, 'what is still raw gets its relations resolved, too', z3.Implies(f.raw(pre, e[1]), e[2]))
                c.prove(o, 'no lock is held while it is unpacked', e[4])
                c.prove(o, 'it is asked for by the name recorded for the ID', e[1] == n)
                for k, x in f.inv(e[5], n).items():
                    c.prove(o, 'when it is asked for: ' + k, x)
            elif e[0] != 'name':
                c.prove(o, 'nothing else happens', False)

def by_name(c):
    f = Frame(c); f.by_contract(); p, s = c.string('name')
    pre = c.st.fork()
    for fn in ('^get$', '^forWrite$'):
        for o in nothrow_but(c, c.run(fn, [f.frame, p], c.st.fork())):
            st = o.st; r = term(o.val, st.mem)
            f.keeps(c, o)
            c.prove(o, 'a collection is found exactly if its name is there', (r != 0) == z3.Or(f.has(pre, s), f.raw(pre, s)))
            c.prove(o, 'it is the one with this name', z3.Implies(r != 0, z3.And(f.has(st, s), r == f.at(st, s))))
            c.prove(o, 'what is unpacked gets its relations resolved', z3.And(*[z3.And(e[1] == s, z3.Or(e[2], f.has(pre, s))) for e in f.events(o) if e[0] == 'doGet']))
            prep = [e for e in f.events(o) if e[0] == 'prepareForWrite']
            c.prove(o, 'it is prepared for writing if that is asked for', z3.And(z3.BoolVal(len(prep) == (1 if fn == '^forWrite$' else 0)) == (r != 0) if fn == '^forWrite$' else z3.BoolVal(not prep), *[e[1] == r for e in prep]))

def construct(c):
    f = Frame(c)
    r, d = c.ptr('new_frame'), c.ptr('given'); data = c.bv('given_data')
    st0 = c.st.fork(); st0.mem.put(d, 64, data); st0.assume(z3.Or(data == 0, OLD(data)))
    moved = []
    def assign(eng, st, a, ins, dem):
        st.events.append(('table moved', repr(a[0]), repr(a[1])))
        return a[0]
    c.eng.contracts.append((lambda x: x.startswith('podio::CollectionIDTable::operator=('), assign))
    for o in c.run('^make$', [r, d], st0):
        st = o.st; ev = st.events
        if o.kind == 'throw':
            c.prove(o, 'construction fails exactly without data', data == 0); continue
        c.prove(o, 'construction fails exactly without data (succeeds)', data != 0)
        m = st.mem.get(r, 64)
        ok = isinstance(m, Ptr) and m.root.kind == 'new' and not m.steps
        c.prove(o, 'the Frame has a model of its own', ok)
        if not ok:
            continue
        at = lambda x: m.add(c.field(FM, x))
        c.prove(o, 'it takes over the data', z3.And(term(st.mem.get(at('m_data'), 64), st.mem) == data, term(st.mem.get(d, 64), st.mem) == 0))
        mx = [st.mem.get(at(x), 64) for x in ('m_mapMtx', 'm_dataMtx')]
        c.prove(o, 'it has two locks', all(isinstance(x, Ptr) and x.root.kind == 'new' for x in mx) and mx[0].root is not mx[1].root)
        c.prove(o, 'no collection is unpacked yet', z3.ForAll([T], z3.Not(z3.Select(stdlib.mhas(c.eng, st, at('m_collections'), STR), T))))
        i = z3.BitVec('i32', 32)
        c.prove(o, 'no collection was retrieved yet', z3.ForAll([i], z3.Not(z3.Select(stdlib.mhas(c.eng, st, at('m_retrievedIDs'), 'unsigned int'), i))))
        c.prove(o, 'the parameters are those of the data', term(st.mem.get(at('m_parameters'), 64), st.mem) == term(c.ptr('given_parameters')) if False else repr(st.mem.get(at('m_parameters'), 64)) == repr(f.given))
        c.prove(o, 'the ID table is that of the data', [e[0] for e in ev if e[0] in ('getIDTable', 'table moved')] == ['getIDTable', 'table moved'] and [e for e in ev if e[0] == 'table moved'][0][1] == repr(at('m_idTable')) and [e[2] for e in ev if e[0] == 'table moved'] == [e[2] for e in ev if e[0] == 'getIDTable'])

CONTRACTS = [('doGet, resolving relations', lambda c: doget(c, True)), ('doGet, without relations', lambda c: doget(c, False)), ('get by ID', by_id), ('get by name', by_name), ('construction', construct)]
ASSUMPTIONS = ['std::unordered_map, std::vector, std::optional, std::unique_ptr and std::mutex fulfil their standard contracts', 'the raw data type is the MemData stand-in of the harness (any type with the documented FrameData interface is used only through that interface; it hands out the buffers of each name at most once and its names are in its ID table)', 'virtual functions of collections are called by contract (prepareAfterRead, setReferences and friends are the subject of C11, C13 and C14)', 'two names have different IDs (known finding hash-collision of C02)', 'one thread at a time (see C25)', 'that all relations are resolved is proved by collection type in C11/C13/C14 and C16; here that each is asked to resolve them exactly once, with the Frame as provider']
NOTE = 'doGet (both modes), get by ID, get by name and the construction from raw data are proved for every state of the Frame and every raw data; the composition over several collections with cyclic relations is covered by the run-time contracts of the harness (bounded).'
MODEL = True
