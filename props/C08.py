"""C08: datamodel registry"""
from props.common import *
TITLE = 'The datamodel registry returns each registered definition unchanged'
HARNESS = [('c08.cpp', {'model': False})]
modules = core('DatamodelRegistry.cc', 'DatamodelRegistryIOHelpers.cc')
MODEL = False
ASSUMPTIONS = ['the names, definitions and lists of relation names passed in at registration outlive the registry (generated code passes objects of static storage duration)', 'fewer than 2^31 datamodels']
NOTE = 'registration and every lookup are proved against lists and maps for every state of the registry; the loop that stores relation names by a loop invariant.'
CLS = 'podio::DatamodelRegistry'

VER = 'podio::version::Version'

def sv_at(c, st, p):
    """string_view object at p: its contents as a string"""
    return stdlib.view(c.eng, st, term(st.mem.get(p, 64)), st.mem.get(p.add(8), 64))

class Reg:
    def __init__(t, c, this=None):
        t.c = c; t.this = this or c.ptr('registry')
        f = lambda n: t.this.add(c.field(CLS, n))
        t.defs = c.vec(f('m_definitions'))
        t.rel = MapView(c, f('m_relations'), stdlib.SVIEW, 'podio::RelationNames')
        t.ver = MapView(c, f('m_datamodelVersions'), STR, VER)
        t.z = 48
    def n(t, st): return t.defs.len(st)
    def el(t, i): return t.defs.p.elem(i, t.z)
    def name(t, st, i): return st.mem.get(t.el(i).sub('#str'), StrS)
    def len(t, st, i): return st.mem.get(t.el(i).add(32), 64)
    def dat(t, st, i): return term(st.mem.get(t.el(i).add(40), 64), st.mem)
    def has(t, st, s):
        i = z3.BitVec('i', 64)
        return z3.Exists([i], z3.And(z3.ULT(i, t.n(st)), t.name(st, i) == s))
    def distinct(t, st):
        i, j = z3.BitVecs('i j', 64)
        return z3.ForAll([i, j], z3.Implies(z3.And(z3.ULT(i, t.n(st)), z3.ULT(j, t.n(st)), i != j), t.name(st, i) != t.name(st, j)))
    def assume(t):
        t.len(t.c.st, bvv(0)); t.dat(t.c.st, bvv(0)); t.name(t.c.st, bvv(0))
        t.c.assume(t.distinct(t.c.st), z3.ULT(t.n(t.c.st), bvv(1 << 31)))
    def kept(t, a, b):
        i = z3.BitVec('i', 64)
        return z3.ForAll([i], z3.Implies(z3.ULT(i, t.n(a)), z3.And(t.name(a, i) == t.name(b, i), t.len(a, i) == t.len(b, i), t.dat(a, i) == t.dat(b, i))))
    def rels(t, st, k): return term(st.mem.get(t.rel.val(k), 64), st.mem)
    def vecs(t, st, k): return term(st.mem.get(t.rel.val(k).add(8), 64), st.mem)
    def relkept(t, a, b):
        k = z3.Const('k', StrS)
        return z3.ForAll([k], z3.And(t.rel.has(a, k) == t.rel.has(b, k), z3.Implies(t.rel.has(a, k), z3.And(t.rels(a, k) == t.rels(b, k), t.vecs(a, k) == t.vecs(b, k)))))


def rows(c, p):
    """list of (type name, relation names, vector member names) seen through its abstraction"""
    m = c.vec(p)
    key = lambda st, i: sv_at(c, st, m.p.elem(i, 64).add(48))
    return m, key

def addr(c, st, p):
    return term(p, st.mem)

REG3 = r'^podio::DatamodelRegistry::registerDatamodel\(((?!podio::version).)*\)$'
REG4 = r'^podio::DatamodelRegistry::registerDatamodel\(.*, podio::version::Version\)$'
# where the vectors of a row are, relative to the start of the row (std::tuple stores its last element first)
OFF_REL, OFF_VEC = 24, 0

def register(c):
    t = Reg(c); t.assume()
    p, s = c.string('name'); dl, dp = c.bv('deflen'), c.bv('defptr')
    m, key = rows(c, c.ptr('relationNames'))
    i, j = z3.BitVecs('i j', 64); k = z3.Const('k', StrS)
    N = m.len(c.st)
    c.assume(z3.ULT(N, bvv(1 << 31)))
    key(c.st, bvv(0)); t.rels(c.st, z3.Const('k0', StrS)); t.vecs(c.st, z3.Const('k0', StrS))
    pre0 = c.st.fork()
    rel = lambda st, i: addr(c, st, m.p.elem(i, 64).add(OFF_REL))
    vec = lambda st, i: addr(c, st, m.p.elem(i, 64).add(OFF_VEC))
    FIRST = z3.Function('first_row', StrS, z3.BitVecSort(64))
    # FIRST(k): the first row with type name k (definition)
    c.assume(z3.ForAll([i], z3.Implies(z3.ULT(i, N), z3.And(z3.ULE(FIRST(key(pre0, i)), i), key(pre0, FIRST(key(pre0, i))) == key(pre0, i)))))
    def spec(st, n):
        """the relation names of the first n rows have been added to those known before"""
        new = lambda k: z3.And(z3.ULT(FIRST(k), n), key(pre0, FIRST(k)) == k)
        return [('no more rows are read than there are', z3.ULE(n, N)), ('types known are those known before and those of the rows seen', z3.ForAll([k], t.rel.has(st, k) == z3.Or(t.rel.has(pre0, k), new(k)))),
                ('known types keep their relation and vector member names', z3.ForAll([k], z3.Implies(t.rel.has(pre0, k), z3.And(t.rels(st, k) == t.rels(pre0, k), t.vecs(st, k) == t.vecs(pre0, k))))),
                ('new types get the names of their row', z3.ForAll([k], z3.Implies(z3.And(z3.Not(t.rel.has(pre0, k)), new(k)), z3.And(t.rels(st, k) == rel(pre0, FIRST(k)), t.vecs(st, k) == vec(pre0, FIRST(k))))))]
    c.eng.loop_invariants.append(lambda eng, st, fr, n: spec(st, n) if fr.f.dem.startswith('podio::DatamodelRegistry::registerDatamodel') else None)
    for o in c.run(REG3, [t.this, p, dl, Ptr(HEAP, (Sel('h', dp),)), m.p]):
        pre, st = c.pre, o.st
        if o.kind == 'throw':
            c.prove(o, 'registration does not throw', False); continue
        r = term(o.val); n = t.n(pre)
        c.prove(o, 'datamodels registered before keep their index, name and definition', z3.And(t.kept(pre, st), z3.UGE(t.n(st), n)))
        c.prove(o, 'a known name gives its index and adds nothing', z3.Implies(t.has(pre, s), z3.And(z3.ULT(r, n), t.name(pre, r) == s, t.n(st) == n)))
        c.prove(o, 'a new name gets the next index with its definition', z3.Implies(z3.Not(t.has(pre, s)), z3.And(r == n, t.n(st) == n + 1, t.name(st, n) == s, t.len(st, n) == dl, t.dat(st, n) == dp)))
        c.prove(o, 'names stay pairwise distinct', t.distinct(st))
        c.prove(o, 'a known name changes no relation names', z3.Implies(t.has(pre, s), t.relkept(pre, st)))
        for l, q in spec(st, N):
            c.prove(o, 'a new name: ' + l, z3.Implies(z3.Not(t.has(pre, s)), q))
        c.prove(o, 'no version is recorded or changed', verkept(c, t, pre, st))

def ver(t, st, k): return [st.mem.get(t.ver.val(k).add(o), 16) for o in (0, 2, 4)]
def verkept(c, t, a, b, but=None):
    k = z3.Const('k', StrS)
    q = z3.And(t.ver.has(a, k) == t.ver.has(b, k), z3.Implies(t.ver.has(a, k), z3.And(*[x == y for x, y in zip(ver(t, a, k), ver(t, b, k))])))
    return z3.ForAll([k], q if but is None else z3.Implies(k != but, q))

def register_version(c):
    t = Reg(c); t.assume()
    p, s = c.string('name'); dl, dp = c.bv('deflen'), c.bv('defptr')
    m, key = rows(c, c.ptr('relationNames'))
    v = c.bv('version', 48)
    ret = z3.BitVec('index', 64)
    def reg3(eng, st, a, ins, dem):
        st.events.append(('reg', stdlib.get_str(eng, st, a[1]), term(a[2]), term(a[3], st.mem), term(a[4], st.mem)))
        return ret
    c.eng.contracts.append((lambda d: re.search(REG3, d), reg3))
    ver(t, c.st, s)
    for o in c.run(REG4, [t.this, p, dl, Ptr(HEAP, (Sel('h', dp),)), m.p, v]):
        pre, st = c.pre, o.st
        if o.kind == 'throw':
            c.prove(o, 'registration does not throw', False); continue
        seen = [e[1:] for e in st.events if e[0] == 'reg']
        c.prove(o, 'the datamodel is registered once with these arguments', len(seen) == 1 and z3.And(seen[0][0] == s, seen[0][1] == dl, seen[0][2] == dp, seen[0][3] == term(m.p, st.mem)))
        c.prove(o, 'its index is returned', term(o.val) == ret)
        parts = [z3.Extract(15, 0, v), z3.Extract(31, 16, v), z3.Extract(47, 32, v)]
        c.prove(o, 'its version is recorded unless one is known already', z3.And(t.ver.has(st, s), *[x == z3.If(t.ver.has(pre, s), y, w) for x, y, w in zip(ver(t, st, s), ver(t, pre, s), parts)]))
        c.prove(o, 'the versions of other datamodels stay', verkept(c, t, pre, st, s))

def is_empty_def(c, o, val):
    try:
        return stdlib.view(c.eng, o.st, term(val[0]), val[1]) == c.eng.lit(b'{}')
    except Unsupported:
        return z3.BoolVal(False)

def lookup_name(c):
    t = Reg(c); t.assume()
    (l, q), s = c.sview('name'); i = z3.BitVec('i', 64)
    for o in c.run(r'^podio::DatamodelRegistry::getDatamodelDefinition\(std::basic_string_view', [t.this, l, q]):
        pre = c.pre
        if o.kind == 'throw':
            c.prove(o, 'the lookup does not throw', False); continue
        c.prove(o, 'the definition stored under this name is returned', z3.ForAll([i], z3.Implies(z3.And(z3.ULT(i, t.n(pre)), t.name(pre, i) == s), z3.And(o.val[0] == t.len(pre, i), term(o.val[1], o.st.mem) == t.dat(pre, i)))))
        c.prove(o, 'an unknown name gives an empty definition', z3.Implies(z3.Not(t.has(pre, s)), is_empty_def(c, o, o.val)))
        c.prove(o, 'the registry is unchanged', z3.And(t.kept(pre, o.st), t.n(pre) == t.n(o.st), t.relkept(pre, o.st), verkept(c, t, pre, o.st)))

def lookup_index(c):
    t = Reg(c); t.assume()
    i = c.bv('index')
    for o in c.run(r'^podio::DatamodelRegistry::getDatamodelDefinition\(unsigned long\)', [t.this, i]):
        pre = c.pre
        if o.kind == 'throw':
            c.prove(o, 'the lookup does not throw', False); continue
        known = z3.ULT(i, t.n(pre))
        c.prove(o, 'the definition stored under this index is returned', z3.Implies(known, z3.And(o.val[0] == t.len(pre, i), term(o.val[1], o.st.mem) == t.dat(pre, i))))
        c.prove(o, 'an unknown index gives an empty definition', z3.Implies(z3.Not(known), is_empty_def(c, o, o.val)))
        c.prove(o, 'the registry is unchanged', z3.And(t.kept(pre, o.st), t.n(pre) == t.n(o.st), t.relkept(pre, o.st), verkept(c, t, pre, o.st)))

def name(c):
    t = Reg(c); t.assume()
    i = c.bv('index')
    for o in c.run(r'^podio::DatamodelRegistry::getDatamodelName\(', [t.this, i]):
        pre = c.pre
        if o.kind == 'throw':
            c.prove(o, 'the lookup does not throw', False); continue
        known = z3.ULT(i, t.n(pre))
        s = stdlib.get_str(c.eng, o.st, o.val)
        c.prove(o, 'the name stored under this index is returned', z3.Implies(known, s == t.name(pre, i)))
        c.prove(o, 'the registry is unchanged', z3.And(t.kept(pre, o.st), t.n(pre) == t.n(o.st), t.relkept(pre, o.st), verkept(c, t, pre, o.st)))

def version(c):
    t = Reg(c); t.assume()
    p, s = c.string('name')
    ver(t, c.st, s)
    for o in c.run(r'^podio::DatamodelRegistry::getDatamodelVersion\(', [t.this, p]):
        pre = c.pre
        if o.kind == 'throw':
            c.prove(o, 'the lookup does not throw', False); continue
        v = simp(term(o.val))
        c.prove(o, 'a version is reported exactly for names that have one', (z3.Extract(55, 48, v) != 0) == t.ver.has(pre, s))
        c.prove(o, 'it is the version recorded for this name', z3.Implies(t.ver.has(pre, s), z3.And(*[z3.Extract(16 * k + 15, 16 * k, v) == x for k, x in enumerate(ver(t, pre, s))])))

def relation_names(c):
    t = Reg(c); t.assume()
    (l, q), s = c.sview('type')
    k = z3.Const('k', StrS)
    t.rels(c.st, k); t.vecs(c.st, k)
    sub = lambda o, n: stdlib.substring(c.eng, s, o, n)
    ln = slen(s)
    lit = lambda x: c.eng.lit(x)
    starts = lambda x: z3.And(z3.UGE(ln, len(x)), stdlib.substring(c.eng, s, bvv(0), bvv(len(x))) == lit(x))
    c.eng.static_init = True
    for o in c.run(r'^podio::DatamodelRegistry::getRelationNames\(', [t.this, l, q]):
        pre, st = c.pre, o.st
        if o.kind == 'throw':
            c.prove(o, 'the lookup does not throw', False); continue
        user, link = starts(b'podio::UserDataCollection'), starts(b'podio::Link')
        coll = z3.And(z3.UGT(ln, 10), stdlib.substring(c.eng, s, simp(ln - 10), bvv(10)) == lit(b'Collection'))
        base = z3.If(coll, stdlib.substring(c.eng, s, bvv(0), simp(ln - 10)), s)
        r = [o.val[0], o.val[1]]
        stored = [x.root is HEAP for x in r]
        plain = z3.And(z3.Not(user), z3.Not(link))
        if all(stored):
            c.prove(o, 'names that are stored are those of the type (without Collection at the end of its name)', z3.And(plain, t.rel.has(pre, base), term(r[0]) == t.rels(pre, base), term(r[1]) == t.vecs(pre, base)))
        else:
            c.prove(o, 'known types other than links and user data give their stored names', z3.Not(z3.And(plain, t.rel.has(pre, base))))
            def fresh_static(p):
                return z3.BoolVal(('static', '_ZGV' + p.root.name[2:]) in st.events)
            ok = all(x.root.kind == 'global' and not x.steps for x in r)
            c.prove(o, 'every other answer is a constant', ok)
            if ok:
                # the constants are checked where they are initialised, which happens in the first call
                n = [stdlib.vlen(st, x) for x in r]
                c.prove(o, 'links have the relations from and to, everything unknown has none', z3.Implies(fresh_static(r[0]), z3.If(z3.And(link, z3.Not(user)), n[0] == 2, n[0] == 0)))
                c.prove(o, 'links and unknown types have no vector members', z3.Implies(fresh_static(r[1]), n[1] == 0))
                if 'relationNames' in r[0].root.name:
                    try:
                        nm = [sv_at(c, st, r[0].elem(bvv(k), 16)) for k in (0, 1)]
                        c.prove(o, 'they are listed as from, to', z3.Implies(fresh_static(r[0]), z3.And(nm[0] == lit(b'from'), nm[1] == lit(b'to'))))
                    except (Unsupported, AttributeError):
                        c.prove(o, 'they are listed as from, to', z3.Not(fresh_static(r[0])))
        c.prove(o, 'the registry is unchanged', z3.And(t.kept(pre, st), t.n(pre) == t.n(st), t.relkept(pre, st), verkept(c, t, pre, st)))

class Holder:
    def __init__(t, c):
        t.c = c; t.this = c.ptr('holder'); H = 'podio::DatamodelDefinitionHolder'
        t.defs = c.vec(t.this.add(c.field(H, 'm_availEDMDefs'))); t.vers = c.vec(t.this.add(c.field(H, 'm_edmVersions')))
        # std::tuple stores its last element first
        t.dz, t.vz = 64, 40
    def dname(t, st, i): return st.mem.get(t.defs.p.elem(i, t.dz).add(32).sub('#str'), StrS)
    def dtext(t, st, i): return st.mem.get(t.defs.p.elem(i, t.dz).sub('#str'), StrS)
    def vname(t, st, i): return st.mem.get(t.vers.p.elem(i, t.vz).add(8).sub('#str'), StrS)

def holder_def(c):
    t = Holder(c); (l, q), s = c.sview('name')
    i, j = z3.BitVecs('i j', 64)
    c.assume(z3.ULT(t.defs.len(c.st), bvv(1 << 40)))
    for o in c.run(r'^podio::DatamodelDefinitionHolder::getDatamodelDefinition\(', [t.this, l, q]):
        pre, st = c.pre, o.st
        if o.kind == 'throw':
            c.prove(o, 'the lookup does not throw', False); continue
        p = o.val[1]
        first = lambda k: z3.And(z3.ULT(k, t.defs.len(pre)), t.dname(pre, k) == s, z3.ForAll([j], z3.Implies(z3.ULT(j, k), t.dname(pre, j) != s)))
        if isinstance(p, Ptr) and p.root.kind == 'strbuf':
            c.prove(o, 'the definition of the first entry with this name is returned', z3.Exists([i], z3.And(first(i), p.root.sterm == t.dtext(pre, i), o.val[0] == slen(p.root.sterm))))
        else:
            c.prove(o, 'only an unknown name gives an empty definition', z3.And(is_empty_def(c, o, o.val), z3.ForAll([j], z3.Implies(z3.ULT(j, t.defs.len(pre)), t.dname(pre, j) != s))))

def holder_version(c):
    t = Holder(c); (l, q), s = c.sview('name')
    i, j = z3.BitVecs('i j', 64)
    c.assume(z3.ULT(t.vers.len(c.st), bvv(1 << 40)))
    part = lambda st, i: [st.mem.get(t.vers.p.elem(i, t.vz).add(o) if o else t.vers.p.elem(i, t.vz), 16) for o in (0, 2, 4)]
    part(c.st, bvv(0))
    for o in c.run(r'^podio::DatamodelDefinitionHolder::getDatamodelVersion\(', [t.this, l, q]):
        pre, st = c.pre, o.st
        if o.kind == 'throw':
            c.prove(o, 'the lookup does not throw', False); continue
        v = simp(term(o.val))
        known = z3.Exists([j], z3.And(z3.ULT(j, t.vers.len(pre)), t.vname(pre, j) == s))
        first = lambda k: z3.And(z3.ULT(k, t.vers.len(pre)), t.vname(pre, k) == s, z3.ForAll([j], z3.Implies(z3.ULT(j, k), t.vname(pre, j) != s)))
        c.prove(o, 'a version is reported exactly for names that have one', (z3.Extract(55, 48, v) != 0) == known)
        c.prove(o, 'it is the version of the first entry with this name', z3.Implies(known, z3.Exists([i], z3.And(first(i), *[z3.Extract(16 * k + 15, 16 * k, v) == x for k, x in enumerate(part(pre, i))]))))

def holder_names(c):
    t = Holder(c); ret = c.ptr('result')
    i = z3.BitVec('i', 64)
    c.assume(z3.ULT(t.defs.len(c.st), bvv(1 << 40)))
    for o in c.run(r'^podio::DatamodelDefinitionHolder::getAvailableDatamodels\(', [ret, t.this]):
        pre, st = c.pre, o.st
        if o.kind == 'throw':
            c.prove(o, 'the listing does not throw', False); continue
        r = c.vec(ret)
        c.prove(o, 'all names are listed in order', z3.And(r.len(st) == t.defs.len(pre), z3.ForAll([i], z3.Implies(z3.ULT(i, t.defs.len(pre)), r.at(st, i, STR) == t.dname(pre, i)))))

COL = 'podio::DatamodelDefinitionCollector'
def collect(c):
    this = c.ptr('collector'); coll = c.hobj('coll')
    p, s = c.string('name')
    ids = MapView(c, this.add(c.field(COL, 'm_edmDefRegistryIdcs')), 'unsigned long')
    idx = z3.BitVec('registryIndex', 64)
    c.eng.virtual = lambda *a: idx
    k = z3.BitVec('k', 64)
    for o in c.run(r'^podio::DatamodelDefinitionCollector::registerDatamodelDefinition\(', [this, coll, p]):
        pre, st = c.pre, o.st
        if o.kind == 'throw':
            c.prove(o, 'it does not throw', False); continue
        real = z3.And(idx != bvv(2**64 - 1), idx != bvv(2**64 - 2))
        c.prove(o, 'the datamodel of the collection is noted if it has one, nothing else changes', z3.ForAll([k], ids.has(st, k) == z3.Or(ids.has(pre, k), z3.And(real, k == idx))))

def to_write(c):
    this = c.ptr('collector'); ret = c.ptr('result')
    t = Reg(c, Ptr(c.eng.groot('_ZZN5podio17DatamodelRegistry11mutInstanceEvE16registryInstance', c.v.mods[0]))); t.assume()
    sp = this.add(c.field(COL, 'm_edmDefRegistryIdcs'))
    ids = MapView(c, sp, 'unsigned long')
    keyat, posof, n = stdlib.order(c.eng, c.st, sp, 'unsigned long')
    k, i = z3.BitVecs('k i', 64)
    c.assume(z3.ForAll([k], z3.Implies(ids.has(c.st, k), z3.ULT(k, t.n(c.st)))), z3.ULT(n, bvv(1 << 31)))
    for o in c.run(r'^podio::DatamodelDefinitionCollector::getDatamodelDefinitionsToWrite', [ret, this]):
        pre, st = c.pre, o.st
        if o.kind == 'throw':
            c.prove(o, 'it does not throw', False); continue
        r = c.vec(ret)
        name = st.mem.get(r.p.elem(i, 64).add(32).sub('#str'), StrS)
        text = st.mem.get(r.p.elem(i, 64).sub('#str'), StrS)
        c.prove(o, 'one entry per noted datamodel', r.len(st) == n)
        c.prove(o, 'every entry has the name of a noted datamodel', z3.ForAll([i], z3.Implies(z3.ULT(i, n), name == t.name(pre, keyat(i)))))
        c.prove(o, 'every entry has the definition of this datamodel', z3.ForAll([i], z3.Implies(z3.ULT(i, n), text == stdlib.viewof(t.dat(pre, keyat(i)), t.len(pre, keyat(i))))))
        c.prove(o, 'every noted datamodel has an entry', z3.ForAll([k], z3.Implies(ids.has(pre, k), z3.Exists([i], z3.And(z3.ULT(i, n), keyat(i) == k)))))

CONTRACTS = [('DatamodelRegistry::registerDatamodel', register), ('DatamodelRegistry::registerDatamodel with version', register_version),
             ('DatamodelRegistry::getDatamodelDefinition(name)', lookup_name), ('DatamodelRegistry::getDatamodelDefinition(index)', lookup_index),
             ('DatamodelRegistry::getDatamodelName', name), ('DatamodelRegistry::getDatamodelVersion', version),
             ('DatamodelRegistry::getRelationNames', relation_names), ('DatamodelDefinitionHolder::getDatamodelDefinition', holder_def), ('DatamodelDefinitionHolder::getDatamodelVersion', holder_version),
             ('DatamodelDefinitionHolder::getAvailableDatamodels', holder_names), ('DatamodelDefinitionCollector::registerDatamodelDefinition', collect), ('DatamodelDefinitionCollector::getDatamodelDefinitionsToWrite', to_write)]
