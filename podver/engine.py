"""Verification-condition generator: symbolic execution of LLVM IR against contracts.

One run explores every path of one function under contract.  Calls are replaced by a contract if
one is given (podio functions: contracts proved elsewhere; std:: functions: the trusted contracts
of stdlib.py), otherwise the callee's real body is executed in place.  Loops whose trip count is
not fixed are replaced by an inductively checked closed form (loops.py).  What cannot be expressed
raises Unsupported and makes the function 'undecided' - never proved, never refuted."""
import itertools, re, time
import z3
from ll import Ty, INT, PTR

class Unsupported(Exception):
    pass

StrS = z3.DeclareSort('Str')
BV64 = z3.BitVecSort(64)
slen = z3.Function('strlen', StrS, BV64)
schar = z3.Function('strchar', StrS, BV64, z3.BitVecSort(8))
_uid = itertools.count(1)

def fresh(name, sort):
    return z3.Const(f'{name}!{next(_uid)}', sort)
def bvv(x, w=64):
    return z3.BitVecVal(x, w)
def is_true(e):
    return z3.is_true(e)
SMALL = {}      # loop counters that stay below 2^31: id -> term
def widen(x, w, zero):
    x = simp(x)
    if w == 64 and x.size() == 32 and z3.is_app(x) and x.decl().kind() == z3.Z3_OP_EXTRACT and x.params() == [31, 0] and x.arg(0).get_id() in SMALL:
        return x.arg(0)
    return simp(z3.ZeroExt(w - x.size(), x) if zero else z3.SignExt(w - x.size(), x))
def simp(e):
    return z3.simplify(e)

class Root:
    __slots__ = ('id', 'kind', 'name', 'addr', 'size', 'init', 'mod', 'sterm')
    _n = itertools.count(1)
    def __init__(s, kind, name, size=None):
        s.id = next(Root._n); s.kind = kind; s.name = name; s.size = size
        s.addr = z3.BitVec(f'addr_{name}_{s.id}', 64)
        s.init = None; s.mod = None; s.sterm = None
    def __repr__(s):
        return f'{s.kind}:{s.name}#{s.id}'

HEAP = Root('heap', 'H')
NULLR = Root('null', 'null')

class Sel:
    """symbolic selector: 'e' element index (with element size), 'k' map key, 'h' heap object"""
    __slots__ = ('k', 't', 'size', 'n')
    def __init__(s, k, t, size=0, n=0):
        s.k, s.t, s.size, s.n = k, t, size, n       # n: number of elements of a small array inside an object
    def __repr__(s):
        return f'[{s.k} {s.t}]'

class Ptr:
    __slots__ = ('root', 'steps')
    def __init__(s, root, steps=()):
        s.root, s.steps = root, steps
    def __repr__(s):
        return f'&{s.root}{"".join("+" + str(x) if isinstance(x, int) else str(x) for x in s.steps)}'
    def add(s, off):
        """advance by a constant byte offset"""
        if s.root is NULLR:
            if off == 0:
                return s
            raise Unsupported('arithmetic on null pointer')
        st = list(s.steps)
        if st and isinstance(st[-1], int):
            off += st.pop()
        if st and isinstance(st[-1], Sel) and st[-1].k == 'e':
            z = st[-1].size
            if off >= z or off < 0:
                q = off // z
                st[-1] = Sel('e', simp(st[-1].t + q), z)
                off -= q * z
        if off:
            st.append(off)
        return Ptr(s.root, tuple(st))
    def sub(s, step):
        return Ptr(s.root, s.steps + (step,))
    def elem(s, idx, size):
        return s.sub('#e').sub(Sel('e', idx, size)) if False else Ptr(s.root, s.steps + ('#elems', Sel('e', idx, size)))

NULL = Ptr(NULLR)

class FuncPtr:
    def __init__(s, name):
        s.name = name
    def __repr__(s):
        return '@' + s.name

class PtrInt:
    """ptrtoint of a Ptr"""
    def __init__(s, p):
        s.p = p
class Scaled:
    """term * scale, kept apart so that exact division gives back the term"""
    def __init__(s, t, sc):
        s.t, s.sc = t, sc

class VFn:
    """function pointer loaded from the vtable of an object of unknown dynamic type"""
    def __init__(s, obj, slot):
        s.obj, s.slot = obj, slot

class Fr:
    __slots__ = ('f', 'loc', 'blk', 'pc', 'prev', 'call', 'noloop', 'skip')
    def __init__(s, f):
        s.f = f; s.loc = {}; s.blk = f.entry; s.pc = 0; s.prev = None; s.call = None; s.noloop = None; s.skip = False
    def copy(s):
        n = Fr.__new__(Fr)
        n.f = s.f; n.loc = dict(s.loc); n.blk = s.blk; n.pc = s.pc; n.prev = s.prev; n.call = s.call; n.noloop = s.noloop; n.skip = s.skip
        return n

class Mem:
    def __init__(s):
        s.cells = {}       # (rootid, prefix) -> {off: (width, val)}
        s.escaped = set()  # ids of roots that moved into HEAP
        s.freed = set()
        s.initial = {}     # shared: lazily created initial cells
        s.written = None   # set of (rid,prefix,off) written (for loop analysis)
    def copy(s):
        n = Mem.__new__(Mem)
        n.cells = dict(s.cells); n.escaped = set(s.escaped); n.freed = set(s.freed); n.initial = s.initial
        n.written = s.written
        return n

    def norm(s, p):
        """-> (root, prefix, off, idxs)"""
        root, steps = p.root, p.steps
        if root is NULLR:
            raise Unsupported('null pointer dereference')
        if root.id in s.escaped:
            steps = (Sel('h', root.addr),) + steps
            root = HEAP
        prefix = []; idx = []; off = 0
        for x in steps:
            if isinstance(x, int):
                off += x
            elif isinstance(x, str):
                prefix.append(off); off = 0
                prefix.append(x)
            else:
                if x.k == 'e' or x.k == 'k':
                    pass
                else:
                    prefix.append(off)
                off = 0
                prefix.append(x.k); idx.append(x.t)
        return root, tuple(prefix), off, idx

    @staticmethod
    def sort_of(w):
        return z3.BitVecSort(w) if isinstance(w, int) else w

    def _mk(s, root, prefix, off, w, idxs):
        srt = s.sort_of(w)
        for t in reversed(idxs):
            srt = z3.ArraySort(t.sort(), srt)
        if root.kind in ('alloca', 'new'):
            return fresh(f'undef_{root.name}_{off}', srt)
        key = (root.id, prefix, off, str(w))
        if key not in s.initial:
            nm = f'{root.name}{"" if root is HEAP else root.id}.' + '.'.join(str(x) for x in prefix) + f'.{off}'
            s.initial[key] = z3.Const(nm + (f':{w}' if isinstance(w, int) else ''), srt)
        return s.initial[key]

    @staticmethod
    def small(p):
        """the elements of a small array in an object that the pointer may mean: [(index term, value, pointer)]"""
        for i, x in enumerate(p.steps):
            if isinstance(x, Sel) and x.n and i and p.steps[i - 1] == '#arr':
                base = Ptr(p.root, p.steps[:i - 1])
                r = []
                for j in range(x.n):
                    q = base.add(j * x.size) if j else base
                    for y in p.steps[i + 1:]:
                        q = q.add(y) if isinstance(y, int) else q.sub(y)
                    r.append((x.t, j, q))
                return r
        return None
    def get(s, p, w):
        """load cell of width (or sort) w"""
        if p.steps and '#arr' in p.steps:
            el = s.small(p)
            if el:
                v = None
                for t, j, q in reversed(el):
                    x = s.get(q, w)
                    if not z3.is_expr(x):
                        raise Unsupported('array of pointers')
                    v = x if v is None else z3.If(t == j, x, v)
                return v
        if p.steps:
            # the key of a map node
            x = p.steps[-1]
            if isinstance(x, Sel) and x.k == 'k' and isinstance(w, int) and z3.is_bv(x.t) and x.t.size() == w:
                return x.t
            if x == '#str' and len(p.steps) > 1 and isinstance(p.steps[-2], Sel) and p.steps[-2].k == 'k' and z3.eq(p.steps[-2].t.sort(), StrS):
                return p.steps[-2].t
        root, prefix, off, idxs = s.norm(p)
        if root.id in s.freed:
            raise UseAfterFree(repr(root))
        key = (root.id, prefix)
        c = s.cells.get(key)
        if c is None:
            c = {}
        if off in c:
            cw, v = c[off]
            if cw == w or (not isinstance(w, int) and cw is w):
                return s._sel(v, idxs)
        if not isinstance(w, int):
            v = s._mk(root, prefix, off, w, idxs)
            s._put(key, off, w, v)
            return s._sel(v, idxs)
        nb = w // 8
        # inside a wider cell?
        for o, (cw, v) in c.items():
            if isinstance(cw, int) and o <= off and off + nb <= o + cw // 8 and cw > w:
                x = s._sel(v, idxs)
                x = term(x, s)
                sh = (off - o) * 8
                return simp(z3.Extract(sh + w - 1, sh, x))
        over = [(o, cw) for o, (cw, v) in c.items() if isinstance(cw, int) and o < off + nb and off < o + cw // 8]
        if over:
            # tile
            parts = []; pos = off
            while pos < off + nb:
                nxt = [o for o, cw in over if o == pos]
                if nxt:
                    cw = c[pos][0]
                else:
                    later = [o for o, cw in over if o > pos]
                    lim = min(later + [off + nb]) - pos
                    cw = 8
                    while cw * 2 <= lim * 8 and pos % (cw * 2 // 8) == 0:
                        cw *= 2
                if pos + cw // 8 > off + nb:
                    raise Unsupported('misaligned access')
                parts.append(term(s.get(s._at(p, off, pos), cw), s))
                pos += cw // 8
            return simp(z3.Concat(*reversed(parts))) if len(parts) > 1 else parts[0]
        v = s._mk(root, prefix, off, w, idxs)
        s._put(key, off, w, v)
        return s._sel(v, idxs)

    @staticmethod
    def _at(p, off, pos):
        st = list(p.steps)
        if st and isinstance(st[-1], int):
            o = st.pop()
            st.append(o + pos - off)
        else:
            st.append(pos - off)
        return Ptr(p.root, tuple(st))

    def _sel(s, v, idxs):
        if idxs and not z3.is_expr(v):
            raise Unsupported(f'value changed by a loop in an unknown way: {v}')
        for t in idxs:
            v = z3.Select(v, t)
        return simp(v) if idxs else v

    def _put(s, key, off, w, v):
        c = dict(s.cells.get(key, {}))
        c[off] = (w, v)
        s.cells[key] = c

    def put(s, p, w, val):
        if p.steps and '#arr' in p.steps:
            el = s.small(p)
            if el:
                for t, j, q in el:
                    x = s.get(q, w)
                    if not z3.is_expr(x) or not z3.is_expr(val):
                        raise Unsupported('array of pointers')
                    s.put(q, w, z3.If(t == j, val, x))
                return
        root, prefix, off, idxs = s.norm(p)
        if root.id in s.freed:
            raise UseAfterFree(repr(root))
        key = (root.id, prefix)
        c = s.cells.get(key, {})
        if s.written is not None:
            s.written.add((root.id, prefix, off))
        if isinstance(w, int):
            nb = w // 8
            if not (off in c and c[off][0] == w):
                for o, (cw, v) in list(c.items()):
                    if isinstance(cw, int) and o < off + nb and off < o + cw // 8:
                        if o <= off and off + nb <= o + cw // 8:
                            # part of a wider cell: read-modify-write
                            old = term(s._sel(v, idxs), s)
                            sh = (off - o) * 8
                            pieces = []
                            if sh + w < cw:
                                pieces.append(z3.Extract(cw - 1, sh + w, old))
                            pieces.append(term(val, s))
                            if sh > 0:
                                pieces.append(z3.Extract(sh - 1, 0, old))
                            s.put(s._at(p, off, o), cw, simp(z3.Concat(*pieces)) if len(pieces) > 1 else pieces[0])
                            return
                        if off <= o and o + cw // 8 <= off + nb:
                            # this covers smaller cells: write it in pieces
                            cuts = sorted({off, off + nb} | {x for x, (y, _) in c.items() if isinstance(y, int) and off <= x < off + nb} | {x + y // 8 for x, (y, _) in c.items() if isinstance(y, int) and off < x + y // 8 <= off + nb})
                            tv = term(val, s)
                            for a, b in zip(cuts, cuts[1:]):
                                s.put(s._at(p, off, a), (b - a) * 8, simp(z3.Extract((b - off) * 8 - 1, (a - off) * 8, tv)))
                            return
                        raise Unsupported('overlapping store')
        if not idxs:
            s._put(key, off, w, val)
            return
        if isinstance(val, (Ptr, PtrInt, Scaled, FuncPtr)):
            val = term(val, s)
        if off in c:
            arr = c[off][1]
        else:
            arr = s._mk(root, prefix, off, w, idxs)
        s._put(key, off, w, s._store(arr, idxs, val))

    def _store(s, arr, idxs, val):
        if not idxs:
            return val
        if z3.is_expr(val) and z3.is_select(val):
            # writing back what is there changes nothing
            r = arr
            for t in idxs:
                r = z3.Select(r, t)
            if z3.eq(simp(r), val):
                return arr
        if len(idxs) == 1:
            return z3.Store(arr, idxs[0], val)
        return z3.Store(arr, idxs[0], s._store(z3.Select(arr, idxs[0]), idxs[1:], val))

    # ---- whole sub-objects ----
    def subcells(s, p, size):
        """cells of the object of `size` bytes at p: yields (relative steps, off, w, value below p's selectors)"""
        root, prefix, off, idxs = s.norm(p)
        for (rid, pre), c in list(s.cells.items()):
            if rid != root.id:
                continue
            if pre == prefix:
                for o, (w, v) in c.items():
                    if off <= o < off + size:
                        yield (), o - off, w, s._sel(v, idxs)
            elif len(pre) > len(prefix) and pre[:len(prefix)] == prefix:
                o = pre[len(prefix)]
                if isinstance(o, int) and off <= o < off + size:
                    rest = (o - off,) + pre[len(prefix) + 1:]
                    for o2, (w, v) in c.items():
                        yield rest, o2, w, s._sel(v, idxs)

    def putsub(s, p, rest, o, w, v):
        """store an array-valued (or scalar) cell below p"""
        root, prefix, off, idxs = s.norm(p)
        if rest:
            key = (root.id, prefix + (off + rest[0],) + rest[1:]); oo = o
        else:
            key = (root.id, prefix); oo = off + o
            if isinstance(w, int) and not isinstance(v, z3.ArrayRef):
                s.put(Ptr(p.root, p.steps).add(o) if o else p, w, v)
                return
        if s.written is not None:
            s.written.add((key[0], key[1], oo))
        if not idxs:
            s._put(key, oo, w, v)
            return
        if isinstance(v, (Ptr, PtrInt, Scaled, FuncPtr)):
            v = term(v, s)
        c = s.cells.get(key, {})
        if oo in c:
            arr = c[oo][1]
        else:
            srt = v.sort()
            for t in reversed(idxs):
                srt = z3.ArraySort(t.sort(), srt)
            k2 = (root.id, key[1], oo, str(w))
            if root.kind in ('alloca', 'new'):
                arr = fresh('undef', srt)
            else:
                if k2 not in s.initial:
                    nm = f'{root.name}{"" if root is HEAP else root.id}.' + '.'.join(str(x) for x in key[1]) + f'.{oo}'
                    s.initial[k2] = z3.Const(nm + (f':{w}' if isinstance(w, int) else ''), srt)
                arr = s.initial[k2]
        s._put(key, oo, w, s._store(arr, idxs, v))

    def copyobj(s, src, dst, size, parts=None):
        items = list(s.subcells(src, size))
        if parts is not None:       # another object's containers may share the place in the store of all objects
            items = [x for x in items if not x[0] or x[0][:2] in parts]
        # cells of dst that src does not have become unknown-equal: materialize from src lazily
        root, prefix, off, idxs = s.norm(src)
        have = set((r, o) for r, o, w, v in items)
        for r, o, w, v in list(s.subcells(dst, size)):
            if (r, o) not in have and r == () and isinstance(w, int):
                if not any(r2 == () and isinstance(w2, int) and o2 < o + w // 8 and o < o2 + w2 // 8 for r2, o2, w2, v2 in items):
                    items.append((r, o, w, s.get(src.add(o) if o else src, w)))
        s.clear_obj(dst, size)
        for r, o, w, v in items:
            s.putsub(dst, r, o, w, v)
        return items

    def clear_obj(s, p, size):
        """forget nested cells (containers) of an object about to be overwritten (only for unindexed objects)"""
        root, prefix, off, idxs = s.norm(p)
        if idxs:
            return
        for (rid, pre) in list(s.cells):
            if rid == root.id and len(pre) > len(prefix) and pre[:len(prefix)] == prefix:
                o = pre[len(prefix)]
                if isinstance(o, int) and off <= o < off + size:
                    del s.cells[(rid, pre)]

    def escape(s, root):
        if root.id in s.escaped or root is HEAP:
            return
        if root.kind not in ('new',):
            raise Unsupported(f'address of {root} stored in a symbolic location')
        cells = [(k, c) for k, c in s.cells.items() if k[0] == root.id]
        for k, c in cells:
            del s.cells[k]
        s.escaped.add(root.id)
        base = Ptr(root)
        for (rid, pre), c in cells:
            for o, (w, v) in c.items():
                if pre == ():
                    s.put(base.add(o) if o else base, w, v)
                else:
                    s.putsub(base, pre, o, w, v)

SITES = {}     # number of every place in the program that allocates
ALLOCATED_AT = z3.Function('allocated_at', BV64, z3.IntSort())
SITE = {}      # root id -> where in the program it was allocated
class Dead(Exception):
    """a path that an obligation recorded before excludes"""
class UseAfterFree(Exception):
    pass

INNER, INNER_BACK = {}, {}
def term(v, mem=None):
    """value -> z3 term"""
    if isinstance(v, Ptr):
        if v.root is NULLR:
            return bvv(0)
        if v.root is HEAP and len(v.steps) == 1:
            return v.steps[0].t
        if len(v.steps) == 0:
            if mem is not None and v.root.kind == 'new':
                mem.escape(v.root)
                return v.root.addr
            if v.root.kind in ('arg', 'global', 'alloca'):
                INNER_BACK[v.root.addr.decl().name()] = v
                return v.root.addr
        if v.root.kind in ('arg', 'global', 'alloca'):
            # address inside an object given by the caller: an injective function of the indices
            sh = (v.root.id,) + tuple(x if not isinstance(x, Sel) else (x.k, x.size) for x in v.steps)
            ix = [x.t for x in v.steps if isinstance(x, Sel)]
            if sh not in INNER:
                INNER[sh] = z3.Function(f'inner_{v.root.name}_{len(INNER)}', *[t.sort() for t in ix], BV64) if ix else z3.BitVec(f'inner_{v.root.name}_{len(INNER)}', 64)
                INNER_BACK[(INNER[sh] if ix else INNER[sh].decl()).name()] = v
            return INNER[sh](*ix) if ix else INNER[sh]
        raise Unsupported(f'interior pointer {v} used as a number')
    if isinstance(v, PtrInt):
        return term(v.p, mem)
    if isinstance(v, Scaled):
        return simp(v.t * v.sc)
    if isinstance(v, FuncPtr):
        return z3.BitVec('fn_' + v.name, 64)
    if isinstance(v, VFn):
        raise Unsupported('virtual function pointer used as a number')
    if z3.is_bool(v):
        return z3.If(v, bvv(1, 8), bvv(0, 8))
    return v

def from_term(t):
    t = simp(t)
    if z3.is_bv_value(t) and t.as_long() == 0:
        return NULL
    if z3.is_app(t) and t.decl().name() in INNER_BACK:
        v = INNER_BACK[t.decl().name()]
        ix = iter(t.children())
        return Ptr(v.root, tuple(Sel(x.k, next(ix), x.size) if isinstance(x, Sel) else x for x in v.steps))
    return Ptr(HEAP, (Sel('h', t),))

class St:
    def __init__(s):
        s.frames = []; s.mem = Mem(); s.facts = []; s.events = []; s.ghost = {}
    def fork(s):
        n = St.__new__(St)
        n.frames = [f.copy() for f in s.frames]; n.mem = s.mem.copy(); n.facts = list(s.facts)
        n.events = list(s.events); n.ghost = dict(s.ghost)
        return n
    def assume(s, *fs):
        for f in fs:
            f = simp(f) if not z3.is_quantifier(f) else f
            if not is_true(f):
                s.facts.append(f)

class Outcome:
    def __init__(s, st, kind, val):
        s.st, s.kind, s.val = st, kind, val
    def __repr__(s):
        return f'<{s.kind} {s.val}>'

FEASIBLE_WORK = 250000

class Engine:
    def __init__(self, modules, handlers=None):
        self.mods = modules
        self.contracts = []        # list of (predicate(dem), handler)
        self.handlers = handlers or []
        self.maxpaths = 400
        self.maxsteps = 40000
        self.steps = 0
        self.stats = {'checks': 0, 'solver_s': 0.0, 'paths': 0, 'inlined': set(), 'trusted': set(), 'used_contracts': set(), 'loops': 0, 'unrolled': 0}
        self.globals = {}
        self.strlits = {}
        self.virtual = None
        self.deadline = None
        self.apart = {}; self.loop_entry = None
        self.points = False         # let loops change single entries of arrays of arrays (see loops.Point)
        self.loop_invariants = []   # functions (eng, st, frame, n) -> [(label, formula)] or None
        self.inv_results = []
        self.loop_candidates = []   # functions n -> value term, offered as closed forms for loop-carried values
        self.loop_instances = []
        self.unroll = False         # execute loops that provably end after a few iterations
        self.nofree = None          # when set: nothing may be deallocated
        self.keyof = {}      # class -> what its order compares
        self.unify = False
        self.unroll = 24
        import loops
        self.loops = loops
        self.axioms = []
        self.closures = {}
        self.fncall = None
        self.unsafe = []           # safety obligations that were not discharged
        self.nsafe = 0
        self.exploring = 0         # > 0: a closed form is being looked for; what is not obvious is decided when it is known
        self.havoc = False         # contents of arrays that a loop changes in a way without closed form become unknown
        self.on_free = None
        self.access = None         # hook(eng, st, ptr, is_write or None, what)

    # ---- lookup ----
    def func(self, name, prefer=None):
        # functions with internal linkage may share their name with others: the caller's module goes first
        for m in ([prefer] if prefer is not None else []) + self.mods:
            f = m.func(name)
            if f:
                f.mod = m
                return f
        for m in self.mods:
            if name in m._gtext:
                g = m.glob(name)
                if g and g[0] == 'alias' and g[1][0] == 'g' and g[1][1] != name:
                    return self.func(g[1][1], m)
        return None
    def dem(self, name):
        for m in self.mods:
            d = m.dem.get(name)
            if d:
                return d
        return name
    def find(self, pred):
        """names of defined functions whose demangled name satisfies pred"""
        r = []
        for m in self.mods:
            for n in m._ftext:
                if pred(m.dem[n]) and n not in r:
                    r.append(n)
        return r

    # ---- solver ----
    def check(self, facts, extra=(), timeout=4000, rlimit=0):
        t0 = time.time()
        s = z3.Solver()
        s.set('timeout', timeout)
        if rlimit:
            s.set('rlimit', rlimit)
        s.add(*self.axioms)
        s.add(*facts)
        s.add(*extra)
        r = s.check()
        self.stats['checks'] += 1
        self.stats['solver_s'] += time.time() - t0
        return r
    def feasible(self, st, c):
        c = simp(c) if not z3.is_quantifier(c) else c
        if is_true(c):
            return True
        if z3.is_false(c):
            return False
        # a bound on the work rather than the time: the same paths are followed on a busy machine
        return self.check(st.facts, [c], 5000, rlimit=FEASIBLE_WORK // (4 if self.points and self.exploring else 1)) != z3.unsat

    def distinct(self, st, a, b):
        """two terms are different in this state (remembered for the states that know at least as much)"""
        if self.known_distinct(st, a, b):
            return True
        for facts in ([self.loop_entry] if self.loop_entry else []) + [st.facts]:
            if self.check(facts, [a == b], 3000, rlimit=2 * FEASIBLE_WORK) == z3.unsat:
                self.apart.setdefault((a.get_id(), b.get_id()), []).append((a, b, {f.get_id() for f in facts}, list(facts)))
                return True
        return False
    def known_distinct(self, st, a, b):
        if z3.is_bv_value(a) and z3.is_bv_value(b):
            return a.as_long() != b.as_long()
        known = self.apart.get((a.get_id(), b.get_id()), []) + self.apart.get((b.get_id(), a.get_id()), [])
        if not known:
            return False
        have = {f.get_id() for f in st.facts}
        return any(ids <= have for _, _, ids, _ in known)
    def valid(self, st, c):
        c = simp(c)
        if is_true(c):
            return True
        return self.check(st.facts, [z3.Not(c)], 3000) == z3.unsat

    def safety(self, st, c, what, ins=None):
        self.nsafe += 1
        c = simp(c)
        if is_true(c):
            return
        r = self.check(st.facts, [z3.Not(c)], 100 if self.exploring else 5000)
        if r != z3.unsat:
            fr = st.frames[-1]
            self.unsafe.append((what, fr.f.mod.line(ins.dbg) if ins is not None else None, str(r), fr.f.dem))
        st.assume(c)

    def dealloc(self, st, p, ins):
        if self.nofree:
            self.safety(st, z3.BoolVal(False), self.nofree, ins)
            raise Dead
        if p.root.kind == 'new' and not p.steps:
            if p.root.id in st.mem.freed:
                raise UseAfterFree('double delete of ' + repr(p.root))
            st.mem.freed.add(p.root.id)
            st.events.append(('free', p))
            return
        if self.on_free and self.on_free(self, st, p, ins):
            return
        st.events.append(('free', p))
        st.ghost['freed'] = st.ghost.get('freed', ()) + (p,)

    # ---- strings ----
    def lit(self, b):
        if isinstance(b, str):
            b = b.encode()
        if b not in self.strlits:
            c = z3.Const('lit_' + b.decode('latin1').replace('|', '_').replace('\\', '_')[:40] + f'_{len(self.strlits)}', StrS)
            self.axioms.append(slen(c) == len(b))
            for i, ch in enumerate(b[:64]):
                self.axioms.append(schar(c, bvv(i)) == ch)
            for o in self.strlits.values():
                self.axioms.append(o != c)
            self.strlits[b] = c
        return self.strlits[b]

    def strbuf(self, sterm):
        k = ('strbuf', sterm.get_id())
        if k not in self.globals:
            r = Root('strbuf', 'chars'); r.sterm = sterm
            self.globals[k] = r
        return self.globals[k]

    # ---- values ----
    def groot(self, n, mod):
        # resolve by name across modules
        # names with internal linkage mean different things in different modules
        key = n
        if mod is not None and n in mod._gtext and re.match(r'\s*(private|internal) ', mod._gtext[n]):
            key = (n, id(mod))
        if key in self.globals:
            return self.globals[key]
        for m in [mod] + self.mods:
            g = m.glob(n)
            if g and (g[0] == 'alias' or g[2] is not None):
                break
        r = Root('global', n)
        r.init = g; r.mod = m
        self.globals[key] = r
        return r

    def const(self, v, ty, mod):
        k = v[0]
        if k == 'i':
            t = mod.res(ty)
            if t.k == 'int' and t.a == 1:
                return z3.BoolVal(bool(v[1]))
            return bvv(v[1], t.a)
        if k == 'null':
            return NULL
        if k == 'g':
            n = v[1]
            if any(n in m._ftext or n in m._decl for m in self.mods):
                return FuncPtr(n)
            r = self.groot(n, mod)
            if r.init and r.init[0] == 'alias':
                return self.const(r.init[1], PTR, r.mod)
            return Ptr(r)
        if k == 'undef':
            t = mod.res(ty)
            return self.undef(t, mod)
        if k == 'zero':
            t = mod.res(ty)
            if t.k == 'int':
                return z3.BoolVal(False) if t.a == 1 else bvv(0, t.a)
            if t.k == 'ptr':
                return NULL
            if t.k == 'float':
                return bvv(0, t.a)
            if t.k == 'struct':
                return [self.const(v, e, mod) for e in t.a]
            if t.k == 'array':
                return [self.const(v, t.b, mod) for _ in range(t.a)]
        if k == 'f':
            import struct
            tx = v[1]
            if tx.startswith('0x') and tx[2] not in 'KLMHR':
                bits = int(tx, 16)   # always a double
            else:
                bits = struct.unpack('<Q', struct.pack('<d', float(tx)))[0] if tx[:2] != '0x' else int(tx[3:], 16)
            if v[2] == 32:
                d = struct.unpack('<d', struct.pack('<Q', bits))[0]
                bits = struct.unpack('<I', struct.pack('<f', d))[0]
            return bvv(bits, v[2])
        if k == 'gep':
            return self.gep(self.const(v[2], PTR, mod), v[1], [(t, self.const(x, t, mod)) for t, x in v[3]], mod)
        if k == 'agg':
            return [self.const(x, t, mod) for t, x in v[1]]
        if k == 'str':
            return [bvv(x, 8) for x in v[1]]
        if k == 'cast':
            x = self.const(v[3], v[2], mod)
            return self.cast(v[1], v[2], x, v[4], mod)
        raise Unsupported('constant ' + k)

    def undef(self, t, mod):
        if t.k == 'int':
            return fresh('undef', z3.BoolSort() if t.a == 1 else z3.BitVecSort(t.a))
        if t.k == 'ptr':
            return NULL
        if t.k == 'float':
            return fresh('undef', z3.BitVecSort(t.a))
        if t.k == 'struct':
            return [self.undef(mod.res(e), mod) for e in t.a]
        if t.k == 'array':
            return [self.undef(mod.res(t.b), mod) for _ in range(t.a)]
        return None

    def val(self, st, v, ty):
        if v[0] == 'l':
            return st.frames[-1].loc[v[1]]
        return self.const(v, ty, st.frames[-1].f.mod)

    def gep(self, base, ty, idx, mod):
        if isinstance(base, FuncPtr):
            raise Unsupported('gep on function')
        p = base
        t = ty
        first = True
        cnt = 0
        for it, iv in idx:
            if first:
                sz = mod.size(t)
                first = False
            else:
                t = mod.res(t)
                if t.k == 'struct':
                    i = simp(iv).as_long()
                    p = self.padd(p, mod.offsets(t)[i])
                    t = t.a[i]
                    continue
                if t.k in ('array', 'vec'):
                    cnt = t.a if isinstance(t.a, int) else 0
                    t = t.b
                    sz = mod.size(t)
                else:
                    raise Unsupported('gep into ' + t.k)
            if isinstance(iv, Scaled):
                if iv.sc * sz and isinstance(p, Ptr):
                    p = self.pindex(p, iv.t, iv.sc * sz)
                    continue
            iv = simp(term(iv))
            if z3.is_bv_value(iv):
                p = self.padd(p, iv.as_signed_long() * sz)
            else:
                w = iv.size()
                x = iv if w == 64 else widen(iv, 64, False)
                p = self.pindex(p, x, sz, cnt)
            cnt = 0
        return p
    def padd(self, p, off):
        if off == 0:
            return p
        if isinstance(p, VTab):
            return VTab(p.obj, p.off + off)
        if p is NULL or p.root is NULLR:
            return Ptr(NULLR, (off,))
        return p.add(off)
    def pindex(self, p, x, sz, cnt=0):
        if isinstance(p, VTab):
            raise Unsupported('vtable index')
        st = list(p.steps)
        inner = 0
        if st and isinstance(st[-1], int):
            inner = st.pop()
        if st and isinstance(st[-1], Sel) and st[-1].k == 'e':
            z = st[-1].size
            if sz % z == 0:
                k = sz // z
                st[-1] = Sel('e', simp(st[-1].t + (x * k if k != 1 else x)), z, st[-1].n)
                if inner:
                    st.append(inner)
                return Ptr(p.root, tuple(st))
            raise Unsupported(f'stride {sz} over elements of size {z}')
        # indexing into a plain object (e.g. std::array member): open an element view
        if inner:
            st.append(inner)
        return Ptr(p.root, tuple(st) + ('#arr', Sel('e', x, sz, cnt if 0 < cnt <= 16 and p.root.kind != 'global' else 0)))

    def cast(self, op, t1, x, t2, mod):
        t1 = mod.res(t1); t2 = mod.res(t2)
        if op in ('bitcast', 'addrspacecast', 'freeze'):
            return x
        if op == 'ptrtoint':
            if isinstance(x, Ptr):
                return PtrInt(x)
            return term(x)
        if op == 'inttoptr':
            if isinstance(x, PtrInt):
                return x.p
            return from_term(term(x))
        if op == 'trunc':
            if isinstance(x, Scaled):
                x = term(x)
            x = term(x)
            if t2.a == 1:
                return simp(z3.Extract(0, 0, x) == 1)
            return simp(z3.Extract(t2.a - 1, 0, x))
        if op in ('zext', 'sext'):
            if t1.k == 'int' and t1.a == 1:
                one = bvv(1, t2.a) if op == 'zext' else bvv(-1, t2.a)
                return simp(z3.If(x, one, bvv(0, t2.a)))
            x = term(x)
            return widen(x, t2.a, op == 'zext')
        w2 = t2.a
        x = term(x)
        if op in ('uitofp', 'sitofp') and w2 in (32, 64):
            fs = z3.Float64() if w2 == 64 else z3.Float32()
            return simp(z3.fpToIEEEBV((z3.fpToFPUnsigned if op == 'uitofp' else z3.fpToFP)(z3.RNE(), x, fs)))
        f = z3.Function(f'{op}_{x.size()}_{w2}', x.sort(), z3.BitVecSort(w2))
        return f(x)

    def binop(self, op, w, a, b, flags):
        if w == 1:
            if op == 'and': return simp(z3.And(a, b))
            if op == 'or': return simp(z3.Or(a, b))
            if op in ('xor', 'add', 'sub'): return simp(z3.Xor(a, b))
            raise Unsupported('i1 ' + op)
        if op == 'sub' and isinstance(a, PtrInt) and isinstance(b, PtrInt):
            return self.pdiff(a.p, b.p)
        if op == 'add' and isinstance(a, PtrInt) and z3.is_bv_value(simp(term(b))):
            return PtrInt(self.padd(a.p, simp(term(b)).as_signed_long()))
        if isinstance(a, Scaled):
            bb = simp(term(b))
            if z3.is_bv_value(bb):
                c = bb.as_signed_long()
                if op in ('sdiv', 'udiv') and c > 0 and a.sc % c == 0:
                    return simp(a.t) if a.sc == c else Scaled(a.t, a.sc // c)
                if op in ('ashr', 'lshr') and a.sc % (1 << c) == 0:
                    return simp(a.t) if a.sc == (1 << c) else Scaled(a.t, a.sc >> c)
        a = term(a); b = term(b)
        if not (z3.is_expr(a) and z3.is_expr(b)):
            raise Unsupported('arithmetic on a value that a loop leaves undetermined')
        if op == 'add': r = a + b
        elif op == 'sub': r = a - b
        elif op == 'mul': r = a * b
        elif op == 'udiv': r = z3.UDiv(a, b)
        elif op == 'sdiv': r = a / b
        elif op == 'urem': r = z3.URem(a, b)
        elif op == 'srem': r = z3.SRem(a, b)
        elif op == 'shl': r = a << b
        elif op == 'lshr': r = z3.LShR(a, b)
        elif op == 'ashr': r = a >> b
        elif op == 'and': r = a & b
        elif op == 'or': r = a | b
        elif op == 'xor': r = a ^ b
        else:
            r = z3.Function(f'{op}_{w}', a.sort(), a.sort(), a.sort())(a, b)
            return r
        return simp(r)

    def pdiff(self, p, q):
        if p.root is NULLR and q.root is NULLR:
            return bvv(0)
        a, b = list(p.steps), list(q.steps)
        if p.root is q.root:
            ia = a.pop() if a and isinstance(a[-1], int) else 0
            ib = b.pop() if b and isinstance(b[-1], int) else 0
            if len(a) == len(b) and a and isinstance(a[-1], Sel) and a[-1].k == 'e' and isinstance(b[-1], Sel) and self.same(a[:-1], b[:-1]) and a[-1].size == b[-1].size and ia == ib:
                d = simp(a[-1].t - b[-1].t)
                return d if a[-1].size == 1 else Scaled(d, a[-1].size)
            if self.same(a, b):
                return bvv(ia - ib)
        return simp(term(p) - term(q))
    @staticmethod
    def same(a, b):
        if len(a) != len(b):
            return False
        for x, y in zip(a, b):
            if isinstance(x, Sel):
                if not (isinstance(y, Sel) and x.k == y.k and is_true(simp(x.t == y.t))):
                    return False
            elif x != y:
                return False
        return True

    def peq(self, st, p, q):
        """pointer equality as a Bool"""
        if isinstance(p, FuncPtr) or isinstance(q, FuncPtr):
            if isinstance(p, FuncPtr) and isinstance(q, FuncPtr):
                return z3.BoolVal(p.name == q.name)
            if isinstance(p, Ptr) and p.root is NULLR or isinstance(q, Ptr) and q.root is NULLR:
                return z3.BoolVal(False)
            raise Unsupported('function pointer comparison')
        if p.root is NULLR or q.root is NULLR:
            if p.root is NULLR and q.root is NULLR:
                return z3.BoolVal(True)
            r = q if p.root is NULLR else p
            if r.root is HEAP and len(r.steps) == 1:
                return simp(r.steps[0].t == 0)
            return z3.BoolVal(False)
        def up(r):
            if r.root.id in st.mem.escaped:
                return Ptr(HEAP, (Sel('h', r.root.addr),) + r.steps)
            return r
        p, q = up(p), up(q)
        if p.root is not q.root:
            return z3.BoolVal(False)
        import stdlib
        if stdlib.is_mm(p) and stdlib.is_mm(q) and p.steps[-2] == q.steps[-2]:
            return simp(p.steps[-1].t == q.steps[-1].t)
        if stdlib.is_ord(p) or stdlib.is_ord(q):
            return stdlib.ord_eq(self, p, q)
        a, b = list(p.steps), list(q.steps)
        if len(a) != len(b):
            return z3.BoolVal(False)
        cs = []
        for x, y in zip(a, b):
            if isinstance(x, Sel) != isinstance(y, Sel):
                return z3.BoolVal(False)
            if isinstance(x, Sel):
                if x.k != y.k:
                    return z3.BoolVal(False)
                cs.append(x.t == y.t)
            elif x != y:
                return z3.BoolVal(False)
        return simp(z3.And(*cs)) if cs else z3.BoolVal(True)

    def icmp(self, st, pred, a, b, ty):
        if isinstance(a, (Ptr, FuncPtr)) and isinstance(b, (Ptr, FuncPtr)):
            if pred == 'eq': return self.peq(st, a, b)
            if pred == 'ne': return simp(z3.Not(self.peq(st, a, b)))
            d = None
            if isinstance(a, Ptr) and isinstance(b, Ptr) and a.root is b.root and a.steps and b.steps:
                try:
                    d = self.pdiff(a, b)
                except Unsupported:
                    d = None
            if isinstance(d, Scaled):
                x = d.t
                z = bvv(0)
                return simp({'ult': x < z, 'ule': x <= z, 'ugt': x > z, 'uge': x >= z}[pred])
            a, b = term(a, st.mem), term(b, st.mem)
        if isinstance(a, Scaled) and isinstance(b, Scaled) and a.sc == b.sc:
            a, b = a.t, b.t
        elif isinstance(a, Scaled) and z3.is_bv_value(simp(term(b))) and simp(term(b)).as_long() == 0:
            a = a.t; b = bvv(0)
        if isinstance(a, PtrInt) and isinstance(b, PtrInt) and pred in ('eq', 'ne'):
            e = self.peq(st, a.p, b.p)
            return e if pred == 'eq' else simp(z3.Not(e))
        if z3.is_bool(a):
            if pred == 'eq': return simp(a == b)
            if pred == 'ne': return simp(a != b)
            a, b = term(a), term(b)
        a, b = term(a, st.mem), term(b, st.mem)
        return simp({'eq': lambda: a == b, 'ne': lambda: a != b, 'ult': lambda: z3.ULT(a, b), 'ule': lambda: z3.ULE(a, b),
                     'ugt': lambda: z3.UGT(a, b), 'uge': lambda: z3.UGE(a, b), 'slt': lambda: a < b, 'sle': lambda: a <= b,
                     'sgt': lambda: a > b, 'sge': lambda: a >= b}[pred]())

    # ---- memory access by type ----
    def inarray(self, st, p, ins):
        if isinstance(p, Ptr):
            for x in p.steps:
                if isinstance(x, Sel) and x.n:
                    self.safety(st, z3.ULT(x.t, x.n), 'index within the array', ins)
    def load(self, st, p, ty, mod):
        if self.access is not None and isinstance(p, Ptr):
            self.access(self, st, p, False, 'load')
        ty = mod.res(ty)
        if isinstance(p, VTab):
            if ty.k == 'ptr':
                return VFn(p.obj, p.off // 8)
            raise Unsupported('load from vtable')
        if not isinstance(p, Ptr):
            raise Unsupported(f'load through {p}')
        if p.root.kind == 'global':
            g = self.gload(p, ty, mod)
            if g is not None:
                return g
        if p.root.kind == 'strbuf':
            s = p.steps
            if len(s) == 2 and s[0] == '#elems' and ty.k == 'int':
                n = ty.a // 8
                parts = [schar(p.root.sterm, simp(s[1].t + i)) for i in range(n)]
                return simp(z3.Concat(*reversed(parts))) if n > 1 else parts[0]
            raise Unsupported('string buffer access')
        if ty.k == 'struct':
            return [self.load(st, self.padd(p, o), e, mod) for o, e in zip(mod.offsets(ty), ty.a)]
        if ty.k == 'array':
            sz = mod.size(ty.b)
            return [self.load(st, self.padd(p, i * sz), ty.b, mod) for i in range(ty.a)]
        if ty.k == 'ptr':
            v = st.mem.get(p, 64)
            if isinstance(v, (Ptr, FuncPtr, VFn, VTab)):
                return v
            if isinstance(v, PtrInt):
                return v.p
            return self.loadedptr(st, p, term(v))
        if ty.k in ('int', 'float'):
            w = ty.a
            if w == 1:
                return simp(z3.Extract(0, 0, term(st.mem.get(p, 8))) == 1)
            w8 = (w + 7) // 8 * 8
            v = st.mem.get(p, w8)
            if isinstance(v, Ptr):
                return PtrInt(v)
            if isinstance(v, (PtrInt, Scaled)):
                return v
            v = term(v, st.mem)
            return v if w8 == w else simp(z3.Extract(w - 1, 0, v))
        raise Unsupported('load of ' + ty.k)

    def loadedptr(self, st, p, t):
        # a pointer loaded from memory refers to an object that existed before, never to a fresh one
        for r in st.ghost.get('fresh', ()):
            if r.id not in st.mem.escaped:
                pass
        return from_term(t)

    def gload(self, p, ty, mod):
        r = p.root
        if r.name.startswith('_ZGV'):
            return bvv(0 if getattr(self, 'static_init', False) == 'first' else 1, ty.a) if ty.k == 'int' else None
        if not r.init or r.init[0] != 'var' or r.init[2] is None:
            return None
        if not r.init[3] and not r.name.startswith('_ZTV'):
            return None
        off = 0
        if p.steps:
            if len(p.steps) == 1 and isinstance(p.steps[0], int):
                off = p.steps[0]
            elif len(p.steps) == 2 and p.steps[0] == '#arr' and r.init[2][0] in ('str', 'agg'):
                # constant array, symbolic index
                iv = p.steps[1].t
                cells = self.const(r.init[2], r.init[1], r.mod)
                if all(z3.is_expr(c) for c in cells) and p.steps[1].size == r.mod.size(r.init[1].b):
                    e = cells[-1]
                    for i in range(len(cells) - 2, -1, -1):
                        e = z3.If(iv == i, cells[i], e)
                    return e
                return None
            else:
                return None
        v = self.ginit(r.init[1], r.init[2], off, r.mod)
        if v is None:
            return None
        t, val = v
        x = self.const(val, t, r.mod)
        tt = r.mod.res(t)
        if (tt.k, tt.a if tt.k != 'ptr' else 0) == (ty.k, ty.a if ty.k != 'ptr' else 0):
            return x
        return None

    def ginit(self, t, v, off, mod):
        t = mod.res(t)
        if v[0] == 'zero':
            # find scalar type at off
            if t.k == 'struct':
                for o, e in reversed(list(zip(mod.offsets(t), t.a))):
                    if off >= o:
                        return self.ginit(e, v, off - o, mod)
            if t.k == 'array':
                return self.ginit(t.b, v, off % mod.size(t.b), mod)
            return (t, v)
        if t.k == 'struct' and v[0] == 'agg':
            for o, e, x in reversed(list(zip(mod.offsets(t), t.a, v[1]))):
                if off >= o:
                    return self.ginit(e, x[1], off - o, mod)
        if t.k == 'array' and v[0] == 'agg':
            sz = mod.size(t.b)
            if off // sz >= len(v[1]):
                return None
            return self.ginit(t.b, v[1][off // sz][1], off % sz, mod)
        if t.k == 'array' and v[0] == 'str':
            return (INT(8), ('i', v[1][off]))
        if off == 0 and t.k in ('int', 'ptr', 'float'):
            return (t, v)
        return None

    def store(self, st, p, ty, v, mod):
        if self.access is not None and isinstance(p, Ptr):
            self.access(self, st, p, True, 'store')
        ty = mod.res(ty)
        if not isinstance(p, Ptr):
            raise Unsupported('store through ' + repr(p))
        if ty.k == 'struct':
            for o, e, x in zip(mod.offsets(ty), ty.a, v):
                self.store(st, self.padd(p, o), e, x, mod)
            return
        if ty.k == 'array':
            sz = mod.size(ty.b)
            for i, x in enumerate(v):
                self.store(st, self.padd(p, i * sz), ty.b, x, mod)
            return
        if ty.k == 'ptr':
            st.mem.put(p, 64, v)
            return
        w = ty.a
        if z3.is_bool(v) if z3.is_expr(v) else False:
            v = z3.If(v, bvv(1, 8), bvv(0, 8)); w = 8
        w8 = (w + 7) // 8 * 8
        if w8 != w:
            v = z3.ZeroExt(w8 - w, v)
        st.mem.put(p, w8, v)

    def addr_distinct(self, st, root):
        """a fresh allocation differs from null and from every other allocation known so far"""
        st.assume(root.addr != 0)
        for r in st.ghost.get('fresh', ()):
            st.assume(r.addr != root.addr)
        st.ghost['fresh'] = st.ghost.get('fresh', ()) + (root,)
        al = st.ghost.get('alloc0')
        if al is not None:
            st.assume(z3.Not(al(root.addr)))

    def alloc(self, st, name='obj', size=None):
        r = Root('new', name, size)
        site = tuple((fr.f.name, fr.blk, fr.pc) for fr in st.frames)
        SITE[r.id] = (site, sum(SITE.get(x.id, (None,))[0] == site for x in st.ghost.get('fresh', ())))
        self.addr_distinct(st, r)
        # (allocations of different places in the code are different, also in different loops)
        st.assume(ALLOCATED_AT(r.addr) == SITES.setdefault(SITE[r.id], len(SITES)))
        if not st.frames or 'MaybeSharedPtr' not in self.dem(st.frames[-1].f.name):
            st.assume(z3.Not(IS_CTRL(r.addr)))      # (only MaybeSharedPtr allocates control blocks)
        return Ptr(r)

    # ---- running ----
    def call_fn(self, st, name, args, mod=None):
        """run function `name` to completion from st -> list of Outcome"""
        f = self.func(name, mod)
        if f is None:
            raise Unsupported('no body for ' + self.dem(name))
        saved = st.frames
        fr = Fr(f)
        for (t, n, a), v in zip(f.params, args):
            fr.loc[n] = v
        st.frames = [fr]
        outs = self.run(st)
        for o in outs:
            o.st.frames = [x.copy() for x in saved]
        return outs

    def run(self, st, quiet=False):
        work = [st]
        outs = []
        while work:
            s = work.pop()
            if isinstance(s, Outcome):
                outs.append(s)
                continue
            try:
                r = self.exec_path(s)
            except Dead:
                continue
            except UseAfterFree as e:
                s.events.append(('use-after-free', str(e)))
                outs.append(Outcome(s, 'uaf', str(e)))
                continue
            if isinstance(r, Outcome):
                outs.append(r)
                if not quiet:
                    self.stats['paths'] += 1
            else:
                work.extend(reversed(r))
            if len(outs) + len(work) > self.maxpaths:
                raise Unsupported('too many paths')
        return outs

    def exec_path(self, st):
        while True:
            fr = st.frames[-1]
            if fr.pc == 0 and fr.prev is not None:
                if fr.noloop is not None and fr.blk not in fr.noloop.body:
                    return Outcome(st, 'exit', fr.noloop)
                lp = self.loops.loop_at(self, fr)
                if lp is not None:
                    if fr.noloop is lp:
                        if not fr.skip:
                            return Outcome(st, 'backedge', lp)
                        fr.skip = False
                    else:
                        return self.loops.enter(self, st, lp)
            ins = fr.f.blocks[fr.blk][fr.pc]
            fr.pc += 1
            self.steps += 1
            if self.steps > self.maxsteps:
                raise Unsupported('step limit')
            if self.deadline and time.time() > self.deadline:
                raise Unsupported('time limit')
            r = self.step(st, fr, ins)
            if r is not None:
                return r

    def goto(self, st, blk):
        fr = st.frames[-1]
        fr.prev = fr.blk; fr.blk = blk; fr.pc = 0
        # evaluate phis together
        bl = fr.f.blocks[blk]
        news = {}
        i = 0
        while i < len(bl) and bl[i].op == 'phi':
            for v, p in bl[i].a[0]:
                if p == fr.prev:
                    news[bl[i].res] = self.val(st, v, bl[i].ty)
                    break
            else:
                raise Unsupported('phi without edge')
            i += 1
        fr.loc.update(news)

    def branch(self, st, c, a, b):
        """a, b: callables on a state"""
        c = simp(c)
        if is_true(c):
            return a(st)
        if z3.is_false(c):
            return b(st)
        fa = self.feasible(st, c)
        fb = self.feasible(st, z3.Not(c))
        if fa and not fb:
            st.assume(c); return a(st)
        if fb and not fa:
            st.assume(z3.Not(c)); return b(st)
        if not fa and not fb:
            return []          # contradictory path
        s2 = st.fork()
        st.assume(c); s2.assume(z3.Not(c))
        ra = a(st); rb = b(s2)
        return (ra if isinstance(ra, list) else [st]) + (rb if isinstance(rb, list) else [s2])

    def step(self, st, fr, ins):
        op = ins.op
        L = fr.loc
        mod = fr.f.mod
        V = lambda v, t: L[v[1]] if v[0] == 'l' else self.const(v, t, mod)
        if op == 'phi':
            return None
        if op in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor', 'fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            t = mod.res(ins.ty)
            if t.k not in ('int', 'float'):
                raise Unsupported('vector arithmetic')
            L[ins.res] = self.binop(op, t.a, V(ins.a[0], ins.ty), V(ins.a[1], ins.ty), ins.a[2])
            return None
        if op == 'fneg':
            x = V(ins.a[0], ins.ty)
            L[ins.res] = simp(x ^ bvv(1 << (x.size() - 1), x.size()))
            return None
        if op in ('trunc', 'zext', 'sext', 'fptrunc', 'fpext', 'fptoui', 'fptosi', 'uitofp', 'sitofp', 'ptrtoint', 'inttoptr', 'bitcast', 'addrspacecast'):
            L[ins.res] = self.cast(op, ins.a[0], V(ins.a[1], ins.a[0]), ins.ty, mod)
            return None
        if op == 'freeze':
            L[ins.res] = V(ins.a[0], ins.ty)
            return None
        if op == 'icmp':
            L[ins.res] = self.icmp(st, ins.a[0], V(ins.a[2], ins.a[1]), V(ins.a[3], ins.a[1]), ins.a[1])
            return None
        if op == 'fcmp':
            a, b = V(ins.a[2], ins.a[1]), V(ins.a[3], ins.a[1])
            fs = z3.Float64() if a.size() == 64 else z3.Float32()
            x, y = z3.fpBVToFP(a, fs), z3.fpBVToFP(b, fs)
            pr = ins.a[0]
            nan = z3.Or(z3.fpIsNaN(x), z3.fpIsNaN(y))
            base = {'eq': z3.fpEQ(x, y), 'gt': x > y, 'ge': x >= y, 'lt': x < y, 'le': x <= y, 'ne': z3.Not(z3.fpEQ(x, y))}
            if pr == 'ord': r = z3.Not(nan)
            elif pr == 'uno': r = nan
            elif pr[0] == 'o': r = z3.And(z3.Not(nan), base[pr[1:]])
            else: r = z3.Or(nan, base[pr[1:]])
            L[ins.res] = simp(r)
            return None
        if op == 'alloca':
            L[ins.res] = Ptr(Root('alloca', ins.res))
            return None
        if op == 'load':
            self.inarray(st, V(ins.a[0], PTR), ins)
            x = self.load(st, V(ins.a[0], PTR), ins.ty, mod)
            if ins.res.startswith('vtable') and isinstance(x, Ptr) and x.root.kind != 'global':
                x = VTab(V(ins.a[0], PTR))
            L[ins.res] = x
            return None
        if op == 'store':
            self.inarray(st, V(ins.a[1], PTR), ins)
            self.store(st, V(ins.a[1], PTR), ins.ty, V(ins.a[0], ins.ty), mod)
            return None
        if op == 'getelementptr':
            b = V(ins.a[1], PTR)
            if isinstance(b, (VFn,)):
                raise Unsupported('gep on vfn')
            L[ins.res] = self.gep(b, ins.a[0], [(t, V(x, t)) for t, x in ins.a[2]], mod)
            return None
        if op == 'br':
            if len(ins.a) == 1:
                self.goto(st, ins.a[0])
                return None
            c = V(ins.a[0], INT(1))
            r = self.branch(st, c, lambda s: self.goto(s, ins.a[1]), lambda s: self.goto(s, ins.a[2]))
            return r
        if op == 'switch':
            c, d, cases = ins.a
            x = term(V(c, ins.ty))
            xs = simp(x)
            w = x.size()
            if z3.is_bv_value(xs):
                for v, b in cases:
                    if v[1] % (1 << w) == xs.as_long():
                        self.goto(st, b)
                        return None
                self.goto(st, d)
                return None
            outs = []
            groups = {}
            for v, b in cases:
                groups.setdefault(b, []).append(v[1])
            neg = []
            for b, vs in groups.items():
                cond = z3.Or(*[x == v for v in vs])
                neg.append(z3.Not(cond))
                if b != d and self.feasible(st, cond):
                    s2 = st.fork(); s2.assume(cond); self.goto(s2, b); outs.append(s2)
            cond = z3.And(*[n for (b, vs), n in zip(groups.items(), neg) if b != d]) if neg else z3.BoolVal(True)
            if self.feasible(st, cond):
                s2 = st.fork(); s2.assume(cond); self.goto(s2, d); outs.append(s2)
            return outs
        if op == 'select':
            c = simp(V(ins.a[0], INT(1)))
            a, b = V(ins.a[1], ins.ty), V(ins.a[2], ins.ty)
            if is_true(c):
                L[ins.res] = a; return None
            if z3.is_false(c):
                L[ins.res] = b; return None
            if z3.is_expr(a) and z3.is_expr(b):
                L[ins.res] = simp(z3.If(c, a, b)); return None
            if isinstance(a, Ptr) and isinstance(b, Ptr) and a.root is b.root and len(a.steps) == len(b.steps) and all(
                    (isinstance(x, Sel) and isinstance(y, Sel) and x.k == y.k and x.size == y.size) or (not isinstance(x, Sel) and x == y) for x, y in zip(a.steps, b.steps)):
                L[ins.res] = Ptr(a.root, tuple(Sel(x.k, simp(z3.If(c, x.t, y.t)), x.size) if isinstance(x, Sel) else x for x, y in zip(a.steps, b.steps)))
                return None
            def setv(s, v):
                s.frames[-1].loc[ins.res] = v
            return self.branch(st, c, lambda s: setv(s, a), lambda s: setv(s, b))
        if op == 'extractvalue':
            v = V(ins.a[1], ins.a[0])
            for i in ins.a[2]:
                v = v[i]
            L[ins.res] = v
            return None
        if op == 'insertvalue':
            t, v, t2, w, ix = ins.a
            v = V(v, t); w = V(w, t2)
            def upd(x, ix):
                if not ix:
                    return w
                x = list(x); x[ix[0]] = upd(x[ix[0]], ix[1:])
                return x
            L[ins.res] = upd(v, ix)
            return None
        if op == 'ret':
            v = None if ins.a[0] is None else V(ins.a[0], ins.ty)
            if len(st.frames) == 1:
                return Outcome(st, 'ret', v)
            st.frames.pop()
            up = st.frames[-1]
            ci = up.call
            up.call = None
            if ci.res is not None:
                up.loc[ci.res] = v
            if ci.op == 'invoke':
                self.goto(st, ci.a[2])
            return None
        if op in ('call', 'invoke'):
            return self.docall(st, fr, ins, V)
        if op == 'unreachable':
            return Outcome(st, 'unreachable', None)
        if op == 'atomicrmw':
            o, pa, va = ins.a
            p = V(pa, PTR); v = V(va, ins.ty)
            old = self.load(st, p, ins.ty, mod)
            w = mod.res(ins.ty).a
            if o == 'xchg':
                new = v
            else:
                new = self.binop(o if o != 'nand' else 'and', w, old, v, ())
            self.store(st, p, ins.ty, new, mod)
            L[ins.res] = old
            return None
        if op == 'cmpxchg':
            pa, t, e, n = ins.a
            p = V(pa, PTR); e = V(e, t); n = V(n, t)
            old = self.load(st, p, t, mod)
            eq = self.icmp(st, 'eq', old, e, t)
            self.store(st, p, t, simp(z3.If(eq, term(n), term(old))), mod)
            L[ins.res] = [old, eq]
            return None
        if op == 'landingpad':
            L[ins.res] = [Ptr(Root('new', 'exc')), bvv(L.get('__sel__', 0), 32)]
            return None
        if op == 'resume':
            if len(st.frames) == 1:
                return Outcome(st, 'throw', st.ghost.get('exc'))
            st.frames.pop()
            return self.throw(st, st.ghost.get('exc'))
        raise Unsupported('instruction ' + ins.text[:80])

    def finish_call(self, st, ins, v):
        fr = st.frames[-1]
        if ins.res is not None:
            fr.loc[ins.res] = v
        if ins.op == 'invoke':
            self.goto(st, ins.a[2])

    def throw(self, st, what):
        """unwind: run cleanups and catch handlers; -> None (continue) or Outcome"""
        st.ghost['exc'] = what
        while True:
            fr = st.frames[-1]
            ci = fr.call
            if ci is not None and ci.op == 'invoke':
                lp = [i for i in fr.f.blocks[ci.a[3]] if i.op == 'landingpad'][0]
                sel = self.catches(what, lp, fr.f.mod)
                if sel is not None:
                    fr.call = None
                    self.goto(st, ci.a[3])
                    fr.loc['__sel__'] = sel
                    return None
            if len(st.frames) == 1:
                return Outcome(st, 'throw', what)
            st.frames.pop()

    BASES = {'_ZTISt13runtime_error': ['_ZTISt9exception'], '_ZTISt12out_of_range': ['_ZTISt11logic_error', '_ZTISt9exception'],
             '_ZTISt16invalid_argument': ['_ZTISt11logic_error', '_ZTISt9exception'], '_ZTISt11logic_error': ['_ZTISt9exception'],
             '_ZTISt17bad_function_call': ['_ZTISt9exception'], '_ZTISt12length_error': ['_ZTISt11logic_error', '_ZTISt9exception']}
    def catches(self, what, lp, mod):
        cleanup, cl = lp.a
        for c in cl:
            if c[0] == 'null':
                return self.typeid(None)
            nm = c[1] if c[0] == 'g' else None
            if nm == what or nm in self.BASES.get(what, ()):
                return self.typeid(nm)
            if what not in self.BASES and nm != what:
                raise Unsupported('catch of ' + str(nm))
        return 0 if cleanup else None
    def typeid(self, nm):
        return 1 + sum(ord(c) * (i + 1) for i, c in enumerate(nm or '')) % 100000

    def docall(self, st, fr, ins, V):
        callee, args, nrm, unw = ins.a
        mod = fr.f.mod
        if callee[0] == 'asm':
            raise Unsupported('inline assembly')
        if callee[0] == 'l':
            fv = fr.loc[callee[1]]
            if isinstance(fv, FuncPtr):
                name = fv.name
            elif isinstance(fv, VFn):
                if self.virtual is None:
                    raise Unsupported(f'virtual call through slot {fv.slot} of {fv.obj}')
                av = [V(v, t) for t, v, a in args]
                fr.call = ins
                r = self.virtual(self, st, fv.obj, fv.slot, av, ins)
                return self.after_handler(st, ins, r)
            else:
                av = [V(v, t) for t, v, a in args]
                if getattr(self, 'indirect', None):
                    fr.call = ins
                    r = self.indirect(self, st, fv, av, ins)
                    return self.after_handler(st, ins, r)
                raise Unsupported('indirect call through ' + repr(fv))
        else:
            c = self.const(callee, PTR, mod)
            if not isinstance(c, FuncPtr):
                raise Unsupported('call target')
            name = c.name
        av = []
        for t, v, a in args:
            if t.k == 'metadata':
                av.append(None); continue
            x = V(v, t)
            if 'byval' in a:
                cp = Ptr(Root('alloca', 'byval'))
                st.mem.copyobj(x, cp, mod.size(a['byval']))
                x = cp
            av.append(x)
        fr.call = ins
        # intrinsics and allocation
        if name.startswith('llvm.'):
            r = self.intrinsic(st, name, av, ins)
            return self.after_handler(st, ins, r)
        dem = self.dem(name)
        for pred, h in self.contracts:
            if pred(dem):
                self.stats['used_contracts'].add(dem)
                r = h(self, st, av, ins, dem)
                return self.after_handler(st, ins, r)
        import stdlib
        h = stdlib.lookup(self, name, dem)
        if h is not None:
            self.stats['trusted'].add(stdlib.label(dem))
            if self.access is not None and not re.match(r'(std::)?(recursive_)?(mutex|scoped_lock|lock_guard|unique_lock)', dem):
                for x in av:
                    if isinstance(x, Ptr):
                        self.access(self, st, x, None, dem)
            r = h(self, st, av, ins, dem)
            return self.after_handler(st, ins, r)
        f = self.func(name, mod)
        if f is None:
            raise Unsupported('no body and no contract: ' + dem[:160])
        if len(st.frames) > 60:
            raise Unsupported('call depth')
        if sum(1 for x in st.frames if x.f is f) > 6:
            raise Unsupported('recursion in ' + dem[:100])
        self.stats['inlined'].add(dem)
        nf = Fr(f)
        for (t, n, a), v in zip(f.params, av):
            nf.loc[n] = v
        st.frames.append(nf)
        return None

    def after_handler(self, st, ins, r):
        """r: value | Outcome | Throw | list of (state, value | Throw | Outcome)"""
        if isinstance(r, Outcome):
            return r
        if isinstance(r, Throw):
            return self.throw(st, r.what)
        if isinstance(r, Forks):
            res = []
            for s, v in r:
                x = self.after_handler(s, ins, v)
                if x is None:
                    res.append(s)
                elif isinstance(x, list):
                    res.extend(x)
                else:
                    res.append(x)
            return res
        st.frames[-1].call = None
        self.finish_call(st, ins, r)
        return None

    def intrinsic(self, st, name, a, ins):
        if name.startswith('llvm.memcpy') or name.startswith('llvm.memmove'):
            n = simp(term(a[2]))
            if not z3.is_bv_value(n):
                raise Unsupported('memcpy of symbolic size')
            n = n.as_long()
            if n:
                src = a[1]
                if src.root.kind == 'global' and src.root.init and src.root.init[0] == 'var' and src.root.init[2] is not None:
                    self.copy_global(st, src, a[0], n)
                else:
                    self.memcpy(st, a[0], src, n)
            return None
        if name.startswith('llvm.memset'):
            n = simp(term(a[2])); v = simp(term(a[1]))
            if not z3.is_bv_value(n) or not z3.is_bv_value(v):
                raise Unsupported('memset')
            n = n.as_long(); b = v.as_long()
            o = 0
            have = {o2: w for r, o2, w, _ in st.mem.subcells(a[0], n) if r == () and isinstance(w, int)}
            while o < n:
                w = 8
                while w * 2 <= 64 and o % (w * 2 // 8) == 0 and o + w * 2 // 8 <= n:
                    w *= 2
                st.mem.put(self.padd(a[0], o), w, bvv(int.from_bytes(bytes([b]) * (w // 8), 'little'), w))
                o += w // 8
            return None
        if name.startswith('llvm.assume') or name.startswith('llvm.stacksave') or name.startswith('llvm.stackrestore') or name.startswith('llvm.invariant') or name.startswith('llvm.prefetch'):
            return None
        if name.startswith('llvm.expect'):
            return a[0]
        if name.startswith('llvm.trap'):
            return Outcome(st, 'unreachable', 'trap')
        m = re.match(r'llvm\.(umax|umin|smax|smin|abs|fshl|fshr|bswap|ctpop)\.i(\d+)', name)
        if m:
            o = m.group(1); x = term(a[0]); y = term(a[1]) if len(a) > 1 and z3.is_bv(term(a[1])) else None
            if o == 'umax': return simp(z3.If(z3.UGT(x, y), x, y))
            if o == 'umin': return simp(z3.If(z3.ULT(x, y), x, y))
            if o == 'smax': return simp(z3.If(x > y, x, y))
            if o == 'smin': return simp(z3.If(x < y, x, y))
            if o == 'abs': return simp(z3.If(x < 0, -x, x))
            if o == 'fshl' and z3.eq(x, y):
                return simp(z3.RotateLeft(x, term(a[2])))
        if name.startswith('llvm.is.constant'):
            return z3.BoolVal(False)
        if name.startswith('llvm.eh.typeid'):
            return bvv(self.typeid(a[0].root.name if isinstance(a[0], Ptr) and a[0].root.kind == 'global' else None), 32)
        m = re.match(r'llvm\.(uadd|umul|usub|sadd|ssub|smul)\.with\.overflow\.i(\d+)', name)
        if m:
            o = m.group(1); w = int(m.group(2)); x = term(a[0]); y = term(a[1])
            if o == 'uadd': return [simp(x + y), simp(z3.ULT(x + y, x))]
            if o == 'usub': return [simp(x - y), simp(z3.ULT(x, y))]
            if o == 'umul': return [simp(x * y), simp(z3.Not(z3.BVMulNoOverflow(x, y, False)))]
        raise Unsupported('intrinsic ' + name)

    def copy_global(self, st, src, dst, n):
        o = 0
        off0 = src.steps[0] if src.steps else 0
        if not isinstance(off0, int):
            raise Unsupported('copy from constant table')
        r = src.root
        while o < n:
            g = self.ginit(r.init[1], r.init[2], off0 + o, r.mod)
            if g is None:
                o += 1      # padding
                continue
            t = r.mod.res(g[0])
            self.store(st, self.padd(dst, o), t, self.const(g[1], t, r.mod), r.mod)
            o += r.mod.size(t)

    def memcpy(self, st, dst, src, n):
        items = [(r, o, w) for r, o, w, v in st.mem.subcells(src, n)]
        cov = [(o, w // 8) for r, o, w in items if r == () and isinstance(w, int)]
        nested = [r for r, o, w in items if r != ()]
        if not nested:
            # fill the gaps so that the copy is complete
            dcov = sorted((o, w // 8) for r, o, w, v in st.mem.subcells(dst, n) if r == () and isinstance(w, int))
            o = 0
            while o < n:
                hit = [c for c in cov if c[0] <= o < c[0] + c[1]]
                if hit:
                    o = hit[0][0] + hit[0][1]; continue
                dh = [c for c in dcov if c[0] == o]
                lim = min([c[0] for c in cov if c[0] > o] + [n]) - o
                if dh and dh[0][1] <= lim:
                    w = dh[0][1]
                else:
                    w = 1
                    while w * 2 <= min(8, lim) and o % (w * 2) == 0:
                        w *= 2
                st.mem.get(self.padd(src, o), w * 8)
                o += w
        st.mem.copyobj(src, dst, n)

class VTab:
    """address inside the vtable of an object whose dynamic type is unknown"""
    def __init__(s, obj, off=0):
        s.obj, s.off = obj, off

class Forks(list):
    """list of (state, value) a handler returns when it splits the path"""
class Throw:
    def __init__(s, what):
        s.what = what
