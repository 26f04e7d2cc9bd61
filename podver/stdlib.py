"""Trusted contracts of the standard library (and of allocation / exception runtime functions).

Containers are modelled by their abstract value, kept in sub-objects of the container's address:
  vector/deque   '#len' and the elements  p.elem(i)
  string         '#str' (a term of the abstract sort Str with strlen/strchar)
  map/set        '#has' (key -> bool), '#size', nodes p.'#node'[key]
  function       '#fn'
Everything here is assumed, not proved; the labels of the contracts a proof used are in the evidence."""
import re
import z3
from engine import *
import engine as E

FnS = z3.DeclareSort('Fn')
NULLFN = z3.Const('null_function', FnS)
CSTR = z3.Function('cstring', z3.BitVecSort(64), StrS)      # contents of a C string at an unknown address
scat = z3.Function('strcat', StrS, StrS, StrS)

# ------------------------------------------------------------------ demangled names
def split_top(s, sep=','):
    out = []; d = 0; cur = ''
    i = 0
    while i < len(s):
        c = s[i]
        if c in '<([{':
            if not (c == '<' and s[max(0, i - 8):i].endswith('operator')):
                d += 1
        elif c in '>)]}':
            if not (c == '>' and i and s[i - 1] == '-') and not (c == '>' and s[max(0, i - 8):i].endswith('operator')):
                d -= 1
        if c == sep and d == 0:
            out.append(cur.strip()); cur = ''
        else:
            cur += c
        i += 1
    if cur.strip():
        out.append(cur.strip())
    return out

_OPS = ['operator()', 'operator[]', 'operator->*', 'operator->', 'operator<=>', 'operator<<=', 'operator>>=', 'operator<<', 'operator>>', 'operator<=', 'operator>=',
        'operator<', 'operator>', 'operator==', 'operator!=', 'operator=', 'operator++', 'operator--', 'operator+=', 'operator-=', 'operator+', 'operator-', 'operator*', 'operator&&',
        'operator||', 'operator&', 'operator|', 'operator!', 'operator/', 'operator%', 'operator^', 'operator~', 'operator,']

class Name:
    """scope, method, template args of the method, parameter list, const"""
    def __init__(s, dem):
        s.dem = dem
        s.abi = ''
        d = re.sub(r'\[abi:[^\]]*\]', '', dem)
        d = re.sub(r' \(\.[^)]*\)$', '', d)
        # mask operators so that their symbols do not disturb bracket matching
        m = {}
        def mask(t):
            for i, o in enumerate(_OPS):
                t = re.sub(r'\b' + re.escape(o) + r'(?![\w])', lambda _: f'OPR{i}Q', t) if o not in t else t.replace(o, f'OPR{i}Q')
            return t
        d = mask(d)
        # find the parameter list: last top-level (...) group
        s.const = False
        for suf in (' const', ' const &', ' const&', ' &', ' &&'):
            if d.endswith(suf):
                s.const = 'const' in suf
                d = d[:-len(suf)]
        if d.endswith(')'):
            depth = 0
            for i in range(len(d) - 1, -1, -1):
                c = d[i]
                if c in ')]}':
                    depth += 1
                elif c in '([{':
                    depth -= 1
                elif c == '>' and depth >= 0 and not (i and d[i-1] == '-'):
                    depth += 1
                elif c == '<':
                    depth -= 1
                if depth == 0:
                    break
            params = d[i + 1:-1]; head = d[:i]
        else:
            params = ''; head = d
        s.params = [] if params in ('', 'void') else split_top(params)
        # drop the return type: last top-level space
        depth = 0; cut = -1
        for i, c in enumerate(head):
            if c in '<([{':
                depth += 1
            elif c in '>)]}' and not (c == '>' and i and head[i-1] == '-'):
                depth -= 1
            elif c == ' ' and depth == 0 and not re.search(r'operator$', head[:i]):
                cut = i
        if re.search(r'(^|::)operator [^:]', head):
            # conversion operator: keep
            k = re.search(r'(?:^|::)operator [^:]', head).start()
            pre = head[:k]
            cut = pre.rfind(' ') if '<' not in pre else -1
        q = head[cut + 1:]
        # split scope :: method<targs>
        depth = 0; last = -1
        for i, c in enumerate(q):
            if c in '<([{':
                depth += 1
            elif c in '>)]}' and not (c == '>' and i and q[i-1] == '-'):
                depth -= 1
            elif c == ':' and depth == 0 and q[i:i+2] == '::':
                last = i
        s.scope = q[:last] if last >= 0 else ''
        meth = q[last + 2:] if last >= 0 else q
        s.targs = []
        if meth.endswith('>') and '<' in meth:
            k = meth.index('<')
            s.targs = split_top(meth[k + 1:-1]); meth = meth[:k]
        def unmask(t):
            return re.sub(r'OPR(\d+)Q', lambda mm: _OPS[int(mm.group(1))], t)
        s.method = unmask(meth)
        s.scope = unmask(s.scope); s.params = [unmask(x) for x in s.params]; s.targs = [unmask(x) for x in s.targs]
        # class template and its arguments
        s.cls = s.scope; s.cargs = []
        if s.scope.endswith('>') and '<' in s.scope:
            depth = 0
            for i in range(len(s.scope) - 1, -1, -1):
                if s.scope[i] == '>' and not (i and s.scope[i-1] == '-'):
                    depth += 1
                elif s.scope[i] == '<':
                    depth -= 1
                    if depth == 0:
                        break
            s.cls = s.scope[:i]; s.cargs = split_top(s.scope[i + 1:-1])
_names = {}
def nm(dem):
    r = _names.get(dem)
    if r is None:
        r = _names[dem] = Name(dem)
    return r

STR = 'std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>'
SVIEW = 'std::basic_string_view<char, std::char_traits<char>>'
def norm_ty(t):
    t = t.strip()
    t = re.sub(r'\[abi:[^\]]*\]', '', t)
    while True:
        o = t
        t = re.sub(r'(\s+const)?\s*&&?$', '', t) if t.endswith('&') else t
        if t.endswith(' const'):
            t = t[:-6]
        if t == o:
            break
    return t
BASIC = {'bool': 1, 'char': 1, 'signed char': 1, 'unsigned char': 1, 'short': 2, 'unsigned short': 2, 'int': 4, 'unsigned int': 4,
         'long': 8, 'unsigned long': 8, 'long long': 8, 'unsigned long long': 8, 'float': 4, 'double': 8}
def tmpl(t):
    """'a::b<c, d>' -> ('a::b', ['c','d'])"""
    if t.endswith('>') and '<' in t:
        depth = 0
        for i in range(len(t) - 1, -1, -1):
            if t[i] == '>' and not (i and t[i-1] == '-'):
                depth += 1
            elif t[i] == '<':
                depth -= 1
                if depth == 0:
                    return t[:i], split_top(t[i + 1:-1])
    return t, []

class Types:
    """sizes and abstract cells of types named as the demangler names them"""
    def __init__(s, eng):
        s.eng = eng
        s.byname = {}
        for m in eng.mods:
            ids = {}
            for ref, tx in m.md.items():
                if isinstance(tx, dict):
                    if 'identifier' in tx and tx.get('_') == 'DICompositeType':
                        ids[tx['identifier']] = (m, ref)
                elif isinstance(tx, str) and 'DICompositeType(' in tx and 'identifier: "_ZTS' in tx:
                    k = tx.index('identifier: "') + 13
                    ids[tx[k:tx.index('"', k)]] = (m, ref)
            import ll
            names = list(ids)
            d = ll.demangle_all(names)
            for i in names:
                n = re.sub(r'\[abi:[^\]]*\]', '', d[i].replace('typeinfo name for ', ''))
                s.byname.setdefault(n, []).append(ids[i])
    def rec(s, t):
        for m, ref in s.byname.get(t, []):
            d = m.mdnode(ref)
            if 'DIFlagFwdDecl' not in d.get('flags', '') and 'size' in d:
                return m, ref, d
        return None
    def size(s, t):
        t = norm_ty(t)
        if t in BASIC:
            return BASIC[t]
        if t.endswith('*') or t.endswith(')'):
            return 8
        if t == STR:
            return 32
        c, a = tmpl(t)
        if c == 'std::vector':
            return 24
        if c == 'std::function':
            return 32
        if c == 'std::unique_ptr':
            return 8
        if c == 'std::shared_ptr':
            return 16
        if c == 'std::deque':
            return 80
        r = s.rec(t)
        if r:
            return int(r[2]['size']) // 8
        if c == 'std::pair':
            o = s.pair_off(t)
            al = max(s.align(a[0]), s.align(a[1]))
            return (o + s.size(a[1]) + al - 1) // al * al
        raise Unsupported('size of ' + t)
    def align(s, t):
        t = norm_ty(t)
        if t in BASIC:
            return BASIC[t]
        c, a = tmpl(t)
        if c == 'std::pair':
            return max(s.align(a[0]), s.align(a[1]))
        r = s.rec(t)
        if r and c not in ('std::vector', 'std::function'):
            cells = s.plain(r)
            if cells:
                return min(8, max(w for o, w in cells))
        return 8
    def plain(s, r):
        m, ref, d = r
        out = []
        for n, o, t, sz in m.fields(ref):
            out.append((o, min(sz, 8) or 1))
        return out
    def pair_off(s, t):
        c, a = tmpl(norm_ty(t))
        al = s.align(a[1])
        return (s.size(a[0]) + al - 1) // al * al
    def cells(s, t, depth=0):
        """abstract cells of an object of type t: [(rest steps, off, width or sort, nidx, default)]; None if not known"""
        t = norm_ty(t)
        if t in BASIC:
            return [((), 0, BASIC[t] * 8, bvv(0, BASIC[t] * 8))]
        if t.endswith('*') or t.endswith(')'):
            return [((), 0, 64, bvv(0))]
        if t == STR:
            return [((0, '#str'), 0, StrS, s.eng.lit(b''))]
        c, a = tmpl(t)
        if c == 'std::unique_ptr':
            return [((), 0, 64, bvv(0))]
        if c == 'std::function':
            return [((0, '#fn'), 0, FnS, NULLFN)]
        if c in ('std::vector', 'std::deque'):
            out = [((0, '#len'), 0, 64, bvv(0))]
            try:
                sub = s.cells(a[0], depth + 1)
            except Unsupported:
                sub = None
            if sub is not None:
                for r, o, w, dv in sub:
                    if r:
                        out.append(((0, '#elems', 'e') + r, o, w, None))
                    else:
                        out.append(((0, '#elems', 'e'), o, w, None))
            return out
        if c == 'std::array':
            z = s.size(a[0]); n = int(a[1].rstrip('ul'))
            out = []
            for i in range(n):
                for r, o, w, dv in s.cells(a[0], depth + 1):
                    if r:
                        raise Unsupported('array of containers')
                    out.append(((), i * z + o, w, dv))
            return out
        if c == 'std::pair':
            o2 = s.pair_off(t)
            out = []
            for base, x in ((0, a[0]), (o2, a[1])):
                out += s.shift(s.cells(x, depth + 1), base)
            return out
        r = s.rec(t)
        if r is None:
            raise Unsupported('layout of ' + t)
        m, ref, d = r
        if d.get('tag') == 'DW_TAG_enumeration_type':
            z = int(d['size'])
            return [((), 0, z, bvv(0, z))]
        return s.di_cells(m, ref, depth)
    def shift(s, cells, base):
        return [(((r[0] + base,) + r[1:], o, w, dv) if r else ((), o + base, w, dv)) for r, o, w, dv in cells]
    def di_cells(s, m, ref, depth):
        out = []
        for n, o, tr, sz in m.fields(ref):
            x = m.strip(tr)
            d = m.mdnode(x) if x else None
            if d is None:
                raise Unsupported('layout')
            if d.get('_') == 'DIBasicType':
                out.append(((), o, int(d['size']), bvv(0, int(d['size']))))
            elif d.get('tag') in ('DW_TAG_pointer_type', 'DW_TAG_reference_type', 'DW_TAG_ptr_to_member_type', 'DW_TAG_rvalue_reference_type'):
                out.append(((), o, 64, bvv(0)))
            elif d.get('tag') == 'DW_TAG_enumeration_type':
                out.append(((), o, int(d['size']), bvv(0, int(d['size']))))
            elif 'identifier' in d:
                import ll
                tn = ll.demangle_all([d['identifier']])[d['identifier']].replace('typeinfo name for ', '')
                tn = re.sub(r'\[abi:[^\]]*\]', '', tn)
                out += s.shift(s.cells(tn, depth + 1), o)
            elif d.get('tag') == 'DW_TAG_array_type':
                # array of basic elements
                bt = m.strip(d['baseType']); bd = m.mdnode(bt)
                total = int(d['size']) // 8
                if bd.get('_') != 'DIBasicType':
                    if 'identifier' in bd:
                        import ll
                        tn = re.sub(r'\[abi:[^\]]*\]', '', ll.demangle_all([bd['identifier']])[bd['identifier']].replace('typeinfo name for ', ''))
                        z = s.size(tn)
                        for i in range(total // z):
                            out += s.shift(s.cells(tn, depth + 1), o + i * z)
                        continue
                    raise Unsupported('layout of array')
                z = int(bd['size']) // 8
                for i in range(total // z):
                    out.append(((), o + i * z, z * 8, bvv(0, z * 8)))
            else:
                raise Unsupported('layout of field ' + n)
        return out

def types(eng):
    if getattr(eng, '_types', None) is None or eng._types_n != len(eng.mods):
        eng._types = Types(eng); eng._types_n = len(eng.mods)
    return eng._types

# ------------------------------------------------------------------ object values
def at_rest(p, rest, off):
    """address of a cell given relative to p"""
    q = p
    if rest:
        if rest[0]:
            q = q.add(rest[0])
        for x in rest[1:]:
            q = q.sub(x)
    return q.add(off) if off else q

def materialize(eng, st, p, ty):
    """make sure that all abstract cells of the object exist, so that generic copying is complete"""
    try:
        cells = types(eng).cells(ty)
    except Unsupported:
        return False
    for r, o, w, dv in cells:
        if r and r[-1] == 'e' or r and 'e' in r:
            touch_elems(eng, st, p, r, o, w)
            continue
        st.mem.get(at_rest(p, r, o), w)
    return True

def touch_elems(eng, st, p, r, o, w):
    """materialize an element-array cell below p (r contains one 'e' selector)"""
    i = r.index('e')
    q = p.add(r[0]) if r[0] else p
    for x in r[1:i]:
        q = q.sub(x)
    q = q.sub(Sel('e', z3.BitVec('dummy_index', 64), 1))
    rest = r[i + 1:]
    if 'e' in rest:
        j = rest.index('e')
        if rest[0]:
            q = q.add(rest[0])
        for x in rest[1:j]:
            q = q.sub(x)
        q = q.sub(Sel('e', z3.BitVec('dummy_index2', 64), 1))
        rest = rest[j + 1:]
        if 'e' in rest:
            return
    if rest:
        if rest[0]:
            q = q.add(rest[0])
        for x in rest[1:]:
            q = q.sub(x)
    st.mem.get(q.add(o) if o else q, w)

def user_copy(eng, T):
    """T is a class whose objects are copied by running code of its own (None: no such class)"""
    memo = eng.__dict__.setdefault('_user_copy', {})
    T = norm_ty(T)
    if T not in memo:
        base = tmpl(T)[0].split('::')[-1]
        memo[T] = T not in BASIC and not T.startswith('std::') and any(m.dem[f].startswith(f'{T}::{base}({T} const&)') for m in eng.mods for f in list(m._ftext) + list(m._decl))
    return memo[T]
def is_handle(eng, T):
    """T is one of podio's handle or interface classes"""
    for m in eng.mods:
        r = m.record(norm_ty(T))
        if r:
            fs = m.fields(r)
            return len(fs) == 1 and (fs[0][0] == 'm_obj' and fs[0][3] == 16 or fs[0][0] == 'm_self' and fs[0][3] == 8)
    return False
IS_OBJECT = z3.Function('is_object', z3.BitVecSort(64), z3.BoolSort())      # an object of a datatype (and not, say, a control block or a buffer)
IS_CTRL = z3.Function('is_control_block', z3.BitVecSort(64), z3.BoolSort())
E.IS_CTRL = IS_CTRL
def counts_change(eng, st, vec, T, lo, hi, up):
    """handles come or go together with the elements lo..hi-1 of a container: counters of control blocks change, and no other memory
    (a control block is never an object of a datatype)"""
    if not is_handle(eng, T):
        raise Unsupported(f'copies of many {T}')
    x = z3.BitVec('x!%d' % next(E._uid), 64)
    st.mem.get(Ptr(HEAP, (Sel('h', x),)), 32)
    key = (HEAP.id, (0, 'h'))
    cw, arr = st.mem.cells[key][0]
    new = fresh('counts', arr.sort())
    st.facts.append(z3.ForAll([x], z3.Or(z3.Select(new, x) == z3.Select(arr, x), z3.And(IS_CTRL(x), z3.Not(IS_OBJECT(x)), lo != hi, z3.UGT(z3.Select(new, x), z3.Select(arr, x)) if up else z3.ULT(z3.Select(new, x), z3.Select(arr, x)))), patterns=[z3.Select(new, x)]))
    st.mem._put(key, 0, cw, new)
def drop(eng, st, vec, T, lo, hi):
    """elements lo..hi-1 are destroyed"""
    T = norm_ty(T)
    if user_copy(eng, T) and not is_true(simp(lo == hi)):
        counts_change(eng, st, vec, T, lo, hi, False)
        st.events.append(('drop', vec, lo, hi))

def copy_val(eng, st, src, dst, ty):
    ty = norm_ty(ty)
    if ty == STR:
        set_str(st, dst, get_str(eng, st, src))
        return
    materialize(eng, st, src, ty)
    try:
        parts = types(eng).cells(ty)
    except Unsupported:
        parts = None
    st.mem.copyobj(src, dst, types(eng).size(ty), None if parts is None else {r[:2] for r, o, w, dv in parts if r})

def default_val(eng, st, p, ty):
    for r, o, w, dv in types(eng).cells(ty):
        if 'e' in r:
            continue
        st.mem.put(at_rest(p, r, o), w, dv)

def vlen(st, p):
    return term(st.mem.get(p.sub('#len'), 64))
def set_vlen(st, p, n):
    st.mem.put(p.sub('#len'), 64, simp(n))
def get_str(eng, st, p):
    if p.root.kind == 'strview':
        return p.root.sterm
    if p.steps and isinstance(p.steps[-1], Sel) and p.steps[-1].k == 'k' and p.steps[-1].t.sort() == StrS:
        return p.steps[-1].t
    return st.mem.get(p.sub('#str'), StrS)
def set_str(st, p, v):
    st.mem.put(p.sub('#str'), StrS, v)

def cstr(eng, st, p):
    """char const* -> Str term"""
    if p.root.kind == 'strbuf':
        if len(p.steps) == 2 and is_true(simp(p.steps[1].t == 0)):
            return p.root.sterm
        raise Unsupported('pointer into a string')
    if p.root.kind == 'global':
        b = gbytes(eng, p)
        if b is not None:
            return eng.lit(b[:b.index(0)] if 0 in b else b)
    if p.root is HEAP and len(p.steps) == 1 and isinstance(p.steps[0], Sel):
        return CSTR(p.steps[0].t)
    raise Unsupported('C string of unknown origin')
def dyncast(eng, st, a, ins, dem):
    """dynamic_cast of a pointer to an object whose virtual table is known"""
    vt = st.mem.get(a[0], 64)
    if not (isinstance(vt, Ptr) and vt.root.kind == 'global' and vt.root.name.startswith('_ZTV')):
        raise Unsupported('dynamic_cast of an object of unknown dynamic type')
    off = eng.load(st, vt.add(-16), PTR, eng.mods[0]) if vt.steps and vt.steps[-1] >= 16 else None
    if off is None or not (isinstance(off, Ptr) and off.root.kind == 'null' or z3.is_expr(off) and is_true(simp(off == 0))):
        raise Unsupported('dynamic_cast of a subobject')
    want = a[2].root.name
    have = '_ZTI' + vt.root.name[4:]
    todo, bases = [have], set()
    while todo:
        x = todo.pop()
        if x == want:
            break
        m = next((m for m in eng.mods if x in m._gtext), None)
        if m is None:
            raise Unsupported('dynamic_cast from a type with unknown bases: ' + x)
        todo += [y for y in set(re.findall(r'@(_ZTI[A-Za-z0-9_]+)', m._gtext[x])) - {x} - bases]
        bases.add(x)
    else:
        return NULL
    if want != have and any('__vmi_class' in eng_text(eng, x) for x in bases):
        raise Unsupported('dynamic_cast with multiple bases')
    return a[0]
def eng_text(eng, x):
    return next((m._gtext[x] for m in eng.mods if x in m._gtext), '')
def memcmp_(eng, st, a, ins, n):
    """bytewise comparison of a small, known number of bytes"""
    k = simp(term(a[2]))
    if not z3.is_bv_value(k) or k.as_long() > 64:
        raise Unsupported('memcmp of symbolic size')
    r = bvv(0, 32)
    for i in reversed(range(k.as_long())):
        x = term(st.mem.get(a[0].add(i) if i else a[0], 8), st.mem); y = term(st.mem.get(a[1].add(i) if i else a[1], 8), st.mem)
        r = z3.If(x == y, r, z3.If(z3.ULT(x, y), bvv(-1, 32), bvv(1, 32)))
    return simp(r)
def strcmp(eng, st, a, ins, dem):
    r = fresh('strcmp', z3.BitVecSort(32))
    x, y = cstr(eng, st, a[0]), cstr(eng, st, a[1])
    st.facts.append((r == 0) == (x == y))
    return r
def gbytes(eng, p):
    g = p.root.init
    while g and g[0] == 'var' and g[2] is not None and g[2][0] == 'agg' and len(g[2][1]) == 1:      # struct with one array
        x = g[2][1][0]
        g = ('var', g[1], x[1] if isinstance(x[0], E.Ty) else x) + tuple(g[3:])
    if g and g[0] == 'var' and g[2] is not None and g[2][0] in ('str', 'zero'):
        off = p.steps[0] if p.steps else 0
        if not isinstance(off, int):
            return None
        if g[2][0] == 'zero':
            return b'\0'
        return bytes(g[2][1])[off:]
    return None
ssub = z3.Function('ssub', StrS, BV64, BV64, StrS)
viewof = z3.Function('viewof', BV64, BV64, StrS)
def substring(eng, s, off, ln):
    t = ssub(s, off, ln)
    k = ('ssub', t.get_id())
    if k not in eng.globals:
        eng.globals[k] = t
        i = z3.BitVec('i', 64)
        ok = z3.And(z3.ULE(off, slen(s)), z3.ULE(ln, slen(s) - off))
        eng.axioms.append(z3.Implies(ok, z3.And(slen(t) == ln, z3.ForAll([i], z3.Implies(z3.ULT(i, ln), schar(t, i) == schar(s, off + i)), patterns=[schar(t, i)]))))
    return t
def view(eng, st, ln, p):
    """(length, char const*) -> Str term; characters behind pointers of unknown origin are taken as constant"""
    ln = simp(term(ln))
    if z3.is_expr(p) or p.root.kind == 'heap' and len(p.steps) == 1 and isinstance(p.steps[0], Sel) and p.steps[0].k == 'h':
        t = viewof(term(p, st.mem), ln)
        st.assume(slen(t) == ln)
        return t
    if p.root.kind == 'strbuf' and len(p.steps) == 2 and is_true(simp(p.steps[1].t == 0)):
        if eng.valid(st, ln == slen(p.root.sterm)):
            return p.root.sterm
    if p.root.kind == 'strbuf' and len(p.steps) == 2 and isinstance(p.steps[1], Sel) and p.steps[1].size == 1:
        return substring(eng, p.root.sterm, simp(p.steps[1].t), ln)
    if p.root.kind == 'global' and z3.is_bv_value(ln):
        b = gbytes(eng, p)
        if b is not None:
            return eng.lit(b[:ln.as_long()])
    if p.root.kind == 'global' and not z3.is_bv_value(ln):
        b = gbytes(eng, p)
        if b is not None:
            b = bytes(b).split(b'\0')[0]
            if eng.valid(st, ln == len(b)):
                return eng.lit(b)
    if p.root is NULLR and z3.is_bv_value(ln) and ln.as_long() == 0:
        return eng.lit(b'')
    raise Unsupported('string view of unknown origin')
def bufptr(eng, s, off=None):
    return Ptr(eng.strbuf(s), ('#elems', Sel('e', bvv(0) if off is None else off, 1)))
def str_arg(eng, st, ty, a):
    """argument list (consumes 1 or 2 IR arguments) of C++ type ty -> (Str term, rest)"""
    t = norm_ty(ty)
    if t == STR:
        return get_str(eng, st, a[0]), a[1:]
    if t == SVIEW or t.startswith('std::basic_string_view') or t.startswith('std::type_identity') or t.startswith('std::__type_identity'):
        if ty.rstrip().endswith('&'):
            return view(eng, st, eng.load(st, a[0], INT(64), eng.mods[0]), eng.load(st, a[0].add(8), PTR, eng.mods[0])), a[1:]
        return view(eng, st, a[0], a[1]), a[2:]
    if t in ('char const*', 'char*') or t.startswith('char const') or t.startswith('char ('):
        if t.endswith('*') and ty.rstrip().endswith('&'):
            return cstr(eng, st, eng.load(st, a[0], PTR, eng.mods[0])), a[1:]
        return cstr(eng, st, a[0]), a[1:]
    raise Unsupported('string argument ' + ty)

def b2i(c):
    return simp(c)

def boolret(eng, ins, c):
    """a C++ bool as the call's IR type wants it"""
    t = ins.ty
    if t.k == 'int' and t.a == 1:
        return simp(c)
    return simp(z3.If(c, bvv(1, t.a), bvv(0, t.a)))

def fork2(eng, st, c):
    """-> [(state, bool)] feasible sides of c"""
    c = simp(c)
    if is_true(c):
        return [(st, True)]
    if z3.is_false(c):
        return [(st, False)]
    a = eng.feasible(st, c); b = eng.feasible(st, z3.Not(c))
    if a and b:
        s2 = st.fork()
        st.assume(c); s2.assume(z3.Not(c))
        return [(st, True), (s2, False)]
    if a:
        st.assume(c); return [(st, True)]
    if b:
        st.assume(z3.Not(c)); return [(st, False)]
    return []

H = {}      # (class, method) -> handler(eng, st, a, ins, n)
def reg(cls, *methods):
    def d(f):
        for c in (cls if isinstance(cls, (list, tuple)) else [cls]):
            for m in methods:
                H[(c, m)] = f
        return f
    return d

# ------------------------------------------------------------------ vector / deque
SEQ = ['std::vector', 'std::deque']
def esize(eng, n):
    return types(eng).size(n.cargs[0])

@reg(SEQ, 'size')
def _(eng, st, a, ins, n):
    return vlen(st, a[0])
@reg(SEQ, 'empty')
def _(eng, st, a, ins, n):
    return boolret(eng, ins, vlen(st, a[0]) == 0)
@reg(SEQ, 'capacity', 'max_size')
def _(eng, st, a, ins, n):
    return fresh('capacity', BV64)
@reg(SEQ, 'reserve', 'shrink_to_fit')
def _(eng, st, a, ins, n):
    return None
@reg(SEQ, 'operator[]')
def _(eng, st, a, ins, n):
    i = simp(term(a[1]))
    eng.safety(st, z3.ULT(i, vlen(st, a[0])), f'{n.cls}::operator[] index in range', ins)
    return a[0].elem(i, esize(eng, n))
@reg(SEQ, 'at')
def _(eng, st, a, ins, n):
    i = simp(term(a[1]))
    out = Forks()
    for s, ok in fork2(eng, st, z3.ULT(i, vlen(st, a[0]))):
        out.append((s, a[0].elem(i, esize(eng, n)) if ok else Throw('_ZTISt12out_of_range')))
    return out
@reg(SEQ, 'front')
def _(eng, st, a, ins, n):
    eng.safety(st, vlen(st, a[0]) != 0, f'{n.cls}::front not empty', ins)
    return a[0].elem(bvv(0), esize(eng, n))
@reg(SEQ, 'back')
def _(eng, st, a, ins, n):
    L = vlen(st, a[0])
    eng.safety(st, L != 0, f'{n.cls}::back not empty', ins)
    return a[0].elem(simp(L - 1), esize(eng, n))
@reg('std::vector', 'begin', 'cbegin', 'data')
def _(eng, st, a, ins, n):
    return a[0].elem(bvv(0), esize(eng, n))
@reg('std::vector', 'end', 'cend')
def _(eng, st, a, ins, n):
    return a[0].elem(vlen(st, a[0]), esize(eng, n))
@reg(SEQ, 'clear')
def _(eng, st, a, ins, n):
    drop(eng, st, a[0], n.cargs[0], bvv(0), vlen(st, a[0]))
    set_vlen(st, a[0], bvv(0))
@reg(SEQ, 'pop_back')
def _(eng, st, a, ins, n):
    L = vlen(st, a[0])
    eng.safety(st, L != 0, f'{n.cls}::pop_back not empty', ins)
    drop(eng, st, a[0], n.cargs[0], L - 1, L)
    set_vlen(st, a[0], L - 1)

LENMAX = 1 << 40
def append(eng, st, p, T, put):
    L = vlen(st, p)
    st.assume(z3.ULT(L, bvv(LENMAX)))
    e = p.elem(L, types(eng).size(T))
    put(e)
    set_vlen(st, p, L + 1)
    return e

def store_scalar(eng, st, e, T, v):
    st.mem.put(e, BASIC[norm_ty(T)] * 8 if norm_ty(T) in BASIC else 64, v)

def construct(eng, st, e, T, ptypes, args):
    """construct a T at e from constructor arguments (references are passed as pointers)"""
    T = norm_ty(T)
    if not args:
        default_val(eng, st, e, T)
        return
    if len(args) == 1:
        pt = norm_ty(ptypes[0]) if ptypes else T
        if pt == T and user_copy(eng, T):
            raise Native()
        if pt == T:
            copy_val(eng, st, args[0], e, T)
            if ptypes and ptypes[0].endswith('&&'):
                moved_from(eng, st, args[0], T)
            return
        if T == STR:
            v, rest = str_arg(eng, st, ptypes[0], args)
            set_str(st, e, v)
            return
        if T in BASIC and pt in BASIC:
            x = term(st.mem.get(args[0], BASIC[pt] * 8))
            w = BASIC[T] * 8
            if x.size() == w:
                pass
            elif x.size() > w and T not in ('float', 'double'):
                x = z3.Extract(w - 1, 0, x)
            else:
                raise Unsupported('conversion')
            st.mem.put(e, w, simp(x))
            return
        if T.endswith('*') and pt.endswith('*') or tmpl(T)[0] == 'std::unique_ptr' and (pt.endswith('*') or tmpl(pt)[0] == 'std::unique_ptr'):
            v = st.mem.get(args[0], 64)
            st.mem.put(e, 64, v)
            if tmpl(T)[0] == 'std::unique_ptr' and tmpl(pt)[0] == 'std::unique_ptr':
                st.mem.put(args[0], 64, NULL)
            return
    c, ta = tmpl(T)
    if c == 'std::pair' and len(args) == 2:
        construct(eng, st, e, ta[0], [ptypes[0]], [args[0]])
        construct(eng, st, e.add(types(eng).pair_off(T)) if types(eng).pair_off(T) else e, ta[1], [ptypes[1]], [args[1]])
        return
    raise Native()

class Native(Exception):
    """no abstract contract: execute the constructor's own body"""

def moved_from(eng, st, p, T):
    """value left behind by a move"""
    T = norm_ty(T)
    c, a = tmpl(T)
    if p.steps and any(isinstance(x, Sel) for x in p.steps):
        if c == 'std::unique_ptr':
            st.mem.put(p, 64, NULL)
        return
    if c == 'std::unique_ptr':
        st.mem.put(p, 64, NULL)
    elif c in SEQ:
        set_vlen(st, p, bvv(0))
    elif T == STR:
        set_str(st, p, fresh('moved_from', StrS))
    elif c == 'std::function':
        st.mem.put(p.sub('#fn'), FnS, NULLFN)

def find_ctor(eng, T, ptypes):
    """a constructor of T whose body is available, taking these parameter types"""
    T = norm_ty(T)
    base = tmpl(T)[0].split('::')[-1]
    want = [norm_ty(x) for x in ptypes]
    for m in eng.mods:
        for f in m._ftext:
            d = m.dem[f]
            if d.startswith(T + '::' + base + '(') or d.startswith(T + '::' + base + '<'):
                k = nm(d)
                if [norm_ty(x) for x in k.params] == want and 'C2' in f:
                    return f
    return None

def construct_any(eng, st, e, T, ptypes, args, ins, result, after=None):
    """construct in place; falls back to running the real constructor"""
    try:
        construct(eng, st, e, T, ptypes, args)
        return result
    except Native:
        pass
    f = find_ctor(eng, T, ptypes)
    if f is None:
        raise Unsupported(f'construction of {T} from {ptypes}')
    call_args = [e]
    fn = eng.func(f)
    for (t, n_, at), p, v in zip(fn.params[1:], [x for x in nm(fn.dem).params], args):
        call_args.append(v)
    # by-value parameters of scalar type: load
    out = Forks()
    ps = nm(fn.dem).params
    cargs = [e]
    for p, v in zip(ps, args):
        if p.rstrip().endswith('&'):
            cargs.append(v)
        elif norm_ty(p) in BASIC:
            x = st.mem.get(v, BASIC[norm_ty(p)] * 8)
            cargs.append(x)
        elif norm_ty(p).endswith('*'):
            cargs.append(eng.load(st, v, PTR, eng.mods[0]))
        else:
            cargs.append(v)
    for pred, spec in eng.contracts:
        if pred(fn.dem):
            eng.stats['used_contracts'].add(fn.dem)
            spec(eng, st, cargs, ins, fn.dem)
            return result
    for o in eng.call_fn(st, f, cargs):
        if o.kind == 'ret':
            out.append((o.st, result))
        elif o.kind == 'throw':
            out.append((o.st, Throw(o.val)))
        else:
            out.append((o.st, o))
    return out

@reg(SEQ, 'push_back')
def _(eng, st, a, ins, n):
    T = n.cargs[0]
    L = vlen(st, a[0])
    st.assume(z3.ULT(L, bvv(LENMAX)))
    e = a[0].elem(L, esize(eng, n))
    set_vlen(st, a[0], L + 1)
    return construct_any(eng, st, e, T, [n.params[0]], [a[1]], ins, None)
@reg(SEQ, 'emplace_back')
def _(eng, st, a, ins, n):
    T = n.cargs[0]
    L = vlen(st, a[0])
    st.assume(z3.ULT(L, bvv(LENMAX)))
    e = a[0].elem(L, esize(eng, n))
    set_vlen(st, a[0], L + 1)
    return construct_any(eng, st, e, T, n.params, a[1:], ins, e if ins.ty.k == 'ptr' else None)

def default_fill(eng, st, p, T, lo, hi):
    """elements lo..hi-1 get default values; others keep theirs"""
    for r, o, w, dv in types(eng).cells(T):
        if 'e' in r:
            continue
        fill_cell(eng, st, at_rest(p.elem(z3.BitVec('dummy_index', 64), types(eng).size(T)), r, o), w, lo, hi, dv)
def fill_cell(eng, st, cell, w, lo, hi, dv):
        st.mem.get(cell, w)
        root, prefix, off, idxs = st.mem.norm(cell)
        key = (root.id, prefix)
        if off not in st.mem.cells[key]:
            raise Unsupported('fill')
        cw, arr = st.mem.cells[key][off]
        if cw is not w and cw != w:
            raise Unsupported('fill width')
        outer = idxs[:-1]
        sub = arr
        for t in outer:
            sub = z3.Select(sub, t)
        new = fresh('fill', sub.sort())
        i = z3.BitVec('i!%d' % next(E._uid), 64)
        st.facts.append(z3.ForAll([i], z3.Select(new, i) == z3.If(z3.And(z3.UGE(i, lo), z3.ULT(i, hi)), dv, z3.Select(sub, i)), patterns=[z3.Select(new, i)]))
        st.mem._put(key, off, cw, st.mem._store(arr, outer, new) if outer else new)

@reg(SEQ, 'resize')
def _(eng, st, a, ins, n):
    L = vlen(st, a[0]); m = simp(term(a[1]))
    if len(a) > 2 or user_copy(eng, n.cargs[0]):
        raise Unsupported('resize with value')
    out = Forks()
    for s, grow in fork2(eng, st, z3.UGT(m, L)):
        if grow:
            default_fill(eng, s, a[0], n.cargs[0], L, m)
        set_vlen(s, a[0], m)
        out.append((s, None))
    return out

@reg(SEQ, 'assign')
def _(eng, st, a, ins, n):
    T = n.cargs[0]
    if len(n.params) != 2 or norm_ty(n.params[0]) != 'unsigned long':
        raise Unsupported('assign ' + n.dem[:120])
    return seq_fill(eng, st, a, T)
def seq_fill(eng, st, a, T):
    # elements of a copied value: unknown contents unless the value is stored in simple cells
    cnt = simp(term(a[1]))
    src = a[2]
    for r, o, w, dv in types(eng).cells(T):
        if 'e' in r:
            raise Unsupported('assign of containers')
    for r, o, w, dv in types(eng).cells(T):
        q = at_rest(a[0].elem(z3.BitVec('dummy_index', 64), types(eng).size(T)), r, o)
        v = st.mem.get(at_rest(src, r, o), w)
        fill_cell(eng, st, q, w, bvv(0), cnt, v if z3.is_expr(v) else term(v, st.mem))
    set_vlen(st, a[0], cnt)
def range_fill(eng, st, dst, lo, src, sb, cnt, T):
    """elements lo..lo+cnt-1 of dst become copies of the elements sb..sb+cnt-1 of src; the others keep their values"""
    q = z3.BitVec('dummy_index', 64); z = types(eng).size(T)
    new = []
    for r, o, w, dv in types(eng).cells(T):
        if 'e' in r:
            raise Unsupported('range of containers')
        sc = at_rest(src.elem(q, z), r, o); dc = at_rest(dst.elem(q, z), r, o)
        i = z3.BitVec('i!%d' % next(E._uid), 64)
        v = st.mem.get(sc, w); v = v if z3.is_expr(v) else term(v, st.mem)
        new.append((dc, w, i, z3.substitute(v, (q, simp(i - lo + sb)))))
    for dc, w, i, v in new:
        st.mem.get(dc, w)
        root, prefix, off, idxs = st.mem.norm(dc)
        key = (root.id, prefix)
        if off not in st.mem.cells[key] or st.mem.cells[key][off][0] != w:
            raise Unsupported('range width')
        cw, arr = st.mem.cells[key][off]
        outer = idxs[:-1]; sub = arr
        for t in outer:
            sub = z3.Select(sub, t)
        f = fresh('range', sub.sort())
        st.facts.append(z3.ForAll([i], z3.Select(f, i) == z3.If(z3.And(z3.UGE(i, lo), z3.ULT(i, lo + cnt)), v, z3.Select(sub, i)), patterns=[z3.Select(f, i)]))
        st.mem._put(key, off, cw, st.mem._store(arr, outer, f) if outer else f)
def seq_range(eng, st, first, last, T):
    """iterator pair -> (container, first index, number of elements)"""
    c, i, z = seq_of(first); d, j, _ = seq_of(last)
    if c.root is not d.root or z != types(eng).size(T) or not is_true(simp(term(c) == term(d))):
        raise Unsupported('iterator range')
    return c, i, simp(j - i)
@reg('std::vector', 'insert')
def _(eng, st, a, ins, n):
    T = n.cargs[0]
    if len(n.params) != 3 or len(a) != 4 or '__normal_iterator' not in n.params[1] or norm_ty(n.params[1]) != norm_ty(n.params[2]):
        raise Unsupported('insert ' + n.dem[:160])
    c, p, _z = seq_of(a[1])
    L = vlen(st, a[0])
    if not is_true(simp(p == L)):
        raise Unsupported('insert in the middle')
    src, sb, cnt = seq_range(eng, st, a[2], a[3], T)
    st.assume(z3.ULT(L + cnt, bvv(LENMAX)), z3.ULT(cnt, bvv(LENMAX)))
    range_fill(eng, st, a[0], L, src, sb, cnt, T)
    set_vlen(st, a[0], L + cnt)
    if user_copy(eng, T):
        counts_change(eng, st, a[0], T, L, simp(L + cnt), True)
    return a[1]
def seq_ctor(eng, st, a, ins, n):
    T = n.cargs[0]
    ps = [p for p in n.params if 'allocator' not in tmpl(norm_ty(p))[0]]
    if not ps:
        set_vlen(st, a[0], bvv(0))
        return None
    p0 = norm_ty(ps[0])
    if p0 == n.scope:
        copy_val(eng, st, a[1], a[0], n.scope)
        if ps[0].endswith('&&'):
            set_vlen(st, a[1], bvv(0))
        elif user_copy(eng, T):
            counts_change(eng, st, a[0], T, bvv(0), vlen(st, a[0]), True)
        return None
    if p0 in ('unsigned long',) and len(ps) == 1:
        set_vlen(st, a[0], bvv(0))
        default_fill(eng, st, a[0], T, bvv(0), simp(term(a[1])))
        set_vlen(st, a[0], term(a[1]))
        return None
    if p0 == 'unsigned long' and len(ps) == 2 and norm_ty(ps[1]) == norm_ty(T) and tmpl(n.scope)[0] != 'std::deque':
        cnt = simp(term(a[1]))
        if z3.is_bv_value(cnt) and cnt.as_long() <= 8:
            for i in range(cnt.as_long()):
                copy_val(eng, st, a[2], a[0].elem(bvv(i), types(eng).size(T)), T)
            set_vlen(st, a[0], cnt)
            return None
        return seq_fill(eng, st, a, T)
    if p0.startswith('std::initializer_list'):
        base, cnt = a[1], simp(term(a[2]))
        if not z3.is_bv_value(cnt):
            raise Unsupported('initializer list')
        z = types(eng).size(T)
        for i in range(cnt.as_long()):
            src = base.add(i * z) if i else base
            if src.root.kind == 'global':
                c = src.root
                v = eng.ginit(c.init[1], c.init[2], src.steps[0] if src.steps else 0, c.mod)
                x = eng.const(v[1], v[0], c.mod)
                st.mem.put(a[0].elem(bvv(i), z), types(eng).size(T) * 8, x)
            else:
                copy_val(eng, st, src, a[0].elem(bvv(i), z), T)
        set_vlen(st, a[0], cnt)
        return None
    if tmpl(n.scope)[0] == 'std::vector' and len(ps) == 2 and '__normal_iterator' in p0 and norm_ty(ps[1]) == p0:
        src, sb, cnt = seq_range(eng, st, a[1], a[2], T)
        st.assume(z3.ULT(cnt, bvv(LENMAX)))
        set_vlen(st, a[0], bvv(0))
        range_fill(eng, st, a[0], bvv(0), src, sb, cnt, T)
        set_vlen(st, a[0], cnt)
        if user_copy(eng, T):
            counts_change(eng, st, a[0], T, bvv(0), cnt, True)
        return None
    raise Unsupported('constructor ' + n.dem[:200])
def seq_dtor(eng, st, a, ins, n):
    if user_copy(eng, n.cargs[0]):
        drop(eng, st, a[0], n.cargs[0], bvv(0), vlen(st, a[0]))
    return None
def seq_assign(eng, st, a, ins, n):
    p = n.params[0]
    if norm_ty(p) != n.scope:
        raise Unsupported('assignment ' + n.dem[:120])
    T = n.cargs[0]
    if user_copy(eng, T):
        drop(eng, st, a[0], T, bvv(0), vlen(st, a[0]))
    copy_val(eng, st, a[1], a[0], n.scope)
    if p.endswith('&&'):
        set_vlen(st, a[1], bvv(0))
    elif user_copy(eng, T):
        counts_change(eng, st, a[0], T, bvv(0), vlen(st, a[0]), True)
    return a[0]
for c in SEQ:
    H[(c, c.split('::')[1])] = seq_ctor
    H[(c, '~' + c.split('::')[1])] = seq_dtor
    H[(c, 'operator=')] = seq_assign
@reg(SEQ, 'swap')
def _(eng, st, a, ins, n):
    tmp = Ptr(Root('alloca', 'swap'))
    copy_val(eng, st, a[0], tmp, n.scope); copy_val(eng, st, a[1], a[0], n.scope); copy_val(eng, st, tmp, a[1], n.scope)

def seq_of(p):
    """element pointer -> (container pointer, index term, element size)"""
    st_ = list(p.steps)
    if st_ and isinstance(st_[-1], Sel) and st_[-1].k == 'e' and len(st_) >= 2 and st_[-2] == '#elems':
        return Ptr(p.root, tuple(st_[:-2])), st_[-1].t, st_[-1].size
    raise Unsupported(f'iterator {p}')

# deque iterators: the _M_cur word holds the element pointer
DIT = 'std::_Deque_iterator'
def dit_get(eng, st, it):
    return eng.load(st, it, PTR, eng.mods[0])
def dit_set(st, it, p):
    st.mem.put(it, 64, p)
    for o in (8, 16, 24):
        st.mem.put(it.add(o), 64, NULL)
@reg('std::deque', 'begin', 'cbegin')
def _(eng, st, a, ins, n):
    dit_set(st, a[0], a[1].elem(bvv(0), esize(eng, n)))
@reg('std::deque', 'end', 'cend')
def _(eng, st, a, ins, n):
    dit_set(st, a[0], a[1].elem(vlen(st, a[1]), esize(eng, n)))
def pmove(p, k):
    c, i, z = seq_of(p)
    return c.elem(simp(i + k), z)
@reg(DIT, 'operator*', 'operator->')
def _(eng, st, a, ins, n):
    return dit_get(eng, st, a[0])
@reg(DIT, 'operator++', 'operator--')
def _(eng, st, a, ins, n):
    d = bvv(1 if n.method == 'operator++' else -1)
    if n.params:        # postfix: a = [ret, this, int]
        old = dit_get(eng, st, a[1])
        dit_set(st, a[0], old); st.mem.put(a[1], 64, pmove(old, d))
        return None
    st.mem.put(a[0], 64, pmove(dit_get(eng, st, a[0]), d))
    return a[0]
@reg(DIT, 'operator+=', 'operator-=')
def _(eng, st, a, ins, n):
    k = term(a[1])
    st.mem.put(a[0], 64, pmove(dit_get(eng, st, a[0]), k if n.method == 'operator+=' else -k))
    return a[0]
@reg(DIT, '_Deque_iterator')
def _(eng, st, a, ins, n):
    if not n.params:
        dit_set(st, a[0], NULL)
    else:
        dit_set(st, a[0], dit_get(eng, st, a[1]))
@reg(DIT, 'operator=')
def _(eng, st, a, ins, n):
    dit_set(st, a[0], dit_get(eng, st, a[1])); return a[0]
@reg(DIT, 'operator[]')
def _(eng, st, a, ins, n):
    return pmove(dit_get(eng, st, a[0]), term(a[1]))

# ------------------------------------------------------------------ map / set
MAPS = ['std::map', 'std::unordered_map']
SETS = ['std::set', 'std::unordered_set']
def keysort(eng, K):
    K = norm_ty(K)
    if K == STR or K.startswith('std::basic_string_view'):
        return StrS
    if K in BASIC:
        return z3.BitVecSort(BASIC[K] * 8)
    if K.endswith('*'):
        return BV64
    r = types(eng).rec(K)
    if r and r[2].get('tag') == 'DW_TAG_enumeration_type':
        return z3.BitVecSort(int(r[2]['size']))
    raise Unsupported('map key ' + K)
def hassort(ks):
    return z3.ArraySort(ks, z3.BoolSort())
def getkey(eng, st, K, ty, a):
    """key argument(s) -> (term, remaining arguments)"""
    ks = keysort(eng, K)
    if ks == StrS:
        return str_arg(eng, st, ty, a)
    if isinstance(a[0], Ptr) and ty.rstrip().endswith('&'):
        p = a[0]
        if p.steps and isinstance(p.steps[-1], Sel) and p.steps[-1].k == 'k' and p.steps[-1].t.sort() == ks:
            return p.steps[-1].t, a[1:]
        return term(st.mem.get(a[0], ks.size()), st.mem), a[1:]
    return term(a[0], st.mem), a[1:]
def mhas(eng, st, p, K):
    return st.mem.get(p.sub('#has'), hassort(keysort(eng, K)))
def msize(st, p):
    return term(st.mem.get(p.sub('#size'), 64))
def node(p, k):
    return p.sub('#node').sub(Sel('k', k))
def mend(p):
    return p.sub('#end')
def minsert(eng, st, p, K, k):
    st.mem.put(p.sub('#has'), hassort(k.sort()), simp(z3.Store(mhas(eng, st, p, K), k, True)))
    if z3.is_expr(msize(st, p)):        # otherwise a size that is unknown after a loop stays unknown
        st.assume(z3.ULT(msize(st, p), bvv(LENMAX)))
        st.mem.put(p.sub('#size'), 64, simp(msize(st, p) + 1))
def voff(eng, n):
    return types(eng).pair_off(f'std::pair<{n.cargs[0]} const, {n.cargs[1]}>')

@reg(MAPS + SETS, 'find')
def _(eng, st, a, ins, n):
    K = n.cargs[0]
    k, _ = getkey(eng, st, K, n.params[0], a[1:])
    out = Forks()
    for s, yes in fork2(eng, st, z3.Select(mhas(eng, st, a[0], K), k)):
        out.append((s, node(a[0], k) if yes else mend(a[0])))
    return out
@reg(MAPS + SETS, 'contains')
def _(eng, st, a, ins, n):
    k, _ = getkey(eng, st, n.cargs[0], n.params[0], a[1:])
    return boolret(eng, ins, z3.Select(mhas(eng, st, a[0], n.cargs[0]), k))
@reg(MAPS + SETS, 'count')
def _(eng, st, a, ins, n):
    k, _ = getkey(eng, st, n.cargs[0], n.params[0], a[1:])
    return simp(z3.If(z3.Select(mhas(eng, st, a[0], n.cargs[0]), k), bvv(1), bvv(0)))
@reg(MAPS + SETS, 'end', 'cend')
def _(eng, st, a, ins, n):
    return mend(a[0])
@reg(MAPS + SETS, 'size')
def _(eng, st, a, ins, n):
    msize_facts(eng, st, a[0], n)
    return msize(st, a[0])
def msize_facts(eng, st, p, n):
    pass
@reg(MAPS + SETS, 'empty')
def _(eng, st, a, ins, n):
    return boolret(eng, ins, msize(st, a[0]) == 0)
@reg(MAPS + SETS, 'clear')
def _(eng, st, a, ins, n):
    ks = keysort(eng, n.cargs[0])
    st.mem.put(a[0].sub('#has'), hassort(ks), z3.K(ks, z3.BoolVal(False)))
    st.mem.put(a[0].sub('#size'), 64, bvv(0))
@reg(MAPS, 'at')
def _(eng, st, a, ins, n):
    k, _ = getkey(eng, st, n.cargs[0], n.params[0], a[1:])
    out = Forks()
    for s, yes in fork2(eng, st, z3.Select(mhas(eng, st, a[0], n.cargs[0]), k)):
        out.append((s, node(a[0], k).add(voff(eng, n)) if yes else Throw('_ZTISt12out_of_range')))
    return out
@reg(MAPS, 'operator[]')
def _(eng, st, a, ins, n):
    k, _ = getkey(eng, st, n.cargs[0], n.params[0], a[1:])
    out = Forks()
    for s, yes in fork2(eng, st, z3.Select(mhas(eng, st, a[0], n.cargs[0]), k)):
        v = node(a[0], k).add(voff(eng, n))
        if not yes:
            minsert(eng, s, a[0], n.cargs[0], k)
            default_val(eng, s, v, n.cargs[1])
        out.append((s, v))
    return out
def pairret(eng, ins, it, flag):
    return [it, bvv(1 if flag else 0, 8)]
@reg(MAPS, 'emplace', 'try_emplace', 'insert_or_assign')
def _(eng, st, a, ins, n):
    K, V = n.cargs[0], n.cargs[1]
    k, rest = getkey(eng, st, K, n.params[0], a[1:])
    out = Forks()
    for s, yes in fork2(eng, st, z3.Select(mhas(eng, st, a[0], K), k)):
        it = node(a[0], k)
        if not yes or n.method == 'insert_or_assign':
            if not yes:
                minsert(eng, s, a[0], K, k)
            v = it.add(voff(eng, n))
            try:
                construct(eng, s, v, V, n.params[1:], rest)
            except Native:
                raise Unsupported(f'emplace of {V} from {n.params[1:]}')
        out.append((s, pairret(eng, ins, it, not yes)))
    return out
@reg(MAPS, 'insert')
def _(eng, st, a, ins, n):
    K, V = n.cargs[0], n.cargs[1]
    if len(n.params) != 1 or not isinstance(a[1], Ptr):
        raise Unsupported('map insert ' + n.dem[:100])
    pt = norm_ty(n.params[0])
    c, ta = tmpl(pt)
    if c != 'std::pair':
        raise Unsupported('map insert')
    k, _ = getkey(eng, st, K, ta[0] + '&', [a[1]])
    o2 = types(eng).pair_off(pt)
    out = Forks()
    for s, yes in fork2(eng, st, z3.Select(mhas(eng, st, a[0], K), k)):
        it = node(a[0], k)
        if not yes:
            minsert(eng, s, a[0], K, k)
            construct(eng, s, it.add(voff(eng, n)), V, [ta[1] + ('&&' if n.params[0].endswith('&&') else '&')], [a[1].add(o2)])
        out.append((s, pairret(eng, ins, it, not yes)))
    return out
@reg(SETS, 'insert', 'emplace')
def _(eng, st, a, ins, n):
    if len(a) != 2:
        raise Unsupported('set insert')
    k, _ = getkey(eng, st, n.cargs[0], n.params[0], a[1:])
    out = Forks()
    for s, yes in fork2(eng, st, z3.Select(mhas(eng, st, a[0], n.cargs[0]), k)):
        if not yes:
            minsert(eng, s, a[0], n.cargs[0], k)
        out.append((s, pairret(eng, ins, node(a[0], k), not yes)))
    return out
@reg(MAPS + SETS, 'erase')
def _(eng, st, a, ins, n):
    p = a[1]
    if is_ord(p):
        m, keyat, i, sz = ord_parts(eng, p)
        eng.safety(st, z3.ULT(i, sz), 'erase of an end iterator', ins)
        p = node(m, keyat(i))
    if not (isinstance(p, Ptr) and p.steps and isinstance(p.steps[-1], Sel) and p.steps[-1].k == 'k' and 'iterator' in n.params[0]):
        k, _ = getkey(eng, st, n.cargs[0], n.params[0], a[1:])
    else:
        k = p.steps[-1].t
    out = Forks()
    for s, yes in fork2(eng, st, z3.Select(mhas(eng, st, a[0], n.cargs[0]), k)):
        if yes:
            s.mem.put(a[0].sub('#has'), hassort(k.sort()), simp(z3.Store(mhas(eng, s, a[0], n.cargs[0]), k, False)))
            s.mem.put(a[0].sub('#size'), 64, simp(msize(s, a[0]) - 1))
        out.append((s, bvv(1 if yes else 0) if ins.ty.k == 'int' else mend(a[0])))
    return out
def order(eng, st, p, K):
    """some enumeration of the keys present now"""
    has = mhas(eng, st, p, K); sz = msize(st, p)
    ck = ('order', has.get_id(), sz.get_id())
    if ck not in eng.globals:
        ks = keysort(eng, K)
        u = next(E._uid)
        eng.globals[ck] = (z3.Function(f'keyat_{u}', BV64, ks), z3.Function(f'posof_{u}', ks, BV64), has, sz)
    keyat, posof, _, _ = eng.globals[ck]
    if ck not in st.ghost.get('orders', ()):
        st.ghost['orders'] = st.ghost.get('orders', ()) + (ck,)
        i = z3.BitVec('i!%d' % next(E._uid), 64)
        k = z3.Const('k!%d' % next(E._uid), keysort(eng, K))
        st.facts.append(z3.ForAll([i], z3.Implies(z3.ULT(i, sz), z3.And(z3.Select(has, keyat(i)), posof(keyat(i)) == i)), patterns=[keyat(i)]))
        st.facts.append(z3.ForAll([k], z3.Implies(z3.Select(has, k), z3.And(z3.ULT(posof(k), sz), keyat(posof(k)) == k)), patterns=[z3.Select(has, k)]))
        st.facts.append(z3.ULT(sz, bvv(LENMAX)))
    return keyat, posof, sz
def ordptr(eng, st, m, K, i):
    """iterator: position i in the enumeration of the keys"""
    keyat, posof, sz = order(eng, st, m, K)
    eng.orders = getattr(eng, 'orders', {})
    if keyat.name() not in eng.orders:
        eng.loop_instances = list(eng.loop_instances) + [sz]
    eng.orders[keyat.name()] = (keyat, posof, sz)
    return Ptr(m.root, m.steps + ('#ord_' + keyat.name(), Sel('e', i, 1)))
def is_ord(p):
    return isinstance(p, Ptr) and len(p.steps) >= 2 and isinstance(p.steps[-2], str) and p.steps[-2].startswith('#ord_')
def ord_parts(eng, p):
    keyat, posof, sz = eng.orders[p.steps[-2][5:]]
    return Ptr(p.root, p.steps[:-2]), keyat, p.steps[-1].t, sz
def ord_eq(eng, p, q):
    """iterator comparison, at least one is a position"""
    if not is_ord(p):
        p, q = q, p
    m, keyat, i, sz = ord_parts(eng, p)
    if is_ord(q):
        if p.steps[-2] != q.steps[-2]:
            raise Unsupported('comparison of iterators of different states of a map')
        return simp(i == q.steps[-1].t)
    if q.steps and q.steps[-1] == '#end':
        return simp(i == sz)
    if q.steps and isinstance(q.steps[-1], Sel) and q.steps[-1].k == 'k':
        return simp(z3.And(z3.ULT(i, sz), keyat(i) == q.steps[-1].t))
    raise Unsupported('comparison of map iterators')
@reg(MAPS + SETS, 'begin', 'cbegin')
def _(eng, st, a, ins, n):
    return ordptr(eng, st, a[0], n.cargs[0], bvv(0))
NIT = ['std::__detail::_Node_iterator', 'std::__detail::_Node_const_iterator', 'std::_Rb_tree_iterator', 'std::_Rb_tree_const_iterator']
@reg(NIT, 'operator*', 'operator->')
def _(eng, st, a, ins, n):
    p = eng.load(st, a[0], PTR, eng.mods[0])
    if is_mm(p):
        m, sel, i, sz, z = mm_parts(eng, p)
        eng.safety(st, z3.ULT(i, sz), 'dereference of an end iterator', ins)
        return m.elem(sel(i), z)
    if is_ord(p):
        m, keyat, i, sz = ord_parts(eng, p)
        eng.safety(st, z3.ULT(i, sz), 'dereference of an end iterator', ins)
        return node(m, keyat(i))
    if not (p.steps and isinstance(p.steps[-1], Sel) and p.steps[-1].k == 'k'):
        eng.safety(st, z3.BoolVal(False), 'dereference of an end iterator', ins)
        raise Unsupported('dereference of an end iterator')
    return p
@reg(NIT, 'operator++')
def _(eng, st, a, ins, n):
    p = eng.load(st, a[0], PTR, eng.mods[0])
    if is_mm(p):
        m, sel, i, sz, _ = mm_parts(eng, p)
    elif not is_ord(p):
        raise Unsupported('increment of a map iterator of unknown position')
    else:
        m, keyat, i, sz = ord_parts(eng, p)
    eng.safety(st, z3.ULT(i, sz), 'increment of an end iterator', ins)
    q = Ptr(p.root, p.steps[:-1] + (Sel('e', simp(i + 1), 1),))
    if n.params:     # postfix: the old value is returned
        st.mem.put(a[0], 64, q)
        return p
    st.mem.put(a[0], 64, q)
    return a[0]
@reg(NIT, 'operator--')
def _(eng, st, a, ins, n):
    raise Unsupported('decrement of a map iterator')
def map_ctor(eng, st, a, ins, n):
    K = n.cargs[0]
    ps = [p for p in n.params if 'allocator' not in tmpl(norm_ty(p))[0]]
    if not ps:
        H[('std::map', 'clear')](eng, st, a, ins, n)
        return None
    if norm_ty(ps[0]) == n.scope:
        return map_copy(eng, st, a, ins, n)
    raise Unsupported('map constructor')
def map_copy(eng, st, a, ins, n):
    mhas(eng, st, a[1], n.cargs[0]); msize(st, a[1])
    if len(n.cargs) > 1 and n.cls in MAPS:
        # materialize the value cells of the nodes
        d = z3.Const('dummy_key', keysort(eng, n.cargs[0]))
        try:
            materialize(eng, st, node(a[1], d).add(voff(eng, n)), n.cargs[1])
        except Unsupported:
            pass
    st.mem.copyobj(a[1], a[0], types_size_map(n))
    if n.params and n.params[0].endswith('&&'):
        H[('std::map', 'clear')](eng, st, [a[1]], ins, n)
    return a[0] if n.method == 'operator=' else None
def types_size_map(n):
    return 48 if n.cls in ('std::map', 'std::set') else 56
for c in MAPS + SETS:
    b = c.split('::')[1]
    H[(c, b)] = map_ctor
    H[(c, '~' + b)] = seq_dtor
    H[(c, 'operator=')] = map_copy

# ------------------------------------------------------------------ multimap
# the entries in the order of their insertion are the elements of a sequence; the entries with a key equivalent to k are an
# enumeration sel(0), .., sel(m-1) of the positions of this sequence that have such a key, in the order of insertion
MMAPS = ['std::multimap']
def mm_type(eng, n):
    K, V = norm_ty(n.cargs[0]), norm_ty(n.cargs[1])
    if len(n.cargs) > 2 and tmpl(norm_ty(n.cargs[2])) != ('std::less', [n.cargs[0]]):
        raise Unsupported('comparison of ' + n.scope[:80])
    return K, V, f'std::pair<{n.cargs[0]} const, {n.cargs[1]}>'
def mm_key(eng, st, K, p):
    """what identifies the key at p up to equivalence"""
    if K in eng.keyof:
        return eng.keyof[K](st, p)
    if K in BASIC:
        return term(st.mem.get(p, BASIC[K] * 8), st.mem)
    raise Unsupported('order of ' + K)
@reg(MMAPS, 'emplace')
def _(eng, st, a, ins, n):
    K, V, P = mm_type(eng, n)
    z, off = types(eng).size(P), types(eng).pair_off(P)
    ps, args = list(n.params), list(a[1:])
    if ps and norm_ty(ps[0]) == 'std::piecewise_construct_t':
        parts = []
        for t, q in zip(ps[1:], args[1:]):
            c, el = tmpl(norm_ty(t))
            if c != 'std::tuple' or not all(x.endswith('&') for x in el):
                raise Unsupported('emplace of ' + t)
            parts.append((el, [eng.load(st, q.add(8 * (len(el) - 1 - i)) if len(el) - 1 - i else q, PTR, eng.mods[0]) for i in range(len(el))]))
    elif len(ps) == 2:
        parts = [([ps[0]], [args[0]]), ([ps[1]], [args[1]])]
    else:
        raise Unsupported('emplace ' + n.dem[:100])
    return mm_add(eng, st, a[0], K, V, z, off, parts, ins)
@reg(MMAPS, 'insert')
def _(eng, st, a, ins, n):
    K, V, P = mm_type(eng, n)
    if len(n.params) != 1 or tmpl(norm_ty(n.params[0]))[0] != 'std::pair':
        raise Unsupported('insert ' + n.dem[:100])
    t = norm_ty(n.params[0]); el = tmpl(t)[1]
    ref = '&&' if n.params[0].endswith('&&') else ' const&'
    o2 = types(eng).pair_off(t)
    return mm_add(eng, st, a[0], K, V, types(eng).size(P), types(eng).pair_off(P), [([norm_ty(el[0]) + ref], [a[1]]), ([norm_ty(el[1]) + ref], [a[1].add(o2)])], ins)
def mm_add(eng, st, m, K, V, z, off, parts, ins):
    L = vlen(st, m)
    st.assume(z3.ULT(L, bvv(LENMAX)))
    e = m.elem(L, z)
    set_vlen(st, m, L + 1)
    states = [st]
    for T, at, (pt, args) in ((K, e, parts[0]), (V, e.add(off), parts[1])):
        nxt = []
        for s in states:
            r = construct_any(eng, s, at, T, pt, args, ins, None)
            if isinstance(r, Forks):
                for s2, v in r:
                    if v is not None:
                        raise Unsupported('constructor that throws in a multimap')
                    nxt.append(s2)
            else:
                nxt.append(s)
        states = nxt
    return Forks((s, NULL) for s in states)
def mm_range(eng, st, m, k, K, z):
    """the entries of m equivalent to the key at k"""
    n, key = vlen(st, m), mm_key(eng, st, K, k)
    j = z3.BitVec('j!%d' % next(E._uid), 64); i = z3.BitVec('i!%d' % next(E._uid), 64)
    at = mm_key(eng, st, K, m.elem(j, z))
    ks = [simp(n), simp(key), simp(z3.substitute(at, (j, bvv(0))))]
    ck = ('mmrange', *[x.get_id() for x in ks])
    if ck not in eng.globals:
        u = next(E._uid)
        eng.globals[ck] = (f'{u}', z3.Function(f'mmsel_{u}', BV64, BV64), z3.Function(f'mmrank_{u}', BV64, BV64), z3.BitVec(f'mmcount_{u}', 64), n, key, at, z, ks)
        eng.mmranges = getattr(eng, 'mmranges', {}); eng.mmranges[f'{u}'] = eng.globals[ck]
        eng.loop_instances = list(eng.loop_instances) + [eng.globals[ck][3]]
    u, sel, rank, cnt = eng.globals[ck][:4]
    if ck not in st.ghost.get('mmranges', ()):
        st.ghost['mmranges'] = st.ghost.get('mmranges', ()) + (ck,)
        st.facts.append(z3.ULE(cnt, n))
        st.facts.append(z3.ForAll([i], z3.Implies(z3.ULT(i, cnt), z3.And(z3.ULT(sel(i), n), z3.substitute(at, (j, sel(i))) == key, rank(sel(i)) == i)), patterns=[sel(i)]))
        st.facts.append(z3.ForAll([j], z3.Implies(z3.And(z3.ULT(j, n), at == key), z3.And(z3.ULT(rank(j), cnt), sel(rank(j)) == j)), patterns=[rank(j)]))
    return u, cnt
def mmptr(m, u, i): return Ptr(m.root, m.steps + ('#mm_' + u, Sel('e', simp(i), 1)))
def is_mm(p): return isinstance(p, Ptr) and len(p.steps) >= 2 and isinstance(p.steps[-2], str) and p.steps[-2].startswith('#mm_')
def mm_parts(eng, p):
    r = eng.mmranges[p.steps[-2][4:]]
    return Ptr(p.root, p.steps[:-2]), r[1], p.steps[-1].t, r[3], r[7]
@reg(MMAPS, 'equal_range', 'lower_bound', 'upper_bound', 'count')
def _(eng, st, a, ins, n):
    K, V, P = mm_type(eng, n)
    if norm_ty(n.params[0]) != K:
        raise Unsupported('lookup of ' + n.params[0])
    u, cnt = mm_range(eng, st, a[0], a[1], K, types(eng).size(P))
    if n.method == 'count':
        return cnt
    lo, hi = mmptr(a[0], u, bvv(0)), mmptr(a[0], u, cnt)
    return [lo, hi] if n.method == 'equal_range' else lo if n.method == 'lower_bound' else hi
@reg(MMAPS, 'size')
def _(eng, st, a, ins, n): return vlen(st, a[0])
@reg(MMAPS, 'empty')
def _(eng, st, a, ins, n): return boolret(eng, ins, vlen(st, a[0]) == 0)
@reg(MMAPS, 'clear')
def _(eng, st, a, ins, n): set_vlen(st, a[0], bvv(0))
def mm_ctor(eng, st, a, ins, n):
    if [x for x in n.params if 'allocator' not in tmpl(norm_ty(x))[0]]:
        raise Unsupported('multimap constructor')
    set_vlen(st, a[0], bvv(0))
H[('std::multimap', 'multimap')] = mm_ctor
H[('std::multimap', '~multimap')] = lambda eng, st, a, ins, n: None

# ------------------------------------------------------------------ std::function
FN = 'std::function'
def getfn(st, p):
    return st.mem.get(p.sub('#fn'), FnS)
@reg(FN, 'function')
def _(eng, st, a, ins, n):
    if not n.params or n.params[0].startswith('std::nullptr') or n.params[0] == 'decltype(nullptr)':
        st.mem.put(a[0].sub('#fn'), FnS, NULLFN)
        return None
    if norm_ty(n.params[0]) == n.scope:
        st.mem.put(a[0].sub('#fn'), FnS, getfn(st, a[1]))
        if n.params[0].endswith('&&'):
            st.mem.put(a[1].sub('#fn'), FnS, NULLFN)
        return None
    f = fresh('closure', FnS)
    st.assume(f != NULLFN)
    eng.closures[f.decl().name()] = (n, a[1] if len(a) > 1 else None, ins.a[0][1] if ins.a[0][0] == 'g' else None)
    st.mem.put(a[0].sub('#fn'), FnS, f)
def run_closure(eng, st, f, args, sret=None):
    """run the code a std::function made in this execution wraps; captures are not supported"""
    n, val, ctor = eng.closures[f.decl().name()]
    if isinstance(val, E.FuncPtr):
        return eng.call_fn(st, val.name, ([sret] if sret is not None else []) + list(args))
    fn = eng.func(ctor)
    syms = lambda f: {x.strip('"') for x in re.findall(r'@("[^"]*"|[-a-zA-Z$._0-9]+)', fn.mod.text(f))}
    todo = {ctor} | {x for x in syms(ctor) if 'St8function' in x and re.search('C[12]', x) and x in fn.mod._ftext}      # assignment constructs a temporary
    inv = [x for x in {y for f in todo for y in syms(f)} if '_Function_handler' in x and '9_M_invoke' in x]
    if len(inv) != 1:
        raise Unsupported('code of a std::function')
    box = E.Ptr(E.Root('alloca', 'any_data'))
    av = []
    for x in args:
        if not isinstance(x, E.Ptr):
            p = E.Ptr(E.Root('alloca', 'argument'))
            w = 8 if z3.is_bool(x) else x.size()
            st.mem.put(p, w, z3.If(x, bvv(1, 8), bvv(0, 8)) if z3.is_bool(x) else x)
            x = p
        av.append(x)
    return eng.call_fn(st, inv[0], ([sret] if sret is not None else []) + [box] + av, fn.mod)
@reg(FN, '~function')
def _(eng, st, a, ins, n):
    return None
@reg(FN, 'operator=')
def _(eng, st, a, ins, n):
    if norm_ty(n.params[0]) != n.scope:
        if not n.params or n.params[0].startswith('std::nullptr') or n.params[0] == 'decltype(nullptr)':
            st.mem.put(a[0].sub('#fn'), FnS, NULLFN)
            return a[0]
        f = fresh('closure', FnS)
        st.assume(f != NULLFN)
        eng.closures[f.decl().name()] = (n, a[1], ins.a[0][1] if ins.a[0][0] == 'g' else None)
        st.mem.put(a[0].sub('#fn'), FnS, f)
        return a[0]
    st.mem.put(a[0].sub('#fn'), FnS, getfn(st, a[1]))
    if n.params[0].endswith('&&'):
        st.mem.put(a[1].sub('#fn'), FnS, NULLFN)
    return a[0]
@reg(FN, 'operator bool')
def _(eng, st, a, ins, n):
    return boolret(eng, ins, getfn(st, a[0]) != NULLFN)
@reg(FN, 'operator()')
def _(eng, st, a, ins, n):
    # by-value class results come through a hidden first argument
    sret = ins.ty.k == 'void' and len(a) == len(n.params) + 2
    this = a[1] if sret else a[0]
    f = getfn(st, this)
    out = Forks()
    for s, null in fork2(eng, st, f == NULLFN):
        if null:
            out.append((s, Throw('_ZTISt17bad_function_call')))
            continue
        if eng.fncall is None:
            raise Unsupported('call of a std::function')
        r = eng.fncall(eng, s, f, a, n, ins, sret)
        if isinstance(r, Forks):
            out.extend(r)
        else:
            out.append((s, r))
    return out

# ------------------------------------------------------------------ string
SB = 'std::__cxx11::basic_string'
def is_str(n):
    return n.scope == STR
@reg(SB, 'basic_string')
def _(eng, st, a, ins, n):
    ps = [p for p in n.params if 'allocator' not in tmpl(norm_ty(p))[0]]
    if not ps:
        set_str(st, a[0], eng.lit(b'')); return None
    if norm_ty(ps[0]) == 'unsigned long':
        raise Unsupported('string fill constructor')
    if len(ps) == 2 and norm_ty(ps[0]) == 'char const*' and norm_ty(ps[1]) == 'unsigned long':
        set_str(st, a[0], view(eng, st, a[2], a[1])); return None
    if len(ps) != 1:
        raise Unsupported('string constructor ' + n.dem[-100:])
    v, _ = str_arg(eng, st, ps[0], a[1:])
    set_str(st, a[0], v)
    if ps[0].endswith('&&') and norm_ty(ps[0]) == STR:
        set_str(st, a[1], fresh('moved_from', StrS))
@reg(SB, '~basic_string')
def _(eng, st, a, ins, n):
    return None
@reg(SB, 'operator=', 'assign')
def _(eng, st, a, ins, n):
    if len(n.params) != 1:
        raise Unsupported('string assign')
    v, _ = str_arg(eng, st, n.params[0], a[1:])
    set_str(st, a[0], v)
    return a[0]
@reg(SB, 'size', 'length')
def _(eng, st, a, ins, n):
    return slen(get_str(eng, st, a[0]))
@reg(SB, 'empty')
def _(eng, st, a, ins, n):
    return boolret(eng, ins, slen(get_str(eng, st, a[0])) == 0)
@reg(SB, 'c_str', 'data', 'begin', 'cbegin')
def _(eng, st, a, ins, n):
    return bufptr(eng, get_str(eng, st, a[0]))
@reg(SB, 'end', 'cend')
def _(eng, st, a, ins, n):
    s = get_str(eng, st, a[0])
    return bufptr(eng, s, slen(s))
@reg(SB, 'operator[]', 'at')
def _(eng, st, a, ins, n):
    s = get_str(eng, st, a[0])
    return bufptr(eng, s, simp(term(a[1])))
@reg(SB, 'append', 'operator+=')
def _(eng, st, a, ins, n):
    if len(n.params) != 1:
        raise Unsupported('append')
    v, _ = str_arg(eng, st, n.params[0], a[1:])
    set_str(st, a[0], scat(get_str(eng, st, a[0]), v))
    return a[0]
@reg(SB, 'swap')
def _(eng, st, a, ins, n):
    x, y = get_str(eng, st, a[0]), get_str(eng, st, a[1])
    set_str(st, a[0], y); set_str(st, a[1], x)
@reg(SB, 'operator std::basic_string_view')
def _(eng, st, a, ins, n):
    s = get_str(eng, st, a[0])
    return [slen(s), bufptr(eng, s)]

def free_streq(eng, st, a, ins, n):
    x, rest = str_arg(eng, st, n.params[0], a)
    y, rest = str_arg(eng, st, n.params[1], rest)
    eq = x == y
    return boolret(eng, ins, eq if n.method == 'operator==' else z3.Not(eq))
def free_strplus(eng, st, a, ins, n):
    x, rest = str_arg(eng, st, n.params[0], a[1:])
    y, rest = str_arg(eng, st, n.params[1], rest)
    set_str(st, a[0], scat(x, y))

def guard_acquire(eng, st, a, ins, n):
    """static local variables: initialised in this call or in an earlier one (only if the contract asks for it)"""
    if not getattr(eng, 'static_init', False):
        return bvv(0, 32)
    if eng.static_init == 'first':
        return bvv(1, 32)
    s2 = st.fork()
    s2.events.append(('static', a[0].root.name))
    return Forks([(st, bvv(0, 32)), (s2, bvv(1, 32))])
# ------------------------------------------------------------------ algorithms
def rng(eng, st, p, q):
    c, i, z = seq_of(p); c2, j, z2 = seq_of(q)
    if not E.Engine.same(list(c.steps), list(c2.steps)) or c.root is not c2.root:
        raise Unsupported('iterators of different containers')
    return c, i, j, z
def elem_term(eng, st, c, z, T, i, off=0):
    T = norm_ty(T)
    e = c.elem(i, z)
    if off:
        e = e.add(off)
    if T == STR:
        return get_str(eng, st, e)
    if T in BASIC:
        return term(st.mem.get(e, BASIC[T] * 8))
    if T.endswith('*') or tmpl(T)[0] == 'std::unique_ptr':
        return term(st.mem.get(e, 64), st.mem)
    if tmpl(T)[0] == 'std::function':
        return getfn(st, e)
    raise Unsupported('element type ' + T)
def find_first(eng, st, c, z, lo, hi, pred):
    """-> Forks of (state, index term or None): first index in [lo, hi) with pred(i)"""
    out = Forks()
    k = z3.BitVec('k!%d' % next(E._uid), 64)
    m = z3.BitVec('first!%d' % next(E._uid), 64)
    P = pred(k)
    s2 = st.fork()
    hit = [z3.ULE(lo, m), z3.ULT(m, hi), pred(m), z3.ForAll([k], z3.Implies(z3.And(z3.ULE(lo, k), z3.ULT(k, m)), z3.Not(P)))]
    if eng.check(st.facts, hit, 3000) != z3.unsat:
        st.facts.extend(hit)
        out.append((st, m))
    s2.facts.append(z3.ForAll([k], z3.Implies(z3.And(z3.ULE(lo, k), z3.ULT(k, hi)), z3.Not(P))))
    if eng.check(s2.facts, (), 3000) != z3.unsat:
        out.append((s2, None))
    return out
def elem_ty_of_iter(t):
    t = norm_ty(t)
    m = re.match(r'__gnu_cxx::__normal_iterator<(.*?)(?: const)?\*, ', t)
    if m:
        return m.group(1)
    if t.endswith('*'):
        return norm_ty(t[:-1])
    raise Unsupported('iterator type ' + t)
def val_term(eng, st, T, VT, v):
    T = norm_ty(T)
    if T == STR:
        return str_arg(eng, st, VT, [v])[0]
    w = BASIC[T] * 8 if T in BASIC else 64
    if norm_ty(VT) in BASIC and BASIC[norm_ty(VT)] * 8 != w:
        raise Unsupported('find with other type')
    return term(st.mem.get(v, w), st.mem) if isinstance(v, Ptr) else term(v)
def algo_find(eng, st, a, ins, n):
    T = elem_ty_of_iter(n.params[0])
    c, i, j, z = rng(eng, st, a[0], a[1])
    v = val_term(eng, st, T, n.params[2], a[2])
    out = Forks()
    for s, m in find_first(eng, st, c, z, i, j, lambda k: elem_term(eng, st, c, z, T, k) == v):
        out.append((s, c.elem(j if m is None else m, z)))
    return out
def ranges_find(eng, st, a, ins, n):
    # find_fn::operator()(range&&, value const&, proj)
    tp = n.targs[0] if n.params[0].startswith('T') and n.targs else n.params[0]
    vt = (n.targs[1] + ' const&') if n.params[1].startswith('T') and len(n.targs) > 1 else n.params[1]
    c0, ta = tmpl(norm_ty(tp))
    if c0 != 'std::vector' or len(a) < 3:
        raise Unsupported('ranges::find over ' + c0)
    T = ta[0]
    z = types(eng).size(T)
    off = 0
    pj = [t for t in n.targs if '::*' in t]
    if pj:
        # projection by a pointer to data member
        o = simp(term(a[3]))
        if not z3.is_bv_value(o):
            raise Unsupported('projection')
        off = o.as_long()
        T = re.sub(r'\s+\S[^ ]*(<.*>)?::\*.*$', '', pj[0]) if not pj[0].startswith('std::__cxx11::basic_string<') else STR
    v = val_term(eng, st, T, vt, a[2])
    out = Forks()
    for s, m in find_first(eng, st, a[1], z, bvv(0), vlen(st, a[1]), lambda k: elem_term(eng, st, a[1], z, T, k, off) == v):
        out.append((s, a[1].elem(vlen(s, a[1]) if m is None else m, z)))
    return out
def pred_term(eng, st, fname, args_of, k):
    """value of a side-effect free predicate body for symbolic index k, as a term"""
    s = st.fork()
    nf = len(s.facts)
    outs = eng.call_fn(s, fname, args_of(s, k))
    r = None
    for o in outs:
        if o.kind != 'ret':
            raise Unsupported('predicate may not return')
        d = o.st.facts[nf:]
        c = z3.And(*d) if d else z3.BoolVal(True)
        v = o.val if z3.is_bool(o.val) else o.val != 0
        r = v if r is None else z3.If(c, v, r)
    return simp(r)
def lambda_op(eng, ty):
    """mangled name of operator() of a closure type"""
    ty = norm_ty(ty)
    for m in eng.mods:
        for f in m._ftext:
            d = m.dem[f]
            if d.startswith(ty + '::operator()') or f' {ty}::operator()' in d:
                return f
    # generic lambdas: the demangler does not know their call operator
    m_ = re.match(r'(.*)::(\$_\d+)$', ty)
    if m_:
        for m in eng.mods:
            for g in m._ftext:
                if m.dem[g] == m_.group(1):
                    pre = f'_ZZ{g[2:]}ENK{len(m_.group(2))}{m_.group(2)}cl'
                    for f in m._ftext:
                        if f.startswith(pre):
                            return f
    raise Unsupported('no body of predicate ' + ty[:120])
def algo_find_if(eng, st, a, ins, n, kind=None):
    T = elem_ty_of_iter(n.params[0])
    c, i, j, z = rng(eng, st, a[0], a[1])
    f = lambda_op(eng, n.params[2])
    pl = closure_args(eng, st, f, a[2:])
    P = lambda k: pred_term(eng, st, f, lambda s, kk: pl + [c.elem(kk, z)], k)
    meth = n.method
    out = Forks()
    if meth == 'find_if':
        for s, m in find_first(eng, st, c, z, i, j, P):
            out.append((s, c.elem(j if m is None else m, z)))
        return out
    q = P if meth == 'any_of' or meth == 'none_of' else (lambda k: z3.Not(P(k)))
    for s, m in find_first(eng, st, c, z, i, j, q):
        found = m is not None
        r = found if meth == 'any_of' else not found
        out.append((s, boolret(eng, ins, z3.BoolVal(r))))
    return out
def closure_args(eng, st, f, rest):
    """the closure object as `this`: one captured pointer may be passed in registers"""
    x = rest[0] if rest else NULL
    if isinstance(x, Ptr) and len(rest) == 1:
        fn = eng.func(f)
        ci = st.frames[-1].call
        # small closures are coerced to their single member
        arg = ci.a[1][2] if ci is not None and len(ci.a[1]) > 2 else None
        if arg is not None and 'byval' not in arg[2]:
            p = Ptr(Root('alloca', 'closure'))
            st.mem.put(p, 64, x)
            return [p]
        return [x]
    p = Ptr(Root('alloca', 'closure'))
    o = 0
    for v in rest:
        st.mem.put(p.add(o) if o else p, 64, v)
        o += 8
    return [p]
def algo_distance(eng, st, a, ins, n):
    t = norm_ty(n.params[0])
    if '__normal_iterator' in t or t.endswith('*'):
        d = eng.pdiff(a[1], a[0])
        return d.t if isinstance(d, Scaled) else d
    if all(is_mm(x) for x in a[:2]) and a[0].steps[-2] == a[1].steps[-2]:
        lo, hi = a[0].steps[-1].t, a[1].steps[-1].t
        eng.safety(st, z3.ULE(lo, hi), 'distance of iterators in the wrong order', ins)
        return simp(hi - lo)
    raise Unsupported('distance')

# ------------------------------------------------------------------ locks
def lockid(eng, st, p):
    root, prefix, off, idxs = st.mem.norm(p)
    return (root.id, prefix, off, tuple(simp(t).sexpr() for t in idxs))
@reg(['std::mutex', 'std::recursive_mutex'], 'lock')
def _(eng, st, a, ins, n):
    k = lockid(eng, st, a[0])
    held = st.ghost.get('locks', ())
    eng.safety(st, z3.BoolVal(k not in held), 'mutex is not locked twice by the same thread', ins)
    st.ghost['locks'] = held + (k,)
@reg(['std::mutex', 'std::recursive_mutex'], 'unlock')
def _(eng, st, a, ins, n):
    k = lockid(eng, st, a[0])
    held = st.ghost.get('locks', ())
    eng.safety(st, z3.BoolVal(k in held), 'mutex unlocked while held', ins)
    st.ghost['locks'] = tuple(x for x in held if x != k)
@reg(['std::mutex', 'std::recursive_mutex'], 'mutex', '~mutex')
def _(eng, st, a, ins, n):
    return None

@reg('std::scoped_lock', 'scoped_lock')
def _(eng, st, a, ins, n):
    if any('adopt_lock' in p for p in n.params):
        raise Unsupported('scoped_lock with adopt_lock')
    ks = []
    for m in a[1:]:
        H[('std::mutex', 'lock')](eng, st, [m], ins, n)
        ks.append(m)
    st.ghost['scoped:' + repr(a[0])] = tuple(ks)
@reg('std::scoped_lock', '~scoped_lock')
def _(eng, st, a, ins, n):
    for m in st.ghost.get('scoped:' + repr(a[0]), ()):
        H[('std::mutex', 'unlock')](eng, st, [m], ins, n)
    st.ghost['scoped:' + repr(a[0])] = ()

# ------------------------------------------------------------------ free / runtime functions
def op_new(eng, st, a, ins, dem):
    p = eng.alloc(st, 'obj')
    return p
def op_delete(eng, st, a, ins, dem):
    p = a[0]
    if p.root is NULLR:
        return None
    eng.dealloc(st, p, ins)
    return None
def cxa_throw(eng, st, a, ins, dem):
    return Throw(a[1].root.name if isinstance(a[1], Ptr) else '?')
def nop(eng, st, a, ins, dem):
    return None
def ret0(eng, st, a, ins, dem):
    return a[0]

EXC = re.compile(r'^std::(runtime_error|out_of_range|logic_error|invalid_argument|bad_function_call|length_error|exception|domain_error)::')

def lookup(eng, name, dem):
    if name in ('_Znwm', '_Znam', '_ZnwmSt11align_val_t'):
        return op_new
    if name.startswith('_ZdlPv') or name.startswith('_ZdaPv'):
        return op_delete
    if name == '__cxa_allocate_exception':
        return lambda e, s, a, i, d: Ptr(Root('new', 'exception'))
    if name == '__cxa_throw':
        return cxa_throw
    if name == '__dynamic_cast':
        return dyncast
    if name == '__cxa_rethrow':
        return lambda e, s, a, i, d: Throw(s.ghost.get('exc'))
    if name in ('__cxa_free_exception', '__cxa_end_catch', '__cxa_atexit', '__clang_call_terminate', '__cxa_guard_release', '__cxa_guard_abort'):
        return nop if name != '__cxa_atexit' else (lambda e, s, a, i, d: bvv(0, 32))
    if name == '__cxa_begin_catch':
        return ret0
    if name == '__cxa_guard_acquire':
        return guard_acquire
    if name == 'strlen':
        return lambda e, s, a, i, d: slen(cstr(e, s, a[0]))
    if name == 'strcmp':
        return strcmp
    if name in ('memcmp', 'bcmp'):
        return memcmp_
    if name == 'memset':
        return lambda e, s, a, i, d: (e.intrinsic(s, 'llvm.memset', [a[0], z3.Extract(7, 0, term(a[1])), a[2]], i), a[0])[1]
    if name in ('memcpy', 'memmove'):
        return lambda e, s, a, i, d: (e.intrinsic(s, 'llvm.memcpy', a, i), a[0])[1]
    if name.startswith('_ZSt') and 'terminate' in name:
        return lambda e, s, a, i, d: Outcome(s, 'terminate', 'std::terminate')
    if name.startswith('_ZSt') and '__throw_' in name:
        m = re.search(r'__throw_(\w+?)(PKc|v|i|z)', name)
        kinds = {'out_of_range': '_ZTISt12out_of_range', 'out_of_range_fmt': '_ZTISt12out_of_range', 'logic_error': '_ZTISt11logic_error', 'runtime_error': '_ZTISt13runtime_error',
                 'length_error': '_ZTISt12length_error', 'bad_function_call': '_ZTISt17bad_function_call'}
        for k, v in kinds.items():
            if '__throw_' + k in dem:
                return lambda e, s, a, i, d, v=v: Throw(v)
    if name.startswith('__cxa_') or not dem.startswith('std::') and 'std::' not in dem and '__gnu_cxx' not in dem:
        return None
    if '::operator std::basic_string_view' in dem and dem.startswith(STR):
        h = H[(SB, 'operator std::basic_string_view')]
        return lambda e, s, a, i, d: h(e, s, a, i, None)
    n = nm(dem)
    if EXC.match(dem):
        return nop
    if n.cls == 'std::allocator' or n.cls == 'std::__new_allocator':
        if n.method in ('allocator', '~allocator', '__new_allocator', '~__new_allocator'):
            return nop
    if 'basic_ostream' in n.scope or n.scope.startswith('std::ostream') or n.method == 'operator<<' and n.params and 'ostream' in n.params[0]:
        return ret0
    if n.cls in ('std::vector', 'std::deque', DIT, SB, FN, 'std::mutex', 'std::recursive_mutex', 'std::scoped_lock') or n.cls in MAPS or n.cls in SETS or n.cls in MMAPS or n.cls in NIT:
        if n.cls == SB and not is_str(n):
            return None
        if n.cls == SB and n.method.startswith('operator std::basic_string_view'):
            h = H[(SB, 'operator std::basic_string_view')]
            return lambda e, s, a, i, d: h(e, s, a, i, n)
        h = H.get((n.cls, n.method))
        if h is not None:
            return lambda e, s, a, i, d: h(e, s, a, i, n)
        if n.cls in NIT or n.cls in SETS or n.cls in MAPS:
            if n.cls in NIT and n.method.startswith(('_Node', '_Rb')):
                return None
        if n.cls in (FN,) or n.cls in MAPS or n.cls in SETS or n.cls in MMAPS or n.cls == SB or n.cls in SEQ:
            if n.method in ('rbegin', 'rend', 'crbegin', 'crend') and n.cls == 'std::vector':
                return None
            def un(e, s, a, i, d):
                raise Unsupported('no contract for ' + dem[:160])
            return un
        return None
    if n.scope == 'std' or n.scope == '':
        if n.method in ('operator==', 'operator!=') and len(n.params) == 2:
            sts = [norm_ty(p) for p in n.params]
            if any(x == STR for x in sts) or all(x.startswith('std::basic_string_view') or 'type_identity' in x for x in sts):
                return lambda e, s, a, i, d: free_streq(e, s, a, i, n)
            if all(tmpl(x)[0] == DIT for x in sts):
                def deq(e, s, a, i, d):
                    r = e.peq(s, dit_get(e, s, a[0]), dit_get(e, s, a[1]))
                    return boolret(e, i, r if n.method == 'operator==' else z3.Not(r))
                return deq
        if n.method == 'operator-' and len(n.params) == 2 and all(tmpl(norm_ty(p))[0] == DIT for p in n.params):
            def dsub(e, s, a, i, d):
                p, q = dit_get(e, s, a[0]), dit_get(e, s, a[1])
                c, x, z = seq_of(p); c2, y, z2 = seq_of(q)
                return simp(x - y)
            return dsub
        if n.method in ('operator+', 'operator-') and len(n.params) == 2 and tmpl(norm_ty(n.params[0]))[0] == DIT:
            def dadd(e, s, a, i, d):
                k = term(a[2])
                dit_set(s, a[0], pmove(dit_get(e, s, a[1]), k if n.method == 'operator+' else -k))
            return dadd
        if n.method == 'operator+' and any(norm_ty(p) == STR for p in n.params):
            return lambda e, s, a, i, d: free_strplus(e, s, a, i, n)
        if n.method == 'find' and len(n.params) == 3:
            return lambda e, s, a, i, d: algo_find(e, s, a, i, n)
        if n.method in ('find_if', 'any_of', 'none_of', 'all_of') and len(n.params) == 3:
            return lambda e, s, a, i, d: algo_find_if(e, s, a, i, n)
        if n.method in ('distance', '__distance') and '_Rb_tree' in n.params[0]:
            def mdist(e, s, a, i, d):
                q = [e.load(s, x, PTR, e.mods[0]) if isinstance(x, Ptr) and not is_mm(x) and x.root.kind == 'alloca' else x for x in a[:2]]
                return algo_distance(e, s, q, i, n)
            return mdist
        if n.method == 'distance':
            return lambda e, s, a, i, d: algo_distance(e, s, a, i, n)
    if n.scope == 'std::ranges::__find_fn' and n.method == 'operator()':
        if len(n.params) == 3:
            return lambda e, s, a, i, d: ranges_find(e, s, a, i, n)
    if n.scope == 'std::ranges::__distance_fn' and n.method == 'operator()' and len(n.params) == 2:
        def rdist(e, s, a, i, d):
            x, y = [s.mem.get(q, 64) if isinstance(q, Ptr) and q.root.kind == 'alloca' else q for q in (a[1], a[2])]
            r = e.pdiff(y, x)
            return r.t if isinstance(r, Scaled) else r
        return rdist
    if n.scope == 'std::char_traits<char>' and n.method == 'length':
        return lambda e, s, a, i, d: slen(cstr(e, s, a[0]))
    return None

def label(dem):
    n = nm(dem)
    if n.cls and n.method:
        return (n.cls.replace('__cxx11::', '') + '::' + n.method)
    return dem[:80]
