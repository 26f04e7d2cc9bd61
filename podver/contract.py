"""Contracts: a small API in which per-function contracts are written and discharged."""
import os, sys, time, re
import z3
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from engine import *
import engine as E, stdlib, ll, loops
from stdlib import FnS, NULLFN, STR, slen, schar

class Result:
    def __init__(s, fn, label, status, detail='', back='z3', secs=0.0):
        s.fn, s.label, s.status, s.detail, s.back, s.secs = fn, label, status, detail, back, secs
    def __repr__(s):
        return f'[{s.status}] {s.fn}: {s.label} {s.detail}'

class Verifier:
    """all obligations of one property"""
    def __init__(self, modules, budget=600):
        self.mods = modules
        self.results = []
        self.inlined = set(); self.trusted = set(); self.used = set()
        self.functions = []
        self.undecided = []
        self.solver_s = 0.0; self.checks = 0; self.paths = 0; self.loops = 0; self.unrolled = 0
        self.vacuity = []
        self.deadline = time.time() + budget
        self._engtypes = None; self.unroll = False
        self.notes = []
        self.default_timeout = 12000

    def engine(self):
        e = Engine(self.mods); e.unroll = self.unroll
        e.decide = lambda facts, goal: decide(e, facts, goal, self.default_timeout)
        e._types = self._engtypes; e._types_n = len(self.mods)
        if self._engtypes is not None:
            e._types.eng = e
        else:
            e._types_n = -1
        return e

    def lookup(self, pat):
        """mangled names of defined functions whose demangled name matches the pattern (regex, abi tags removed)"""
        r = []
        rx = re.compile(pat)
        for m in self.mods:
            for f in m._ftext:
                d = re.sub(r'\[abi:[^\]]*\]', '', m.dem[f])
                if rx.search(d) and f not in r:
                    r.append(f)
        return r

    def fn(self, pat, title=None):
        return FnContract(self, pat, title)

    def finish(self, c):
        e = c.eng
        self._engtypes = getattr(e, '_types', None)
        self.inlined |= e.stats['inlined']; self.trusted |= e.stats['trusted']; self.used |= e.stats['used_contracts']
        self.solver_s += e.stats['solver_s']; self.checks += e.stats['checks']; self.paths += e.stats['paths']
        self.loops += e.stats['loops']; self.unrolled += e.stats['unrolled']

    def check_fn(self, title, body):
        """run body(c: FnContract) catching everything that means 'undecided'"""
        c = FnContract(self, None, title)
        t0 = time.time()
        c.eng.deadline = self.deadline
        n0 = len(self.results)
        try:
            body(c)
            if len(self.results) == n0:
                raise Unsupported('no obligation was generated')
            self.functions.append(title)
        except (Unsupported, KeyError, IndexError, AttributeError, TypeError, ValueError, z3.Z3Exception, AssertionError, RecursionError) as ex:
            if os.environ.get('PODVER_DEBUG'):
                import traceback; traceback.print_exc()
            # obligations that were reached before stay; the function as a whole is not proved
            for r in self.results[n0:]:
                if r.status == 'refuted' and c.approx_after_failure:
                    r.status = 'undecided'
            self.results.append(Result(title, 'verification condition generation', 'undecided', f'{type(ex).__name__}: {ex}'[:300]))
        finally:
            self.finish(c)
            c.secs = time.time() - t0

class FnContract:
    def __init__(s, v, pat, title):
        s.v = v; s.title = title; s.eng = v.engine(); s.st = St(); s.approx_after_failure = False
        s.pre = None

    # ---- building the pre-state ----
    def ptr(s, name):
        """pointer argument to an object of unknown contents"""
        return Ptr(Root('arg', name))
    def hobj(s, name):
        """pointer to a pre-existing heap object with symbolic address"""
        t = z3.BitVec('obj_' + name, 64)
        s.st.facts.append(t != 0)
        return Ptr(HEAP, (Sel('h', t),))
    def bv(s, name, w=64):
        return z3.BitVec(name, w)
    def string(s, name):
        p = s.ptr(name)
        t = z3.Const('str_' + name, StrS)
        s.st.mem.put(p.sub('#str'), StrS, t)
        return p, t
    def sview(s, name):
        t = z3.Const('str_' + name, StrS)
        s.st.assume(z3.ULT(slen(t), bvv(1 << 40)))
        return [slen(t), stdlib.bufptr(s.eng, t)], t
    def assume(s, *f):
        for x in f:
            s.st.facts.append(x)
    def field(s, cls, name):
        """byte offset of a data member"""
        for m in s.v.mods:
            try:
                return m.field(cls, name)[0]
            except KeyError:
                continue
        raise Unsupported(f'no member {cls}::{name}')
    def vec(s, p):
        return SeqView(s, p)
    def dynamic(s, p, mangled):
        """the object at p has the given dynamic type (mangled name of the class)"""
        n = '_ZTV' + mangled
        mod = next((m for m in s.v.mods if m.glob(n) and (m.glob(n)[0] == 'alias' or m.glob(n)[2] is not None)), None)
        if mod is None:
            raise Unsupported('no virtual table ' + n)
        s.st.mem.put(p, 64, Ptr(s.eng.groot(n, mod)).add(16))

    # ---- running ----
    def resolve(s, pat):
        r = s.v.lookup(pat)
        r = [x for x in r if not x.startswith('_ZTh')]
        c2 = [x for x in r if re.search(r'C2E|D2Ev', x)]
        if len(r) > 1 and c2:
            r = c2
        if len(r) != 1:
            raise Unsupported(f'{len(r)} functions match {pat}')
        return r[0]
    def run(s, pat, args, st=None, mod=None):
        st = st or s.st
        name = pat if not pat.startswith('^') and s.eng.func(pat, mod) else s.resolve(pat)
        s.pre = st.fork()
        # vacuity: the precondition must be satisfiable
        if not getattr(s, '_vac', False):
            s._vac = True
            r = s.eng.check(st.facts, (), 5000)
            s.v.vacuity.append((s.title, str(r)))
            if r == z3.unsat:
                raise Unsupported('contradictory precondition')
        nun = len(s.eng.unsafe)
        outs = s.eng.call_fn(st, name, args, mod)
        s.safety_results(nun)
        res = []
        for o in outs:
            # drop paths that cannot be reached
            if s.eng.check(o.st.facts, (), 2000) == z3.unsat:
                continue
            res.append(o)
        if not res:
            raise Unsupported('no reachable path')
        for o in res:
            if o.kind not in ('ret', 'throw'):
                s.add(f'execution ends normally', 'refuted' if o.kind == 'uaf' else 'undecided', f'{o.kind} {o.val}')
        return [o for o in res if o.kind in ('ret', 'throw')]
    def safety_results(s, nun):
        for label, status, detail, back in s.eng.inv_results:
            s.add(label, status, detail, 0.0, back)
        s.eng.inv_results = []
        for what, line, r, fn in s.eng.unsafe[nun:]:
            s.add(f'safety: {what}', 'refuted' if r == 'sat' else 'undecided', f'{fn[:80]} {line}')
    # ---- obligations ----
    def add(s, label, status, detail='', secs=0.0, back='z3'):
        s.v.results.append(Result(s.title, label, status, detail, back, secs))
    def prove(s, st, label, goal, hints=(), timeout=None):
        timeout = timeout or s.v.default_timeout
        t0 = time.time()
        if isinstance(st, Outcome):
            st = st.st
        if goal is True:
            goal = z3.BoolVal(True)
        if goal is False:
            goal = z3.BoolVal(False)
        if s.eng.points and z3.is_quantifier(goal):
            goal = loops.resolved(s.eng, st, goal)[0]
        status, detail, back = decide(s.eng, st.facts, goal, timeout)
        s.eng.stats['checks'] += 1; s.eng.stats['solver_s'] += time.time() - t0
        s.add(label, status, detail, time.time() - t0, back)
        return status == 'proved'
    def raises(s, outs, label, cond_throw, what=None):
        """the function throws exactly on the states satisfying cond_throw"""
        for o in outs:
            s.prove(o, label + (' (throws)' if o.kind == 'throw' else ' (returns)'), cond_throw if o.kind == 'throw' else z3.Not(cond_throw))

def symbols(e, memo={}):
    k = e.get_id()
    r = memo.get(k)
    if r is None or not z3.eq(r[0], e):
        out = set(); seen = set(); work = [e]
        while work:
            x = work.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_quantifier(x):
                work.append(x.body())
            elif z3.is_app(x):
                if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    out.add(x.decl().name())
                work.extend(x.children())
        memo[k] = r = (e, out)
    return r[1]

def relevant(facts, goal):
    """the facts without quantifiers and those quantified ones that share a rare symbol with the goal (twice)"""
    q = [f for f in facts if z3.is_quantifier(f) or (z3.is_app(f) and any(z3.is_quantifier(x) for x in f.children()))]
    if len(q) < 12:
        return facts
    freq = {}
    for f in q:
        for s in symbols(f):
            freq[s] = freq.get(s, 0) + 1
    lim = max(3, len(q) // 4)
    want = {s for s in symbols(goal)}
    keep = set()
    for rnd in range(2):
        for i, f in enumerate(q):
            if i not in keep and any(freq[s] <= lim for s in symbols(f) & want):
                keep.add(i)
        for i in keep:
            want |= {s for s in symbols(q[i]) if freq[s] <= lim}
    # facts about everything common are few and often needed
    ids = {id(q[i]) for i in keep} | {id(f) for f in q if all(freq[s] > lim for s in symbols(f))}
    qi = {id(f) for f in q}
    return [f for f in facts if id(f) not in qi or id(f) in ids]

def decide(eng, facts, goal, timeout):
    """z3 briefly, then cvc5, then z3 again with the rest of the time"""
    if eng.unify and z3.is_expr(goal):
        import loops
        goal = loops.unify(eng, facts, [simp(goal)])[0]
    neg = z3.Not(goal)
    few = relevant(facts, goal)
    if len(few) < len(facts):
        # fewer facts first: what follows from some of them follows from all
        so = z3.Solver(); so.set('timeout', min(1000, timeout))
        so.add(*eng.axioms); so.add(*few); so.add(neg)
        if so.check() == z3.unsat:
            return 'proved', '', 'z3'
    so = z3.Solver(); so.set('timeout', min(1500, timeout))
    so.add(*eng.axioms); so.add(*facts); so.add(neg)
    r = so.check()
    cv = ''
    if r == z3.unknown:
        cv = cvc5_check(so, min(timeout, 6000))
        if cv == 'unsat':
            return 'proved', '', 'cvc5'
        so.set('timeout', timeout)
        r = so.check()
    if r == z3.unsat:
        return 'proved', '', 'z3'
    if r == z3.sat:
        txt = ''
        try:
            m = so.model()
            txt = ', '.join(f'{d.name()}={m[d]}' for d in m.decls() if d.arity() == 0)[:1500]
        except z3.Z3Exception:
            pass
        return 'refuted', txt, 'z3'
    return 'undecided', f'z3: {so.reason_unknown()}; cvc5: {cv}', 'z3+cvc5'

def cvc5_check(so, timeout):
    """cvc5 in two ways at the same time: instances by pattern, and by enumeration as well"""
    import subprocess, tempfile
    name = None; ps = []
    try:
        txt = re.sub(r'\b(bv[us](?:div|rem|mod))_i\b', r'\1', '(set-logic ALL)\n' + so.to_smt2())
        with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
            f.write(txt); name = f.name
        quant = '(forall' in txt or '(exists' in txt
        ps = [subprocess.Popen(['cvc5', '--lang=smt2', *o, f'--tlimit={t}', name], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
              for o, t in [([], timeout)] + ([(['--enum-inst'], 2 * timeout)] if quant else [])]
        end = time.time() + 2 * timeout / 1000 + 5
        left, res = list(ps), {}
        while left and time.time() < end:
            for p in list(left):
                if p.poll() is not None:
                    left.remove(p); res[p] = p.stdout.read().split('\n')[0].strip()
                    if res[p] in ('unsat', 'sat'):
                        return res[p]
            time.sleep(0.02)
        return res.get(ps[0], 'timeout') or 'timeout'
    except Exception as ex:
        return type(ex).__name__
    finally:
        for p in ps:
            if p.poll() is None:
                p.kill()
            p.wait(); p.stdout.close()
        if name:
            os.unlink(name)

class SeqView:
    """vector/deque seen through its abstraction"""
    def __init__(s, c, p):
        s.c, s.p = c, p
    def len(s, st):
        return stdlib.vlen(st, s.p)
    def at(s, st, i, T):
        z = stdlib.types(s.c.eng).size(T)
        return stdlib.elem_term(s.c.eng, st, s.p, z, T, i if z3.is_expr(i) else bvv(i))

class MapView:
    """std::map / std::unordered_map seen through its abstraction"""
    def __init__(s, c, p, K, V=None):
        s.c, s.p, s.K, s.V = c, p, K, V
        s.ks = stdlib.keysort(c.eng, K)
        s.vo = stdlib.types(c.eng).pair_off(f'std::pair<{K} const, {V}>') if V else 0
    def has(s, st, k):
        return z3.Select(stdlib.mhas(s.c.eng, st, s.p, s.K), k)
    def size(s, st):
        return stdlib.msize(st, s.p)
    def val(s, k):
        return stdlib.node(s.p, k).add(s.vo)
    def seq(s, k):
        return SeqView(s.c, s.val(k))
    def key(s, name='k'):
        return z3.Const(name, s.ks)
