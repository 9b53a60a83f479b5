"""Terms, path conditions, quantified facts, and the proof back end (Z3; cvc5 for the second opinion)."""
import z3, ctypes, time, os, hashlib, threading, itertools
import z3.z3core as _zc

M64 = 1 << 64
M63 = 1 << 63
M32 = 1 << 32
M31 = 1 << 31
MAXLEN = 1 << 57      # no container or stream holds this many items (address space)

INT, BOOL = z3.IntSort(), z3.BoolSort()
F64 = z3.DeclareSort("F64")
STR = z3.DeclareSort("Str")
SORT = {"u64": INT, "i32": INT, "u32": INT, "u8": INT, "i64": INT, "int": INT, "nat": INT, "bool": BOOL, "f64": F64, "str": STR, "len": INT}

z3.set_param("smt.random_seed", 1)
_CTX = z3.main_ctx().ref()


def _fast():
    """error codes are only checked by the constructors of terms (the other calls cannot fail here)"""
    import z3.z3core as zc
    for n, f in list(vars(zc).items()):
        if n.startswith("Z3_") and callable(f) and getattr(f, "__defaults__", None):
            if "_mk_" in n or "subst" in n or "pars" in n: continue
            e = f.__defaults__[-1]
            if hasattr(e, "Check"): e.Check = lambda ctx: None


_fast()


class Unsupported(Exception):
    """The generator cannot reason about this construct (never an alarm)."""


class Dead(Unsupported):
    """a path of a run that is not recorded that cannot go on (the recorded run meets it again, and records why)"""

class Timeout(Unsupported):
    pass


# ------------------------------------------------------------------ symbols
KINDS = {}     # decl name -> kind (range known for every application)
DECLS = {}
_strconst = {}
_fconst = {}


def fn(name, argsorts, kind):
    k = (name, len(argsorts))
    d = DECLS.get(k)
    if d is None:
        if argsorts:
            d = z3.Function(name, *(list(argsorts) + [SORT[kind]]))
        else:
            d = z3.Const(name, SORT[kind])
        DECLS[k] = d
        KINDS[name] = kind
    return d


def sym(name, kind, args=()):
    args = [tz(a) for a in args]
    d = fn(name, [a.sort() for a in args], kind)
    return d(*args) if args else d


def strc(s):
    """string literal as a term"""
    c = _strconst.get(s)
    if c is None:
        c = z3.Const("str!" + s, STR)
        _strconst[s] = c
    return c


_strname = {}


def fpc(v):
    import struct
    key = struct.pack("<d", v)
    c = _fconst.get(key)
    if c is None:
        c = z3.Const("fp!%r" % v, F64)
        _fconst[key] = c
    return c


def tz(v):
    """python value -> z3 term"""
    if isinstance(v, z3.ExprRef): return v
    if isinstance(v, bool): return z3.BoolVal(v)
    if isinstance(v, int): return z3.IntVal(v)
    if isinstance(v, str): return strc(v)
    raise Unsupported("term from %r" % (v,))


def conc(t):
    """z3 numeral -> python"""
    if isinstance(t, z3.ExprRef):
        if z3.is_int_value(t): return t.as_long()
        if z3.is_true(t): return True
        if z3.is_false(t): return False
    return t


_simpc = {}


def simp(t):
    if not isinstance(t, z3.ExprRef): return t
    k = t.get_id()
    r = _simpc.get(k)
    if r is not None: return r[1]
    r = conc(z3.simplify(t, som=True, som_blowup=20))
    if len(_simpc) > 200000: _simpc.clear()
    _simpc[k] = (t, r)
    return r


def same(a, b):
    if a is b: return True
    if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef): return a.eq(b)
    if isinstance(a, z3.ExprRef) or isinstance(b, z3.ExprRef):
        return False
    return type(a) == type(b) and a == b


X = [z3.Int("X!%d" % i) for i in range(8)]


def subst(t, pairs):
    if not isinstance(t, z3.ExprRef) or not pairs: return t
    r = z3.substitute(t, *[(a, tz(b)) for a, b in pairs])
    return r


def land(*c):
    c = [x for x in c if x is not True]
    if any(x is False for x in c): return False
    if not c: return True
    return c[0] if len(c) == 1 else z3.And(*[tz(x) for x in c])


def lor(*c):
    c = [x for x in c if x is not False]
    if any(x is True for x in c): return True
    if not c: return False
    return c[0] if len(c) == 1 else z3.Or(*[tz(x) for x in c])


def lnot(c):
    return (not c) if isinstance(c, bool) else z3.Not(c)


def ite(c, a, b):
    if c is True: return a
    if c is False: return b
    if same(a, b): return a
    if isinstance(a, bool) and isinstance(b, bool):
        return c if a else lnot(c)
    return z3.If(c, tz(a), tz(b))


def eq(a, b):
    if not isinstance(a, z3.ExprRef) and not isinstance(b, z3.ExprRef): return a == b
    if same(a, b): return True
    return tz(a) == tz(b)


# ------------------------------------------------------------------ traversal
_consts = {}


_nodes = {}      # id -> (0 other / 1 uninterpreted application / 2 product, quotient, remainder; ids of the arguments; term)
_P = ctypes.c_void_p


def _raw(name, res, *args):
    """the function of the library without the conversions of its Python wrapper"""
    f = getattr(_zc, name).__defaults__[-1].f
    return ctypes.CFUNCTYPE(res, *args)(ctypes.cast(f, _P).value)


_get_id = _raw("Z3_get_ast_id", ctypes.c_uint, _P, _P)
_n_args = _raw("Z3_get_app_num_args", ctypes.c_uint, _P, _P)
_get_arg = _raw("Z3_get_app_arg", _P, _P, _P, ctypes.c_uint)
_get_kind = _raw("Z3_get_ast_kind", ctypes.c_uint, _P, _P)
_decl = _raw("Z3_get_app_decl", _P, _P, _P)
_dkind = _raw("Z3_get_decl_kind", ctypes.c_uint, _P, _P)
_incref = _raw("Z3_inc_ref", None, _P, _P)
_C = z3.main_ctx().ref().value


def _gid(s):
    try: return s._i
    except AttributeError:
        i = s._i = _get_id(_C, s.ast.value)
        return i


z3.ExprRef.get_id = _gid                 # an identity never changes while the term is held
z3.AstRef.eq = lambda a, b: a.ast.value == b.ast.value


def _addnodes(t):
    """records of t and all its subterms"""
    stack = [t.as_ast().value]
    c = _C
    if len(_nodes) > 1500000:
        _nodes.clear(); _consts.clear()
    while stack:
        x = stack.pop()
        i = _get_id(c, x)
        if i in _nodes: continue
        kind = 0; ch = ()
        if _get_kind(c, x) == 1:        # application
            n = _n_args(c, x)
            if n:
                ids = []
                for j in range(n):
                    y = _get_arg(c, x, j)
                    k = _get_id(c, y); ids.append(k)
                    if k not in _nodes: stack.append(y)
                ch = tuple(ids)
            dk = _dkind(c, _decl(c, x))
            if dk == z3.Z3_OP_UNINTERPRETED: kind = 1
            elif dk == z3.Z3_OP_MUL or dk == z3.Z3_OP_IDIV or dk == z3.Z3_OP_MOD: kind = 2
        if kind: e = z3.z3._to_expr_ref(z3.z3types.Ast.from_buffer_copy(_P(x)), t.ctx)
        else:
            _incref(c, x); e = None         # kept alive: the id is not reused
        _nodes[i] = (kind, ch, e)


def walk(t, want):
    out = {}
    k = t.get_id()
    if k not in _nodes: _addnodes(t)
    stack = [k]; seen = {k}
    while stack:
        i = stack.pop()
        kind, ch, e = _nodes[i]
        if kind == want: out[i] = e
        for j in ch:
            if j not in seen: seen.add(j); stack.append(j)
    return out


def apps(t):
    """uninterpreted applications (arity>=0) in t: dict id->term ; cached"""
    if not isinstance(t, z3.ExprRef): return {}
    k = t.get_id()
    r = _consts.get(k)
    if r is not None: return r[1]
    out = walk(t, 1)
    if len(_consts) > 100000: _consts.clear()
    _consts[k] = (t, out)
    return out


def contains(t, c):
    return isinstance(t, z3.ExprRef) and c.get_id() in apps(t)


class QF:
    """forall vars. guard -> body   (instantiated by matching / at hints)"""
    __slots__ = ("vs", "guard", "body", "hints", "_pats", "_inst", "_sp")

    def __init__(s, vs, guard, body, hints=()):
        s.vs, s.guard, s.body, s.hints = list(vs), guard, body, list(hints)
        s._pats = None; s._inst = {}; s._sp = None

    def inst(s, vals):
        k = tuple(v.get_id() for v in vals)
        r = s._inst.get(k)
        if r is None:
            r = (vals, subst(tz(z3.Implies(tz(s.guard), tz(s.body))), list(zip(s.vs, vals))))
            s._inst[k] = r
        return r[1]

    def spats(s):
        if s._sp is None:
            s._sp = [(d.name(), d.arity(), m) for (d, m, _) in s.pats()]
        return s._sp

    def subst(s, pairs):
        if not any(contains(tz(x), a) for a, _ in pairs for x in [s.guard, s.body] + [y for h in s.hints for y in h]): return s
        return QF(s.vs, subst(tz(s.guard), pairs), subst(tz(s.body), pairs), [tuple(subst(x, pairs) for x in h) for h in s.hints])

    def guarded(s, c):
        return QF(s.vs, land(c, s.guard), s.body, s.hints)

    def pats(s):
        if s._pats is None:
            vid = {v.get_id(): i for i, v in enumerate(s.vs)}
            out = []
            full = z3.Implies(tz(s.guard), tz(s.body))
            for a in apps(full).values():
                if a.num_args() == 0: continue
                m = []
                for j in range(a.num_args()):
                    p = a.arg(j)
                    vv = [vid[i] for i in apps(p) if i in vid] if z3.is_app(p) else []
                    if p.get_id() in vid: m.append((j, vid[p.get_id()], 0))
                    elif vv:
                        # v + c
                        d = simp(p - s.vs[vv[0]]) if p.sort() == INT and len(vv) == 1 else None
                        if isinstance(d, int): m.append((j, vv[0], d))
                if m: out.append((a.decl(), m, set(x[1] for x in m)))
            # prefer patterns binding more variables
            s._pats = out
        return s._pats


def find_mul(t, acc, seen):
    for i, e in walk(t, 2).items():
        if i not in seen: seen.add(i); acc.append(e)


MULF = z3.Function("mul!", INT, INT, INT)
DIVF = z3.Function("div!", INT, INT, INT)
MODF = z3.Function("mod!", INT, INT, INT)


_rw = {}      # term id -> (term, rewritten, monomials inside)
_ml = {}
_mp = {}


def rw_mono(t):
    """t with non-linear monomials and divisions by terms replaced by uninterpreted functions; the monomials used"""
    i = t.get_id()
    r = _rw.get(i)
    if r is not None: return r
    mon = ()
    if not z3.is_app(t) or t.num_args() == 0: out = t
    else:
        rs = [rw_mono(c) for c in t.children()]
        ch = [r[1] for r in rs]
        ms = {}
        for r in rs:
            for m in r[2]: ms[m[0].get_id()] = m
        k = t.decl().kind()
        if k == z3.Z3_OP_MUL:
            coef = 1; fac = []
            for c in ch:
                if z3.is_int_value(c): coef *= c.as_long()
                else: fac.append(c)
            if len(fac) <= 1: out = t.decl()(*ch) if ms else t
            else:
                fac.sort(key=lambda c: c.sexpr())
                acc = fac[0]
                for c in fac[1:]:
                    a2 = MULF(acc, c)
                    ms[a2.get_id()] = (a2, acc, c, "m")
                    acc = a2
                out = acc if coef == 1 else coef * acc
        elif k in (z3.Z3_OP_IDIV, z3.Z3_OP_MOD) and not z3.is_int_value(ch[1]):
            out = (DIVF if k == z3.Z3_OP_IDIV else MODF)(*ch)
            ms[out.get_id()] = (out, ch[0], ch[1], "d")
        elif ms: out = t.decl()(*ch)
        else: out = t
        mon = tuple(ms.values())
    if len(_rw) > 300000: _rw.clear()
    r = _rw[i] = (t, out, mon)
    return r


def mono_lemmas(m):
    t, a, b, k = m
    r = _ml.get(t.get_id())
    if r is not None: return r[1], r[2]
    lem = []; extra = []
    if k == "d":
        q = DIVF(a, b)
        p = 0          # q * b, distributed over a sum b = c1 x1 + ... + k
        for e in (b.children() if z3.is_add(b) else [b]):
            k, f = 1, e
            if z3.is_int_value(e): p = p + e * q; continue
            if z3.is_mul(e) and e.num_args() == 2 and z3.is_int_value(e.arg(0)): k, f = e.arg(0), e.arg(1)
            x, y = sorted([q, f], key=lambda c: c.sexpr())
            w = MULF(x, y)
            extra.append((w, x, y, "m"))
            p = p + k * w
        lem.append(z3.Implies(b > 0, z3.And(p <= a, a < p + b)))
        lem.append(z3.Implies(z3.And(b > 0, a >= 0), q >= 0))
        lem.append(z3.Implies(b > 0, MODF(a, b) == a - p))
    else:
        lem.append(z3.Implies(z3.And(a >= 0, b >= 0), t >= 0))
        lem.append(z3.Implies(z3.Or(a == 0, b == 0), t == 0))
        lem.append(z3.Implies(a == 1, t == b)); lem.append(z3.Implies(b == 1, t == a))
        lem.append(z3.Implies(z3.And(a >= 1, b >= 1), z3.And(t >= a, t >= b)))
        lem.append(z3.Implies(z3.And(a >= 0, a < M31, b >= 0, b < M31), t < M31 * M31))
        lem.append(z3.Implies(z3.And(a >= 0, b >= 0, b <= 64), t <= 64 * a)); lem.append(z3.Implies(z3.And(b >= 0, a >= 0, a <= 64), t <= 64 * b))
        for c in (2, 3, 4, 5, 6):
            lem.append(z3.Implies(a == c, t == c * b)); lem.append(z3.Implies(b == c, t == c * a))
    if len(_ml) > 50000: _ml.clear()
    _ml[t.get_id()] = (t, lem, extra)
    return lem, extra


def pair_lemmas(m1, m2):
    k = (m1[0].get_id(), m2[0].get_id())
    r = _mp.get(k)
    if r is not None: return r[2]
    lem = []
    (t1, a1, b1, _), (t2, a2, b2, _) = m1, m2
    for (p, q) in ((a1, b1), (b1, a1)):
        for (r, s) in ((a2, b2), (b2, a2)):
            if p.eq(r):     # common factor p: compare q,s
                lem.append(z3.Implies(z3.And(p >= 0, q < s), t1 + p <= t2))
                lem.append(z3.Implies(z3.And(p >= 0, q <= s), t1 <= t2))
                lem.append(z3.Implies(q == s, t1 == t2))
                lem.append(z3.Implies(q == s + 1, t1 == t2 + p))
            elif t1.get_id() < t2.get_id():
                lem.append(z3.Implies(p == r, z3.And(z3.Implies(q == s, t1 == t2), z3.Implies(z3.And(p >= 0, q < s), t1 + p <= t2))))
    if len(_mp) > 200000: _mp.clear()
    _mp[k] = (t1, t2, lem)
    return lem


def linearise(fs):
    """replace nonlinear monomials / division by uninterpreted functions; returns formulas + lemmas"""
    out = []; monos = {}
    for f in fs:
        _, g, ms = rw_mono(f)
        out.append(g)
        for m in ms: monos[m[0].get_id()] = m
    if not monos: return fs, []
    lem = []
    todo = list(monos.values())
    while todo:
        m = todo.pop()
        l, ex = mono_lemmas(m)
        lem += l
        for x in ex:
            if x[0].get_id() not in monos: monos[x[0].get_id()] = x; todo.append(x)
    ml = [m for m in monos.values() if m[3] == "m"]
    for i in range(len(ml)):
        for j in range(len(ml)):
            if i != j: lem += pair_lemmas(ml[i], ml[j])
    return out, lem


class Stats:
    def __init__(s):
        s.queries = 0; s.time = 0.0; s.unknown = 0; s.cached = 0


STATS = Stats()
_pcache = {}
LEMMAS = []   # callables: (terms dict) -> list of instantiated axioms
DEADLINE = [None]
SMT2 = []     # (obligation name, smt2) kept for second opinion when enabled
KEEP_SMT2 = [False]


_rf = {}


def range_fact(t):
    k = t.get_id()
    r = _rf.get(k)
    if r is not None: return r[1]
    n = t.decl().name()
    kd = KINDS.get(n)
    f = None
    if kd == "u64": f = z3.And(t >= 0, t < M64)
    elif kd == "i32": f = z3.And(t >= -M31, t < M31)
    elif kd == "u32": f = z3.And(t >= 0, t < M32)
    elif kd == "u8": f = z3.And(t >= 0, t < 256)
    elif kd == "i64": f = z3.And(t >= -M63, t < M63)
    elif kd == "nat": f = t >= 0
    elif kd == "len": f = z3.And(t >= 0, t < MAXLEN)
    elif kd is None and n.startswith("str!") and t.num_args() == 0: f = "str"
    if len(_rf) > 300000: _rf.clear()
    _rf[k] = (t, f)
    return f


def range_facts(ap):
    out = []
    strs = []
    for t in ap.values():
        f = range_fact(t)
        if f is None: continue
        if isinstance(f, str): strs.append(t)
        else: out.append(f)
    if len(strs) > 1: out.append(z3.Distinct(*strs))
    return out


_norm = {}


def norm(f):
    """simplified formula, and whether it has non-linear monomials"""
    k = f.get_id()
    r = _norm.get(k)
    if r is not None: return r[1], r[2]
    g = z3.simplify(f, som=True)
    muls = []; find_mul(g, muls, set())
    nl = False
    for m in muls:
        ch = m.children()
        if m.decl().kind() == z3.Z3_OP_MUL:
            if len([c for c in ch if not z3.is_int_value(c)]) > 1: nl = True; break
        elif not z3.is_int_value(ch[1]): nl = True; break
    if len(_norm) > 300000: _norm.clear()
    _norm[k] = (f, g, nl)
    return g, nl


_info = {}


def tinfo(t):
    """(declaration name, arity, arguments)"""
    k = t.get_id()
    r = _info.get(k)
    if r is None:
        n = t.num_args()
        r = (t, t.decl().name(), n, [t.arg(i) for i in range(n)])
        if len(_info) > 300000: _info.clear()
        _info[k] = r
    return r


_minus = {}


def minus(a, c):
    if c == 0: return a
    k = (a.get_id(), c)
    r = _minus.get(k)
    if r is None:
        r = (a, z3.simplify(a - c, som=True))
        _minus[k] = r
    return r[1]


_lemc = {}


def build(pc, goal=None, rounds=3):
    """-> list of ground formulas whose unsatisfiability proves pc => goal"""
    fs = []
    qs = []
    for p in pc:
        if isinstance(p, QF): qs.append(p)
        elif p is True: pass
        else: fs.append(tz(p))
    if goal is not None: fs.append(z3.Not(tz(goal)))
    ap = {}
    for f in fs: ap.update(apps(f))
    done = set()
    byname = {}
    seen = set()

    def index():
        for i, t in ap.items():
            if i in seen: continue
            seen.add(i)
            r = tinfo(t)
            if r[2]: byname.setdefault((r[1], r[2]), []).append(r)
    for r in range(rounds):
        insts = []
        index()
        for qi, q in enumerate(qs):
            nv = len(q.vs)
            cands = [list() for _ in q.vs]
            full = []
            for (dn, da, m) in q.spats():
                for (t, _, _, targs) in byname.get((dn, da), ()):
                    vals = [None] * nv
                    for (j, vi, c) in m: vals[vi] = minus(targs[j], c)
                    if None not in vals: full.append(tuple(vals))
                    else:
                        for vi, v in enumerate(vals):
                            if v is not None: cands[vi].append(v)
            for h in q.hints: full.append(tuple(tz(x) for x in h))
            if nv > 1 and all(cands):
                lim = 8 if not full else 6
                u = [list({c.get_id(): c for c in cs}.values())[:lim] for cs in cands]
                full += list(itertools.product(*u))[:(10 ** 9 if not full else 60)]
            for vals in full:
                key = (qi,) + tuple(v.get_id() for v in vals)
                if key in done: continue
                done.add(key)
                if len(done) > 3000: continue
                insts.append(q.inst(vals))
        if not insts: break
        for f in insts:
            fs.append(f); ap.update(apps(f))
    for lem in LEMMAS:
        for f in lem(ap):
            fs.append(f); ap.update(apps(f))
    # formulas normalised for linearisation
    lin = []; non = []
    for f in fs:
        g, nl = norm(f)
        (non if nl else lin).append(g)
    if non:
        non, lem = linearise(non)
        fs = lin + non + lem
    else: fs = lin
    ap = {}
    for f in fs: ap.update(apps(f))
    fs += range_facts(ap)
    return fs


def _assert(solver, f):
    _zc.Z3_solver_assert(_CTX, solver.solver, f.as_ast())


class Inc:
    """One solver kept along the path being explored: a level per element of the path condition (the instances, ranges and
    lemmas it gives rise to are asserted with it); a query pops to the common prefix, pushes the rest, and the goal on top."""
    GEN = 3          # instances of instances of instances, no further
    CAP = 3000

    def __init__(s):
        s.solver = z3.SimpleSolver()
        s.levels = []          # (key, held element, trail mark, asserted)
        s.trail = []
        s.terms = {}           # id -> [info, gen]
        s.byname = {}          # (name, arity) -> [info]
        s.qpat = {}            # (name, arity) -> [(q entry, pattern)]
        s.done = {}            # (q, values) -> [generation, instance]
        s.monos = {}
        s.mlist = []
        s.strs = []
        s.seen = {}            # formula id -> generation
        s.queue = []
        s.count = 0

    # ---- undo
    def undo(s, mark):
        tr = s.trail
        while len(tr) > mark:
            x = tr.pop(); k = x[0]
            if k == 0: del s.terms[x[1]]; x[2].pop()
            elif k == 1: x[1][1] = x[2]
            elif k == 2: del s.done[x[1]]; s.count -= 1
            elif k == 3: del x[1][x[2]]
            elif k == 4: x[1].pop()

    def pop_to(s, n):
        k = len(s.levels) - n
        if k <= 0: return
        s.undo(s.levels[n][2])
        del s.levels[n:]
        s.solver.pop(k)

    def push(s, key, el):
        s.solver.push()
        s.levels.append((key, el, len(s.trail)))
        if isinstance(el, QF): s.add_q(el)
        elif el is not None and el is not True: s.queue.append((tz(el), 0))
        s.run()

    # ---- content
    def run(s):
        q = s.queue
        i = 0
        while i < len(q):
            f, g = q[i]; i += 1
            s.formula(f, g)
        q.clear()

    def formula(s, f, gen):
        k = f.get_id()
        old = s.seen.get(k)
        if old is None:
            s.seen[k] = e = [f, gen]
            s.trail.append((3, s.seen, k))
            g, nl = norm(f)
            if nl:
                _, g2, ms = rw_mono(g)
                _assert(s.solver, g2)
                for m in ms: s.mono(m)
            else: _assert(s.solver, g)
            for t in apps(f).values(): s.term(t, gen)
            if g is not f and not g.eq(f):
                for t in apps(g).values():
                    if t.get_id() not in s.terms: s.term(t, 99)
        elif gen < old[1]:
            s.trail.append((1, old, old[1])); old[1] = gen
            for t in apps(f).values(): s.term(t, gen)

    def mono(s, m):
        k = m[0].get_id()
        if k in s.monos: return
        s.monos[k] = m; s.trail.append((3, s.monos, k))
        lem, ex = mono_lemmas(m)
        for l in lem: _assert(s.solver, l)
        if m[3] == "m":
            for o in s.mlist:
                for l in pair_lemmas(m, o): _assert(s.solver, l)
                for l in pair_lemmas(o, m): _assert(s.solver, l)
            s.mlist.append(m); s.trail.append((4, s.mlist))
        for x in ex: s.mono(x)

    def term(s, t, gen):
        k = t.get_id()
        e = s.terms.get(k)
        if e is None:
            info = tinfo(t)
            nm = (info[1], info[2])
            lst = s.byname.get(nm)
            if lst is None: lst = s.byname[nm] = []
            e = s.terms[k] = [info, gen]
            lst.append(e); s.trail.append((0, k, lst))
            f = range_fact(t)
            if f is not None:
                if isinstance(f, str):
                    for o in s.strs: _assert(s.solver, o != t)
                    s.strs.append(t); s.trail.append((4, s.strs))
                else: _assert(s.solver, f)
            for lem in LEMMAS:
                for f in lem({k: t}): s.queue.append((f, gen))
        elif gen < e[1]:
            s.trail.append((1, e, e[1])); e[1] = gen
        else: return
        if gen < s.GEN and e[0][2]:
            for qe, m in s.qpat.get((e[0][1], e[0][2]), ()): s.match(qe, m, e)

    def add_q(s, q):
        # entry: formula, candidates per variable, number of complete matches
        qe = [q, [[] for _ in q.vs], [0, 0]]
        for (dn, da, m) in q.spats():
            lst = s.qpat.get((dn, da))
            if lst is None: lst = s.qpat[(dn, da)] = []
            lst.append((qe, m)); s.trail.append((4, lst))
        for h in q.hints: s.inst(qe, tuple(tz(x) for x in h), 1)
        for (dn, da, m) in q.spats():
            for e in list(s.byname.get((dn, da), ())):
                if e[1] < s.GEN: s.match(qe, m, e)

    def match(s, qe, m, e):
        q = qe[0]; nv = len(q.vs)
        targs = e[0][3]
        vals = [None] * nv
        for (j, vi, c) in m: vals[vi] = minus(targs[j], c)
        if None not in vals:
            if nv > 1 and not qe[2][1]: s.trail.append((1, qe[2], 0)); qe[2][1] = 1
            s.inst(qe, tuple(vals), e[1] + 1)
            return
        for vi, v in enumerate(vals):
            if v is None: continue
            cs = qe[1][vi]
            if any(c[0].eq(v) for c in cs): continue
            lim = 8 if len(s.levels) <= s.base else 14
            if len(cs) >= lim: continue
            cs.append((v, e[1])); s.trail.append((4, cs))
            rest = [qe[1][w] if w != vi else [(v, e[1])] for w in range(nv)]
            if not all(rest): continue
            n = 0
            for comb in itertools.product(*rest):
                if qe[2][1] and n >= 24: break
                n += 1
                s.inst(qe, tuple(c[0] for c in comb), 1 + max(c[1] for c in comb))

    def inst(s, qe, vals, gen):
        q = qe[0]
        key = (id(qe),) + tuple(v.get_id() for v in vals)
        d = s.done.get(key)
        if d is None:
            if s.count >= s.CAP: return
            f = q.inst(vals)
            s.done[key] = [f, gen, qe]; s.trail.append((2, key)); s.count += 1
            s.queue.append((f, gen))
        elif gen < d[1]:
            s.trail.append((1, d, d[1])); d[1] = gen
            s.queue.append((d[0], gen))

    base = 1 << 60

    def ask(s, pc, goal, timeout, rl=0):
        n = 0
        lv = s.levels
        pcs = [p for p in pc if p is not True]
        for p in pcs:
            if n >= len(lv): break
            k = id(p) if isinstance(p, QF) else (p.get_id() if isinstance(p, z3.ExprRef) else p)
            if lv[n][0] != k: break
            n += 1
        s.base = 1 << 60
        s.pop_to(n)
        for p in pcs[n:]:
            k = id(p) if isinstance(p, QF) else (p.get_id() if isinstance(p, z3.ExprRef) else p)
            s.push(k, p)
        s.base = len(s.levels)
        ng = z3.Not(goal)
        s.push(-1, ng)
        s.solver.set("timeout", timeout)
        s.solver.set("rlimit", rl)
        r = s.solver.check()
        s.pop_to(len(s.levels) - 1)
        return r


DEEP = [0]


def _deepdump(pc, g):
    if os.environ.get('VPDEEP'): print('DEEP', str(g)[:200], len(pc), flush=True)


INC = [None, os.environ.get("VP_INC", "1") == "1", 0]


def ask(pc, goal, timeout, rl=0):
    if DEADLINE[0] and time.time() > DEADLINE[0]: raise Timeout("time budget exhausted")
    INC[2] += 1
    if INC[0] is None or INC[2] > 3000:
        INC[0] = Inc(); INC[2] = 0
    try: r = INC[0].ask(pc, goal, timeout, rl)
    except BaseException:
        INC[0] = None
        raise
    return r


def check(fs, timeout=8000):
    if DEADLINE[0] and time.time() > DEADLINE[0]: raise Timeout("time budget exhausted")
    t = time.time()
    for mk in (z3.SimpleSolver, z3.Solver):
        s = mk()
        s.set("timeout", timeout)
        for f in fs: _assert(s, f)
        r = s.check()
        if r != z3.unknown: break
    STATS.queries += 1; STATS.time += time.time() - t
    if r == z3.unknown: STATS.unknown += 1
    return r, s


def _key(pc, goal):
    return (tuple((id(p) if isinstance(p, QF) else (p.get_id() if isinstance(p, z3.ExprRef) else p)) for p in pc), goal.get_id() if goal is not None else None)


_hold = []


def prove(pc, goal, timeout=8000, deep=False, rl=0):
    """True if pc => goal is valid; False if refuted (in the instantiated theory) or unknown."""
    goal = simp(goal)
    if goal is True: return True
    if any(p is False for p in pc): return True
    g = tz(goal)
    for p in pc:
        if isinstance(p, z3.ExprRef) and p.eq(g): return True
    k = _key(pc, g)
    r = _pcache.get(k)
    if r is not None:
        STATS.cached += 1
        return r
    r = z3.unknown
    if INC[1]:
        t = time.time()
        r = ask(pc, g, timeout, rl)
        if rl and r == z3.unknown: r = z3.sat          # a quick question: no answer counts as no
        if r != z3.unknown: STATS.queries += 1; STATS.time += time.time() - t
    if r == z3.unknown or (deep and r == z3.sat):
        r, s = check(build(pc, g), timeout)
        if r == z3.unsat: DEEP[0] += 1; _deepdump(pc, g)
    r = r == z3.unsat
    _pcache[k] = r
    _hold.append((pc, g))
    return r


def _itecond(t, seen):
    """an if-condition without conditionals inside"""
    if t.get_id() in seen or not z3.is_app(t): return None
    seen.add(t.get_id())
    for c in t.children():
        r = _itecond(c, seen)
        if r is not None: return r
    if z3.is_app_of(t, z3.Z3_OP_ITE): return t.arg(0)
    return None


def mulcond(g):
    """a condition that decides between the factors of a product"""
    muls = []; find_mul(g, muls, set())
    for m in muls:
        if len([c for c in m.children() if not z3.is_int_value(c)]) > 1:
            r = _itecond(m, set())
            if r is not None: return r
    return None


def split(pc, goal, depth=6):
    """products of conditional terms: proof by cases"""
    goal = simp(goal)
    if goal is True: return True
    c = mulcond(tz(goal)) if depth else None
    if c is None: return False
    for v in (True, False):
        g = simp(subst(tz(goal), [(c, z3.BoolVal(v))]))
        q = pc + [c if v else z3.Not(c)]
        if not prove(q, g) and not split(q, g, depth - 1): return False
    return True


def prove_model(pc, goal, timeout=20000, name=None):
    """-> ('proved'|'refuted'|'unknown', model or None, smt2)"""
    goal = simp(goal)
    if goal is True: return "proved", None, None
    fs = build(pc, tz(goal), rounds=4)
    r, s = check(fs, timeout)
    smt2 = s.to_smt2() if (KEEP_SMT2[0] or r != z3.unsat) else None
    if r == z3.unsat:
        if KEEP_SMT2[0]: SMT2.append((name, smt2))
        return "proved", None, None
    if split(pc, goal): return "proved", None, None
    if r == z3.sat: return "refuted", s.model(), smt2
    return "unknown", None, smt2


RL = 150000      # z3 resource units for questions of reachability (refutations take a few thousand)


def feasible(pc, timeout=4000):
    """False only if pc is contradictory"""
    if any(p is False for p in pc): return False
    return not prove(pc, z3.BoolVal(False), timeout, rl=RL)
