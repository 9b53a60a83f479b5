"""Loops: inferred closed forms / recurrences of the modified cells, checked inductive; facts of the completed iterations
are carried as quantified facts; candidate invariants are kept only when proved (base and step)."""
import hashlib, time
from sx import *
from vc import *
import vc, ir, gram
from ir import *

PEEL = 70
STREAMCELLS = {"ws": "int", "nl": "int", "fail": "bool", "eof": "bool", "lost": "bool", "pos": "len", "bad": "bool", "rerr": "bool", "pend": "bool"}


import os
DEBUG = bool(os.environ.get("VPDEBUG"))


def lsite(ex, F, h):
    return "%s:%s.%s" % (F.name[-24:], h, ".".join("%s" % (c.uid[1] if c is not None and hasattr(c, "uid") else "r") for c in ex.callstack))


def split(outs, h):
    back, exits, other = [], [], []
    for o in outs:
        if o[0] == "edge" and o[1] == h: back.append(o[2])
        elif o[0] == "edge": exits.append(o)
        else: other.append(o)
    return back, exits, other


def merge_all(ex, sts):
    res = []
    for s in sts: gram.settle_all(ex, s)
    for s in sts:
        for j, q in enumerate(res):
            m = merge_states(ex, q, s)
            if m is not None:
                res[j] = m; break
        else: res.append(s)
    return res


def summarise(ex, F, h, st):
    key = (F.name, h)
    st = st.copy()
    if key not in ex.nopeel:
        r = peel(ex, F, h, st)
        if r is not None: return r
        ex.nopeel.add(key)
    if F.dem.startswith("std::array<"): return unroll(ex, F, h, st)      # member-wise construction of a fixed array
    return Loop(ex, F, h, st).run()


def unroll(ex, F, h, st):
    outs = []; cur = [st]
    for _ in range(70):
        nxt = []
        for q in cur:
            for o in ex.run_region(F, h, [(h, q)]):
                if o[0] == "edge" and o[1] == h: nxt.append(o[2])
                else: outs.append(o)
        if not nxt: return outs
        cur = nxt
    raise Unsupported("fixed array of more than 64 members")


def peel(ex, F, h, st):
    """execute the iterations one by one while their number is concretely bounded"""
    saved = ex.obl
    ex.obl = {}
    outs = []
    try:
        cur = [st.copy()]
        grace = found = 0
        counted = len(ex.cfg(F).succ[h]) == 2
        for k in range(PEEL):
            nxt = []; ne = 0
            for s in cur:
                b, e, o = split(ex.run_region(F, h, [(h, s)]), h)
                nxt += b; outs += e + o
                # leaving a counted loop early (the entry looked for was found) does not make its end symbolic
                early = [x for x in e if counted and x[3] != h]
                ne += len(e) - len(early); found += bool(early)
            cur = merge_all(ex, nxt)
            if not cur:
                for kk, v in ex.obl.items():
                    w = saved.get(kk)
                    if w is None: saved[kk] = v
                    else:
                        for f in ("proved", "failed", "unknown"): w[f] += v[f]
                        w["model"] = w["model"] or v["model"]; w["exact"] = w["exact"] and v["exact"]
                return outs
            if ne:
                grace += 1
                if grace > 1: return None
            if found > 16: return None
        return None
    except Unsupported as e:
        if isinstance(e, vc.Timeout): raise
        return None
    finally:
        ex.obl = saved


def has(t, ids):
    return isinstance(t, z3.ExprRef) and any(i in ids for i in apps(t))


def strip_ite(t, leafname):
    """t as nested If over leaf application `leafname` -> list of (guard, value) and whether the leaf occurs elsewhere"""
    out = []

    def rec(t, g):
        if z3.is_app(t) and t.decl().name() == leafname: return
        if z3.is_app_of(t, z3.Z3_OP_ITE):
            c, a, b = t.children()
            rec(a, g + [c]); rec(b, g + [z3.Not(c)])
        else: out.append((g, t))
    rec(t, [])
    return out


class Indexed:
    """invariant offered for the head of iteration t"""
    def __init__(s, f): s.f = f


def inv_at(c, st, t): return c.f(st, t) if isinstance(c, Indexed) else c(st)


def holds(st, x, deep=False):
    """an invariant (possibly quantified) follows from the path condition"""
    if not isinstance(x, QF): return vc.prove(st.pc, tz(simp(x)), deep=deep)
    sk = [(v, z3.Int("sk!inv!%d!%s" % (k, v))) for k, v in enumerate(x.vs)]
    pc = st.pc + [subst(tz(x.guard), sk)]; b = subst(tz(x.body), sk)
    return vc.prove(pc, b, deep=True) or vc.split(pc, b)


class Form:
    def __init__(s, key, kind, v0, fn): s.key, s.kind, s.v0, s.fn = key, kind, v0, fn
    def at(s, t): return s.fn(t)
    def __repr__(s): return "%s:%s" % (s.key, s.kind)


def fname(key): return key[0] + "." + ".".join(map(str, key[1]))


class Loop:
    def __init__(s, ex, F, h, st):
        gram.settle_all(ex, st)
        s.ex, s.F, s.h, s.st = ex, F, h, st
        s.site = lsite(ex, F, h)
        n = hashlib.sha1(s.site.encode()).hexdigest()[:6]
        s.name = "l" + n
        s.it = z3.Int("it!" + s.name)
        s.lim = s.it < 2 ** 62           # no execution gets that far (assumption 7); never used to show termination
        s.affine = {}     # key -> list of deltas (per term)
        s.settle = {}     # key -> pointer after every iteration
        s.probe = {}      # key -> probe value
        s.pids = {}       # probe term id -> (key, index)
        s.facts = []; s.anys = []; s.lasts = set()
        t = F.blocks[h][0]
        s.line = next((i.line for b in [h] for i in F.blocks[b] if i.line), 0)
        s.file = next((i.file for b in [h] for i in F.blocks[b] if i.file and i.line), "?")

    # ------------------------------------------------------------ values at the head
    def entry(s, key):
        v = s.entry0(key)
        if isinstance(v, z3.ExprRef) and s.arity(key):
            # the same content at every index of a fixed array (other indices are never accessed)
            for j, d in enumerate(s.dims(key)):
                if isinstance(d, int) and 0 < d <= 8 and contains(v, X[j]):
                    vs = [simp(subst(v, [(X[j], z3.IntVal(i))])) for i in range(d)]
                    if all(same(x, vs[0]) for x in vs): v = tz(vs[0])
        return v

    def entry0(s, key):
        v = s.st.mem.get(key)
        if v is None:
            if s.ex.roots[key[0]].pol == "undef" if key[0] in s.ex.roots else True:
                if key[0] in s.ex.roots and s.ex.key_arity(key) > 0: return s.ex.initval(key)
                return s.ex.initval(key) if key[0] in s.ex.roots else UNDEF
            v = s.ex.initval(key)
        return v

    def arity(s, key): return s.ex.key_arity(key) if key[0] in s.ex.roots else 0

    def mkprobe(s, key, like):
        """unknown value of a modified cell at the head"""
        n = s.arity(key)
        nm = "P!%s!%s" % (s.name, fname(key))
        if n:
            if not isinstance(like, z3.ExprRef): like = tz(like)
            k = {z3.IntSort(): None}.get(like.sort())
            kind = s.ex.leafkind(s.ex.roots[key[0]], key[1])
            t = sym(nm, kind, X[:n])
            s.pids[nm] = key
            return t
        sh, ts = decompose(like)
        if not ts: return like
        nts = []
        for j, t in enumerate(ts):
            so = tz(t).sort()
            kind = s.kind_of(key, t, so)
            p = sym(nm + ("~%d" % j if j else ""), kind)
            s.pids[nm + ("~%d" % j if j else "")] = key
            nts.append(p)
        return recompose(like, nts)

    def kind_of(s, key, t, so):
        if so == BOOL: return "bool"
        if so == F64: return "f64"
        if so == STR: return "str"
        try:
            k = s.ex.leafkind(s.ex.roots[key[0]], key[1]) if key[0] in s.ex.roots else None
        except Exception: k = None
        if k in ("u64", "i32", "u32", "u8", "len", "nat"): return k
        return "int"

    def head(s, forms=None):
        H = s.st.copy()
        H.its = s.st.its + ((s.name, s.it),)
        H.pc.append(s.it >= 0); H.pc.append(s.lim)
        for key in s.mod:
            if forms is not None and key in forms: H.mem[key] = forms[key].at(s.it)
            elif key in s.affine: H.mem[key] = s.aff(key, s.it)
            else: H.mem[key] = s.probe[key]
        return H

    def aff(s, key, t):
        v0 = s.entry(key)
        sh, ts = decompose(v0)
        return recompose(v0, [simp(tz(a) + tz(d) * tz(t)) if not same(d, 0) else a for a, d in zip(ts, s.affine[key])])

    def invariant(s, t):
        """t does not depend on the iteration or on modified cells"""
        if not isinstance(t, z3.ExprRef): return True
        itid = s.it.get_id()
        for a in apps(t).values():
            if a.get_id() == itid or a.decl().name() in s.pids: return False
        return True

    def run_body(s, H):
        outs = s.ex.run_region(s.F, s.h, [(s.h, H)])
        b, e, o = split(outs, s.h)
        b = merge_all(s.ex, b)
        return b, e, o

    def live(s, key):
        return True

    # ------------------------------------------------------------ main
    def run(s):
        ex = s.ex
        ex.suppress += 1; ex.trial += 1
        try: forms = s.discover()
        finally: ex.suppress -= 1; ex.trial -= 1
        if isinstance(forms, list): return forms
        return s.final(forms)

    def changed(s, H, M):
        out = []
        for k in set(H.mem) | set(M.mem):
            a, b = H.mem.get(k), M.mem.get(k)
            if a is b: continue
            if b is None: continue
            if a is None:
                if k[0] in ex_roots(s.ex):
                    r = s.ex.roots[k[0]]
                    if r.pol == "undef" and not s.arity(k):
                        a = UNDEF
                    else:
                        try: a = s.ex.initval(k)
                        except Unsupported: a = UNDEF
                else: a = UNDEF
            if isinstance(a, Choice) or isinstance(b, Choice): out.append(k); continue
            if not vsame(a, b): out.append(k)
        return out

    def discover(s):
        ex = s.ex
        s.mod = []
        first = True
        for rnd in range(12):
            H = s.head() if not first else s.st.copy()
            if first: H.its = s.st.its + ((s.name, z3.IntVal(0)),)
            H0 = H.copy()
            b, e, o = s.run_body(H)
            if first:
                first = False
                if not b:
                    # never iterates: redo with recording
                    ex.suppress -= 1; ex.trial -= 1
                    try:
                        r = ex.run_region(s.F, s.h, [(s.h, s.st.copy())])
                    finally: ex.suppress += 1; ex.trial += 1
                    return [x for x in r]
                if len(b) > 1: raise Unsupported("loop states cannot be joined at %s:%d" % (s.file, s.line))
                M = b[0]
                for k in s.changed(H0, M): s.add(k, H0.mem.get(k, None), M.mem[k], rnd, M.pc)
                continue
            if not b:
                raise Unsupported("loop body never continues in the generic iteration")
            if len(b) > 1: raise Unsupported("loop states cannot be joined at %s:%d" % (s.file, s.line))
            M = b[0]
            again = False
            for k in s.changed(H0, M):
                if k not in s.mod:
                    s.add(k, H0.mem.get(k), M.mem[k], rnd, M.pc); again = True
            for k in list(s.affine):
                want = s.aff(k, s.it + 1)
                got = M.mem.get(k)
                if got is None: continue
                if vsame(want, got): continue
                sw, tw = decompose(want); sg, tg = decompose(got)
                if sw == sg and all(same(simp(x), simp(y)) or vc.prove(M.pc, eq(x, y)) for x, y in zip(tw, tg)): continue
                # maybe another stride
                sh, th = decompose(H0.mem[k])
                if sg == sh and rnd < 4:
                    d = [simp(tz(y) - tz(x)) if tz(x).sort() == INT else None for x, y in zip(th, tg)]
                    if all(x is not None and s.invariant(x) for x in d) and not all(same(x, y) for x, y in zip(d, s.affine[k])):
                        s.affine[k] = d; again = True; continue
                if any(f[0] == "cur" for f in [sw[:1]]) : raise Unsupported("stream position is not regular in the loop at %s:%d (%r then %r)" % (s.file, s.line, want, got))
                del s.affine[k]
                s.probe[k] = s.mkprobe(k, s.entry(k) if not isinstance(s.entry(k), (Undef, Maybe)) else got)
                again = True
            for k in list(s.settle):
                got = M.mem.get(k)
                if got is None or isinstance(got, Choice) or not vsame(got, s.settle[k]):
                    del s.settle[k]; s.probe[k] = Poison(k); again = True
            if not again: break
        else: raise Unsupported("no stable set of modified cells")
        s.H0, s.M = H0, M
        forms = s.solve(H0, M)
        pts = {k: f for k, f in forms.items() if f.kind == "point"}
        if DEBUG: print("FORMS %.0f" % __import__("time").time(), s.file, s.line, str({fname(k): f.kind for k, f in forms.items()})[:1500], flush=True)
        if pts:
            # with these known, the rest of the body may behave more simply (insertion at the end of a nested vector)
            H = s.head(pts); H0 = H.copy()
            b, e, o = s.run_body(H)
            if len(b) == 1 and all(k in s.mod for k in s.changed(H0, b[0])):
                s.H0, s.M = H0, b[0]
                forms = s.solve(H0, b[0], pts)
        return forms

    def add(s, k, v0, v1, rnd, pc=[]):
        s.mod.append(k)
        e = s.entry(k)
        if s.arity(k):
            s.probe[k] = s.mkprobe(k, e if isinstance(e, z3.ExprRef) else v1)
            return
        if isinstance(v1, Choice) or isinstance(e, Choice): 
            s.probe[k] = Poison(k); return
        if isinstance(e, (Undef, Maybe)):
            s.probe[k] = Poison(k); return
        if isinstance(e, gram.Cur) and isinstance(v1, gram.Cur) and decompose(e)[0] != decompose(v1)[0]:
            r = gram.refine(s.ex, s.st, e, v1)
            if r is None: raise Unsupported("stream position is not regular in the loop at %s:%d (%r then %r)" % (s.file, s.line, e, v1))
            s.st.mem[k] = e = r
            if v0 is not None and rnd > 0: v0 = e
        sh0, t0 = decompose(e); sh1, t1 = decompose(v1)
        if sh0 == sh1 and sh0[0] != "o":
            ds = []
            for a, b in zip(t0, t1):
                if tz(a).sort() == INT:
                    # distance of one step, as seen in this round
                    base = a if v0 is None or rnd == 0 else None
                    if base is None:
                        shh, th = decompose(v0); base = th[t0.index(a)] if shh == sh0 else a
                    d = simp(tz(decided(pc, b)) - tz(base))
                    if isinstance(d, int) or s.invariant(d) and not mentions_fresh(s, d): ds.append(d)
                    else: ds = None; break
                elif same(a, b): ds.append(0)
                else: ds = None; break
            if ds is not None:
                s.affine[k] = ds; return
        if sh0 != sh1 and isinstance(e, Ptr) and isinstance(v1, Ptr) and all(s.invariant(t) for t in t1):
            s.settle[k] = v1; s.probe[k] = s.settled(k, s.it); return
        if sh0[0] in ("o",) or sh0 != sh1:
            s.probe[k] = Poison(k); return
        s.probe[k] = s.mkprobe(k, e)

    def settled(s, k, t):
        """a pointer that has one value on entry and another one after every iteration"""
        c = simp(eq(t, 0))
        if c is True: return s.entry(k)
        if c is False: return s.settle[k]
        if isinstance(t, z3.ExprRef):
            d = simp(t - s.it)
            if isinstance(d, int) and d > 0: return s.settle[k]
        return Choice(tz(c), s.entry(k), s.settle[k])

    def prune(s, pc, v):
        """drops the alternatives of conditionals that earlier conditions exclude, where old values of modified cells occur in them"""
        seen = {}
        def old(t):
            r = seen.get(t.get_id())
            if r is None:
                r = seen[t.get_id()] = t.num_args() > 0 and t.decl().name() in s.pids or t.num_args() == 0 and t.decl().name() in s.pids or any(old(c) for c in t.children())
            return r
        budget = [60]
        def go(t, cs):
            if not z3.is_app(t) or t.num_args() == 0 or not old(t) or budget[0] <= 0: return t
            if z3.is_app_of(t, z3.Z3_OP_ITE):
                c, a, b = t.children()
                if old(a) or old(b):
                    budget[0] -= 1
                    if cs and vc.prove(pc + cs, c): return go(a, cs)
                    if cs and vc.prove(pc + cs, z3.Not(c)): return go(b, cs)
                c2 = go(c, cs); a2 = go(a, cs + [c]); b2 = go(b, cs + [z3.Not(c)])
                return t if c2 is c and a2 is a and b2 is b else z3.If(c2, a2, b2)
            ks = t.children(); out = []
            more = list(cs)
            for x in ks:
                out.append(go(x, more))
                if z3.is_or(t): more.append(z3.Not(x))
                elif z3.is_and(t): more.append(x)
            if all(x is y for x, y in zip(ks, out)): return t
            return tz(simp(t.decl()(*out))) if not (z3.is_or(t) or z3.is_and(t)) else (z3.Or(*out) if z3.is_or(t) else z3.And(*out))
        r = go(v, [])
        return v if r is v else tz(simp(r))

    # ------------------------------------------------------------ closed forms
    def solve(s, H, M, known={}):
        ex = s.ex
        it = s.it
        forms = dict(known)
        for k in s.affine:
            forms[k] = Form(k, "affine", s.entry(k), (lambda k: lambda t: s.aff(k, t))(k))
        for k in s.settle:
            forms[k] = Form(k, "settle", s.entry(k), (lambda k: lambda t: s.settled(k, t))(k))
        pend = [k for k in s.mod if k not in s.affine and k not in known and k not in s.settle]
        trans = {}
        for k in pend:
            v = M.mem.get(k)
            trans[k] = s.prune(M.pc, v) if z3.is_expr(v) else v
        # cells of the body that are rewritten before being read (locals of the body)
        sub = []      # (probe term, closed form at it) for scalars; arrays through function substitution
        for k in list(pend):
            if k[0] in ex.streams and len(k[1]) == 1 and k[1][0] in STREAMCELLS:
                # state of a stream: arbitrary at the head, up to the invariants found by houdini
                args = [t for (_, t) in s.st.its]
                nm = "h!%s!%s" % (s.name, fname(k))
                kind = STREAMCELLS[k[1][0]]
                forms[k] = Form(k, "havoc", s.entry(k), (lambda nm, args, kind: lambda t: sym(nm, kind, args + [tz(t)]))(nm, args, kind))
                pend.remove(k)
        if ex.force is not None:
            for k in list(pend):
                if ex.force(s, k) and s.described(k, forms): pend.remove(k)
            for k in pend: trans[k] = s.resolve(trans[k], forms)
        progress = True
        while pend and progress:
            progress = False
            for k in list(pend):
                v = trans[k]
                if isinstance(s.probe[k], Poison) or isinstance(v, (Choice, Undef, Maybe)):
                    f = s.lastvalue(k, v, forms)
                    if f is None: f = Form(k, "dead", None, (lambda k: lambda t: Poison(k))(k))
                    forms[k] = f; pend.remove(k); progress = True; continue
                if s.arity(k):
                    f = s.arrayform(k, v, forms)
                else:
                    f = s.scalarform(k, v, forms)
                if f is not None:
                    forms[k] = f; pend.remove(k); progress = True
                    # substitute it in the others
                    for q in pend: trans[q] = s.resolve(trans[q], forms)
            if not progress:
                for k in pend:
                    if not isinstance(trans[k], z3.ExprRef): continue
                    v = s.resolve(trans[k], forms)
                    w = ctxsimp(v, M.pc) if isinstance(v, z3.ExprRef) else v
                    if isinstance(w, z3.ExprRef) and not same(w, trans[k]): trans[k] = w; progress = True
        if pend:
            if DEBUG:
                for k in pend: print("PEND", s.line, fname(k), str(s.resolve(trans[k], forms))[:700], flush=True)
            for k in list(pend):
                if ex.norec is not None and ex.norec(s, k) and s.described(k, forms): pend.remove(k)
            # joint recurrences
            hs = {}
            for k in pend:
                n = s.arity(k)
                kind = s.ex.leafkind(s.ex.roots[k[0]], k[1]) if n else None
                args = [t for (_, t) in s.st.its]
                if n:
                    hs[k] = (lambda nm, kind, args, n: lambda t: sym(nm, kind, args + [t] + X[:n]))("h!%s!%s" % (s.name, fname(k)), kind, args, n)
                else:
                    e = s.entry(k)
                    sh, ts = decompose(e)
                    def mk(k, e, ts):
                        def f(t):
                            out = []
                            for j, x in enumerate(ts):
                                out.append(sym("h!%s!%s%s" % (s.name, fname(k), "~%d" % j if j else ""), s.kind_of(k, x, tz(x).sort()), args + [t]))
                            return recompose(e, out)
                        return f
                    hs[k] = mk(k, e, ts)
                forms[k] = Form(k, "rec", s.entry(k), hs[k])
            kk = z3.Int("k!" + s.name)
            s.recs = []
            for k in pend:
                T = s.resolve(trans[k], forms)
                n = s.arity(k)
                if n:
                    e = s.entry(k)
                    h = hs[k]
                    xs = X[:n]; ys = [z3.Int("y%d!%s" % (j, s.name)) for j in range(n)]
                    ps = list(zip(xs, ys))
                    s.recs.append(("q", ys, subst(tz(h(0)), ps) == subst(tz(e), ps), None, k))
                    s.recs.append(("k", [kk] + ys, subst(tz(h(kk + 1)), ps) == subst(subst(tz(T), [(it, kk)]), ps), [kk], k))
                else:
                    e = s.entry(k)
                    a0 = decompose(hs[k](0))[1]; ae = decompose(e)[1]
                    for x, y in zip(a0, ae): s.recs.append(("f", [], tz(x) == tz(y), None, k))
                    an = decompose(hs[k](kk + 1))[1]; aT = decompose(vsubst(T, [(it, kk)]))[1]
                    for x, y in zip(an, aT):
                        s.recs.append(("k", [kk], tz(x) == tz(y), [kk], k))
        else: s.recs = []
        return forms

    def described(s, k, forms):
        """described by the invariants of the contract only (a refutation may be due to a missing invariant: not exact)"""
        ex = s.ex; n = s.arity(k)
        if isinstance(s.probe[k], Poison) or not (n or isinstance(s.entry(k), (int, z3.ExprRef))): return False
        ex.approx = True
        args = [t for (_, t) in s.st.its]; nm = "v!%s!%s" % (s.name, fname(k))
        kind = ex.leafkind(ex.roots[k[0]], k[1]) if n else s.kind_of(k, s.entry(k), tz(s.entry(k)).sort())
        forms[k] = Form(k, "havoc", s.entry(k), lambda t: sym(nm, kind, args + [tz(t)] + X[:n]))
        return True

    def resolve(s, v, forms):
        """replace probes whose closed form is known (value at the head, iteration it)"""
        if v is None or isinstance(v, (Undef, Choice)): return v
        if not isinstance(v, z3.ExprRef) :
            sh, ts = decompose(v)
            if not ts: return v
            return recompose(v, [s.resolve(t, forms) if isinstance(t, z3.ExprRef) else t for t in ts])
        for _ in range(6):
            pairs = []; fun = []
            for a in apps(v).values():
                k = s.pids.get(a.decl().name())
                if k is None or k not in forms: continue
                f = forms[k].at(s.it)
                if s.arity(k):
                    body = f
                    fun.append((a, simp(subst(tz(body), list(zip(X, a.children()))))))
                else:
                    sh, ts = decompose(f)
                    if isinstance(f, (Poison, Undef, Maybe)): continue
                    pn = a.decl().name(); j = int(pn.rsplit("~", 1)[1]) if "~" in pn.split("!")[-1] else 0
                    fun.append((a, ts[j]))
            if not fun: break
            v = tz(simp(subst(v, fun)))
        return simp(v)

    def probes_in(s, t):
        return set(s.pids[a.decl().name()] for a in apps(t).values() if a.decl().name() in s.pids) if isinstance(t, z3.ExprRef) else set()

    def lastvalue(s, k, v, forms):
        return None

    def scalarform(s, k, v, forms):
        v = s.resolve(v, forms)
        e = s.entry(k)
        sh, ts = decompose(v); sh0, t0 = decompose(e)
        if sh != sh0: return Form(k, "dead", None, lambda t: Poison(k))
        own = decompose(s.probe[k])[1]
        it = s.it
        if all(not s.probes_in(tz(x)) for x in ts if isinstance(x, z3.ExprRef)):
            # value written by the previous iteration
            def at(t, ts=ts, t0=t0):
                prev = [subst(tz(x), [(it, simp(tz(t) - 1))]) if isinstance(x, z3.ExprRef) else x for x in ts]
                return recompose(e, [simp(ite(simp(eq(t, 0)), a, b)) for a, b in zip(t0, prev)])
            return Form(k, "last", e, at)
        if len(ts) == 1 and tz(ts[0]).sort() == INT:
            f = simp(tz(ts[0]) - tz(own[0]))
            if isinstance(f, int) or not s.probes_in(f):
                fs = tz(f).sexpr() if not isinstance(f, int) else str(f)
                free = [t for (_, t) in s.st.its]
                cm = subst(tz(f), [(t, z3.Int("S!%d" % i)) for i, t in enumerate(free)] + [(it, z3.Int("S!it"))])
                h = hashlib.sha1(cm.sexpr().encode()).hexdigest()[:8]
                S = lambda t: sym("sum!" + h, "int", free + [tz(t)])
                kk = z3.Int("k!" + s.name)
                s.facts.append(S(0) == 0)
                s.facts.append(QF([kk], kk >= 0, S(kk + 1) == S(kk) + subst(tz(f), [(it, kk)]), [(it,), (simp(it - 1),)]))
                return Form(k, "sum", e, lambda t: simp(tz(t0[0]) + S(simp(tz(t)))))
            f = s.minmaxform(k, tz(ts[0]), tz(own[0]), tz(t0[0]))
            if f is not None: return Form(k, "minmax", e, lambda t: simp(f(simp(tz(t)))))
        return None

    def minmaxform(s, k, v, own, e):
        if not z3.is_app_of(v, z3.Z3_OP_ITE): return None
        it = s.it
        a = None
        for x, y in ((v.arg(1), v.arg(2)), (v.arg(2), v.arg(1))):
            if x.eq(own) and not s.probes_in(y): a = y
        if a is None: return None
        sol = z3.SimpleSolver(); sol.set("timeout", 500)
        op = None
        for o, r in (("min", z3.If(own <= a, own, a)), ("max", z3.If(own >= a, own, a))):
            sol.push(); sol.add(v != r)
            if sol.check() == z3.unsat: op = o
            sol.pop()
        if op is None: return None
        free = [t for (_, t) in s.st.its]
        if hidden(a): return None
        cm = subst(a, [(t, z3.Int("S!%d" % i)) for i, t in enumerate(free)] + [(it, z3.Int("S!it"))])
        h = hashlib.sha1(cm.sexpr().encode()).hexdigest()[:8]
        Mn = lambda t: sym("%s!%s" % (op, h), "int", free + [e, tz(t)])
        W = lambda t: sym("%s!w!%s" % (op, h), "int", free + [e, tz(t)])
        le = (lambda x, y: x <= y) if op == "min" else (lambda x, y: x >= y)
        f = lambda t: subst(a, [(it, tz(t))])
        kk = z3.Int("k!" + s.name)
        # stated at the current iteration only: at the exit it becomes the number of iterations
        s.facts.append(Mn(0) == e)
        s.facts.append(Mn(it + 1) == z3.If(le(Mn(it), f(it)), Mn(it), f(it)))
        s.facts.append(QF([kk], z3.And(0 <= kk, kk < it), le(Mn(it), f(kk))))
        s.facts.append(z3.Implies(it > 0, le(Mn(it), f(0))))
        s.facts.append(z3.And(le(Mn(it), e), z3.Or(Mn(it) == e, z3.And(0 <= W(it), W(it) < it, Mn(it) == f(W(it))))))
        return Mn

    def anyform(s, k, v, e, pn, n):
        """a set that only grows: member(t) = member(0) or some earlier iteration added it (checked inductive like every form)"""
        if v.sort() != BOOL: return None
        it = s.it
        pairs = [(a, z3.BoolVal(False)) for a in apps(v).values() if a.decl().name() == pn]
        g = simp_t(subst(v, pairs))
        if z3.is_false(g) or s.probes_in(g) or hidden(g): return None
        free = [t for (_, t) in s.st.its]
        cm = subst(g, [(t, z3.Int("S!%d" % i)) for i, t in enumerate(free)] + [(it, z3.Int("S!it"))])
        h = hashlib.sha1(cm.sexpr().encode()).hexdigest()[:8]
        xs = X[:n]
        A = lambda t, y: sym("any!" + h, "bool", free + [tz(t)] + list(y))
        W = lambda t, y: sym("any!w!" + h, "int", free + [tz(t)] + list(y))
        G = lambda t, y: subst(g, [(it, tz(t))] + list(zip(xs, y)))
        kk = z3.Int("k!" + s.name); ys = [z3.Int("y%d!%s" % (j, s.name)) for j in range(n)]
        s.facts.append(QF(ys, z3.BoolVal(True), z3.Not(A(0, ys))))
        s.facts.append(QF(ys, z3.BoolVal(True), A(it + 1, ys) == z3.Or(A(it, ys), G(it, ys))))
        s.facts.append(QF(ys, A(it, ys), z3.And(0 <= W(it, ys), W(it, ys) < it, G(W(it, ys), ys))))
        sol = [solve_eq([g], X[j], it, False) for j in range(n)]
        sound = None
        if all(x is not None and not any(contains(tz(x), X[j]) for j in range(n)) for x in sol):
            at = [subst(tz(x), [(it, kk)]) for x in sol]
            s.facts.append(QF([kk], z3.And(0 <= kk, kk < it), z3.Implies(G(kk, at), A(it, at))))
            # instances at the witnesses of the other folds of this loop
            sound = lambda w: z3.Implies(G(w, [subst(x, [(kk, w)]) for x in at]), A(it, [subst(x, [(kk, w)]) for x in at]))
        else: s.facts.append(QF([kk] + ys, z3.And(0 <= kk, kk < it), z3.Implies(G(kk, ys), A(it, ys))))
        for (A2, W2, n2, sound2) in s.anys:
            y2 = [z3.Int("y%d!%s" % (j, s.name)) for j in range(n2)]
            if sound: s.facts.append(QF(y2, A2(it, y2), sound(W2(it, y2))))
            if sound2: s.facts.append(QF(ys, A(it, ys), sound2(W(it, ys))))
        s.anys.append((A, W, n, sound))
        return Form(k, "any", e, lambda t: tz(simp(z3.Or(e, A(t, xs)))))

    def arrayform(s, k, v, forms):
        ex = s.ex
        it = s.it
        n = s.arity(k)
        pn = "P!%s!%s" % (s.name, fname(k))
        v = s.resolve(v, forms)
        v = tz(v)
        parts = strip_ite(v, pn)
        others = s.probes_in(v) - {k}
        if others: return None
        e = s.entry(k)
        e = tz(e) if not isinstance(e, Undef) else sym("undef!" + fname(k), ex.leafkind(ex.roots[k[0]], k[1]), X[:n])
        if not parts: return Form(k, "same", e, lambda t: e)
        # does the leaf (previous content) occur at all?
        anyleaf = any(a.decl().name() == pn for a in apps(v).values())
        if not anyleaf:
            def atl(t): return tz(simp(ite(simp(eq(t, 0)), e, subst(v, [(it, simp(tz(t) - 1))]))))
            return Form(k, "last", e, atl)
        # an index equation  X_j == a + b*it  common to all written parts
        for j in range(n):
            t = None; ok = True
            for g, val in parts:
                tt = solve_eq(g, X[j], it)
                if tt is None: ok = False; break
                if t is None: t = tt
                elif not same(simp(t - tt), 0): ok = False; break
            if ok and t is not None and contains(t, it):
                b = simp(subst(t, [(it, it + 1)]) - t)
                a = simp(subst(t, [(it, z3.IntVal(0))]))
                if b == 1 and s.invariant(tz(a)):
                    a = tz(a)
                    rel = simp(X[j] - a)
                    inner = subst(v, [(it, tz(rel))])
                    # previous content at that index: untouched so far
                    inner = s.unprobe(inner, pn, e)
                    if inner is None: continue
                    inner = simp_under(inner)
                    def at(t, a=a, inner=inner, j=j):
                        g = simp(z3.And(X[j] >= a, X[j] < a + tz(t)))
                        return tz(simp(ite(g, inner, e)))
                    return Form(k, "at", e, at)
        # several places per iteration, at a constant distance from one iteration to the next
        for j in range(n):
            ts = [solve_eq(g, X[j], it) for g, val in parts]
            if not ts or any(t is None or not contains(t, it) for t in ts): continue
            b = simp(subst(ts[0], [(it, it + 1)]) - ts[0])
            if not isinstance(b, int) or b < 2: continue
            as_ = [simp(t - b * it) for t in ts]
            if any(not s.invariant(tz(a)) for a in as_): continue
            rs = [simp(tz(a) - tz(as_[0])) for a in as_]
            if not all(isinstance(r, int) for r in rs) or max(rs) - min(rs) >= b: continue
            a = simp(tz(as_[0]) + min(rs))
            row = simp_t((X[j] - tz(a)) / b)
            inner = s.unprobe(subst(v, [(it, row)]), pn, e)
            if inner is None: continue
            def at(t, a=a, b=b, inner=inner, j=j):
                return tz(simp(ite(simp(z3.And(X[j] >= tz(a), X[j] < tz(a) + b * tz(t))), inner, e)))
            return Form(k, "stride", e, at)
        if v.sort() == BOOL:
            f = s.anyform(k, v, e, pn, n)
            if f is not None: return f
        # one fixed place, rewritten in every iteration
        f = s.pointform(k, v, parts, e, pn, n)
        if f is not None: return f
        # consecutive ranges  lo(it) <= X_j < lo(it+1)
        for j in range(n):
            r = solve_range(parts, X[j], it)
            if r is None: r = solve_mixed(parts, X[j], it, s.M.pc)
            if r is None: continue
            lo = r
            b = simp(subst(tz(lo), [(it, it + 1)]) - tz(lo)); a = simp(subst(tz(lo), [(it, z3.IntVal(0))]))
            if not (isinstance(b, int) or s.invariant(b)) or not s.invariant(tz(a)): continue
            row = simp((X[j] - tz(a)) / tz(b))
            inner = subst(v, [(it, tz(row))])
            inner = s.unprobe(inner, pn, e)
            if inner is None: continue
            def at(t, a=a, b=b, inner=inner, j=j):
                g = simp(z3.And(X[j] >= tz(a), X[j] < tz(a) + tz(b) * tz(t)))
                return tz(simp(ite(g, inner, e)))
            return Form(k, "range", e, at)
        return s.lastform(k, v, parts, e, pn, n) if s.ex.last else None

    def lastform(s, k, v, parts, e, pn, n):
        """places that depend on the data: the value of the last iteration that wrote there, or the old content"""
        it = s.it
        if any(a.decl().name() == pn and not all(x.eq(y) for x, y in zip(a.children(), X)) for a in apps(v).values()): return None
        def cond(x):
            """when is the previous content replaced"""
            if z3.is_app(x) and x.decl().name() == pn: return z3.BoolVal(False)
            if z3.is_app_of(x, z3.Z3_OP_ITE):
                c, a, b = x.children()
                return z3.If(c, cond(a), cond(b))
            return z3.BoolVal(True)
        g = simp_t(cond(v))
        def valof(x):
            """what is written then"""
            if z3.is_app(x) and x.decl().name() == pn: return None
            if z3.is_app_of(x, z3.Z3_OP_ITE):
                c, a, b = x.children()
                a, b = valof(a), valof(b)
                return b if a is None else a if b is None else z3.If(c, a, b)
            return x
        val = valof(v)
        if s.probes_in(g) or s.probes_in(val) or hidden(g) or hidden(val) or z3.is_true(g) or z3.is_false(g): return None
        free = [t for (_, t) in s.st.its]
        cm = subst(g, [(t, z3.Int("S!%d" % i)) for i, t in enumerate(free)] + [(it, z3.Int("S!it"))])
        h = hashlib.sha1(cm.sexpr().encode()).hexdigest()[:8]
        xs = X[:n]
        A = lambda t, y: sym("wr!" + h, "bool", free + [tz(t)] + list(y))
        W = lambda t, y: sym("wr!w!" + h, "int", free + [tz(t)] + list(y))
        G = lambda t, y: subst(g, [(it, tz(t))] + list(zip(xs, y)))
        if h not in s.lasts:
            s.lasts.add(h)
            kk = z3.Int("k!" + s.name); ys = [z3.Int("y%d!%s" % (j, s.name)) for j in range(n)]
            s.facts.append(QF(ys, z3.BoolVal(True), z3.Not(A(0, ys))))
            s.facts.append(QF(ys, z3.BoolVal(True), A(it + 1, ys) == z3.Or(A(it, ys), G(it, ys))))
            s.facts.append(QF(ys, z3.BoolVal(True), W(it + 1, ys) == z3.If(G(it, ys), it, W(it, ys))))
            s.facts.append(QF(ys, A(it, ys), z3.And(0 <= W(it, ys), W(it, ys) < it, G(W(it, ys), ys))))
            sol = [solve_eq([g], X[j], it, False) for j in range(n)]
            if all(x is not None and not any(contains(tz(x), X[j]) for j in range(n)) for x in sol):
                at = [subst(tz(x), [(it, kk)]) for x in sol]
                s.facts.append(QF([kk], z3.And(0 <= kk, kk < it), z3.Implies(G(kk, at), z3.And(A(it, at), W(it, at) >= kk))))
            else: s.facts.append(QF([kk] + ys, z3.And(0 <= kk, kk < it), z3.Implies(G(kk, ys), z3.And(A(it, ys), W(it, ys) >= kk))))
        def at(t):
            w = W(t, xs)
            return tz(simp(z3.If(A(t, xs), subst(val, [(it, w)]), e)))
        return Form(k, "last", e, at)

    def pointform(s, k, v, parts, e, pn, n):
        it = s.it
        cs = None
        for g, val in parts:
            c = [solve_eq(g, X[j], it, False) for j in range(n)]
            if any(x is None or contains(tz(x), it) or not s.invariant(tz(x)) for x in c): return None
            if cs is None: cs = [tz(x) for x in c]
            elif not all(same(simp(a - b), 0) for a, b in zip(cs, c)): return None
        here = list(zip(X, cs))
        at_c = tz(simp_t(subst(v, here)))
        own = sym(pn, s.ex.leafkind(s.ex.roots[k[0]], k[1]), cs)
        g = land(*[X[j] == cs[j] for j in range(n)])
        e_c = subst(e, here)
        if not s.probes_in(at_c):
            return Form(k, "point", e, lambda t: tz(simp(ite(land(g, tz(t) > 0), subst(at_c, [(it, simp_t(tz(t) - 1))]), e))))
        if at_c.sort() == INT:
            d = simp(at_c - own)
            if isinstance(d, int) or s.invariant(d): return Form(k, "point", e, lambda t: tz(simp(ite(g, e_c + tz(d) * tz(t), e))))
        return None

    def unprobe(s, t, pn, e):
        pairs = []
        for a in apps(t).values():
            if a.decl().name() == pn:
                if any(x.decl().name() == pn for c in a.children() for x in apps(c).values()): return None
                pairs.append((a, subst(e, list(zip(X, a.children())))))
        return simp_t(subst(t, pairs))

    # ------------------------------------------------------------ final pass
    def head_final(s, forms, cfacts, invs):
        H = s.st.copy()
        H.its = s.st.its + ((s.name, s.it),)
        H.pc.append(s.it >= 0); H.pc.append(s.lim)
        for f in s.facts: H.pc.append(f)
        for r in s.recs:
            if r[0] == "f": H.pc.append(r[2])
            elif r[0] == "q": H.pc.append(QF(r[1], z3.BoolVal(True), r[2]))
            else:
                kk = r[1][0]
                H.pc.append(QF(r[1], z3.And(kk >= 0, kk < s.it), r[2], [(simp_t(s.it - 1),)] if len(r[1]) == 1 else []))
        for c in cfacts: H.pc.append(c)
        for k, f in forms.items():
            H.mem[k] = f.at(s.it)
            if k[1] and k[1][-1] == "size" and not s.arity(k) and isinstance(H.mem[k], z3.ExprRef) and k[0] in s.ex.roots:
                H.pc.append(z3.And(H.mem[k] >= 0, H.mem[k] < vc.MAXLEN))      # every container is smaller than the address space
        for i in invs:
            x = inv_at(i, H, s.it)
            H.pc.append(x if isinstance(x, QF) else tz(x))
        return H

    def carry(s, M, n):
        """facts of a completed iteration, quantified over the earlier iterations"""
        out = []
        kk = z3.Int("k!" + s.name)
        for p in M.pc[n:]:
            if isinstance(p, QF):
                q = p.subst([(s.it, kk)])
                if not any(contains(tz(x), s.it) for x in [tz(p.guard), tz(p.body)]): out.append(p); continue
                out.append(QF([kk] + q.vs, z3.And(kk >= 0, kk < s.it, tz(q.guard)), q.body, []))
            elif p is True: continue
            else:
                p = tz(p)
                if not contains(p, s.it): out.append(p) if False else None
                b = subst(p, [(s.it, kk)])
                if not contains(p, s.it):
                    out.append(z3.Implies(s.it > 0, p)); continue
                out.append(QF([kk], z3.And(kk >= 0, kk < s.it), b, [(simp_t(s.it - 1),)]))
        return out

    def final(s, forms):
        for k, f in forms.items():
            if f.kind in ("rec", "any") and (s.F.name, s.h, k) in s.ex.irregular: s.give_up(forms, k)
        while True:
            saved = {k: dict(v) for k, v in s.ex.obl.items()}
            try: return s.final1(forms)
            except Irregular as e:
                s.ex.obl.clear(); s.ex.obl.update(saved)
                k, f = e.args[1], e.args[2]
                if f.kind not in ("rec", "any") or not s.havocable(k): raise
                s.ex.irregular.add((s.F.name, s.h, k))
                s.give_up(forms, k)

    def give_up(s, forms, k):
        # arbitrary value at every head: sound, the cell's content is no longer tracked through the loop
        args = [t for (_, t) in s.st.its]
        n = s.arity(k); nm = "v!%s!%s" % (s.name, fname(k))
        kind = s.ex.leafkind(s.ex.roots[k[0]], k[1])
        forms[k] = Form(k, "havoc", s.entry(k), (lambda nm, args, kind, n: lambda t: sym(nm, kind, args + [tz(t)] + X[:n]))(nm, args, kind, n))
        s.recs = [r for r in s.recs if r[4] != k]
        s.ex.approx = True

    def havocable(s, k):
        if k[0] not in s.ex.roots: return False
        e = s.entry(k)
        return isinstance(e, (int, z3.ExprRef)) and s.ex.leafkind(s.ex.roots[k[0]], k[1]) is not None

    def final1(s, forms):
        ex = s.ex
        it = s.it
        # a trial run only tells the enclosing loop which cells change and how; the forms are checked again in its final run
        quick = ex.trial > 0 and (s.F.name, s.h) in ex.regular
        # pass 1 (not recorded): what holds whenever an iteration completes
        cf = []; invs = []
        ex.suppress += 1
        try:
            for rnd in range(2):
                H = s.head_final(forms, cf, [])
                n = len(H.pc)
                b, e, o = s.run_body(H.copy())
                if not b: raise Unsupported("generic iteration never completes")
                if len(b) > 1: raise Unsupported("loop states cannot be joined")
                M = b[0]
                k = common(H.pc, M.pc)
                cf2 = s.carry(M, k)
                s.limits = limits_of(M.pc[k:], it)
                if rnd == 0: cf = cf2
                else: cf = cf2; break
                break
            invs = s.houdini(forms, cf)
        finally: ex.suppress -= 1
        # pass 2: recorded
        H = s.head_final(forms, cf, invs)
        n = len(H.pc)
        Hc = H.copy()
        outs = ex.run_region(s.F, s.h, [(s.h, H)])
        back, exits, other = split(outs, s.h)
        back = merge_all(ex, back)
        if len(back) > 1: raise Unsupported("loop states cannot be joined")
        if back:
            M = back[0]
            for k in s.changed(Hc, M):
                if k not in forms: raise Unsupported("cell %s changes irregularly in the loop at %s:%d" % (k, s.file, s.line))
            for k, f in forms.items():
                if f.kind in ("dead", "havoc") or quick: continue
                got = M.mem.get(k); want = f.at(simp_t(it + 1))
                s.check_form(M, k, f, got, want)
            for i in invs if not quick else ():
                if not holds(M, inv_at(i, M, simp_t(s.it + 1)), True): raise Unsupported("invariant lost")
            s.variant(Hc, M)
            ex.regular.add((s.F.name, s.h))
        ex.loop_log.append((s.file.replace(ir.REPO + "/", ""), s.line, {f.kind for f in forms.values()}, len(invs)))
        res = []
        for o in exits + other:
            res.append(s.leave(o, Hc))
        return res

    def dims(s, k):
        out = []; t = s.ex.roots[k[0]].ty
        for x in k[1]:
            if x == "*": out.append(t.n if t.kind == "arr" else t.kind)
            try: t = s.ex.step_ty(t, x)
            except Unsupported: break
        return out

    def check_form(s, M, k, f, got, want):
        if got is None: return
        if vsame(got, want): return
        if isinstance(got, (Undef, Maybe, Choice)) or isinstance(want, (Undef, Maybe, Poison)): raise Unsupported("cell %s irregular" % (k,))
        sg, tg = decompose(got); sw, tw = decompose(want)
        if sg != sw: raise Unsupported("cell %s irregular" % (k,))
        for x, y in zip(tg, tw):
            if same(x, y): continue
            n = s.arity(k)
            c = eq(x, y)
            if n and isinstance(c, z3.ExprRef):
                ys = [z3.Int("c%d!%s" % (j, s.name)) for j in range(n)]
                c = subst(c, list(zip(X, ys)))
                nn = [y >= 0 for y, d in zip(ys, s.dims(k)) if d == "vec" or isinstance(d, int)] + [y < d for y, d in zip(ys, s.dims(k)) if isinstance(d, int) and d > 0]
                if nn: c = z3.Implies(z3.And(*nn), c)      # elements have non-negative indices
            step = []          # the recurrences at this iteration: they define the value at the next head
            for r in s.recs if f.kind == "rec" else ():
                if r[0] == "k" and r[4] == k:
                    d = subst(tz(r[2]), [(r[1][0], s.it)])
                    step.append(QF(r[1][1:], z3.BoolVal(True), d) if len(r[1]) > 1 else d)
            if not vc.prove(M.pc + step, c, 15000, deep=True):
                if DEBUG: print("IRREG", fname(k), f.kind, str(got)[:300], "\n WANT", str(want)[:300], flush=True)
                raise Irregular("closed form of %s (%s) not inductive in the loop at %s:%d" % (fname(k), f.kind, s.file, s.line), k, f)

    def houdini(s, forms, cf):
        ex = s.ex
        cands = []
        for g in ex.candidates: cands += g(ex, s, forms)
        for N in s.limits: cands.append((lambda N: Indexed(lambda st, t: simp(tz(t) <= tz(N))))(N))
        for k, f in forms.items():
            if f.kind != "havoc" or k[0] not in ex.streams: continue
            if k[1][0] not in ("ws", "nl"):
                e = f.v0
                if k[1][0] == "pos":
                    cands.append((lambda k, e: lambda st: land(tz(st.mem[k]) >= tz(e)))(k, e))
                    cands.append((lambda k: lambda st: land(tz(st.mem[k]) <= sym("LEN!" + k[0], "len")))(k))
                elif k[1][0] == "lost":
                    cands.append((lambda k: lambda st: simp(z3.Implies(tz(st.mem[k]), tz(st.mem[(k[0], ("fail",))]))))(k))
                elif k[1][0] == "rerr":
                    cands.append((lambda k: lambda st: simp(z3.Implies(tz(st.mem[k]), land(st.mem[(k[0], ("bad",))], st.mem[(k[0], ("fail",))]))))(k))
                elif k[1][0] == "fail":
                    cands.append((lambda k, e: lambda st: simp(z3.Implies(tz(e), tz(st.mem[k]))))(k, e))
                    cands.append((lambda k: lambda st: simp(lnot(st.mem[k])))(k))
                    cands.append((lambda k: lambda st: simp(z3.Implies(tz(st.mem[(k[0], ("lost",))]), tz(st.mem[k]))))(k))
                continue
            for vs in ((0,), (1,), (2,), (3,), (0, 2), (2, 3), (0, 1), (0, 2, 3)):
                cands.append((lambda k, vs: lambda st: lor(*[eq(st.mem[k], v) for v in vs]))(k, vs))
                cands.append((lambda k, vs: Indexed(lambda st, t: simp(z3.Implies(tz(t) >= 1, lor(*[eq(st.mem[k], v) for v in vs])))))(k, vs))
            cands.append((lambda k, e: Indexed(lambda st, t: simp(z3.Implies(tz(t) == 0, tz(eq(st.mem[k], e))))))(k, f.v0))
        if not cands: return []
        keep = [c for c in cands if s.tryf(lambda: holds(s.st, inv_at(c, s.st, z3.IntVal(0))))]
        if DEBUG: print('HOUDINI', s.line, len(cands), 'base lost', [cands.index(c) for c in cands if c not in keep])
        for rnd in range(4):
            if not keep: return []
            H = s.head_final(forms, cf, keep)
            b, e, o = s.run_body(H.copy())
            if len(b) != 1: return []
            bad = [c for c in keep if not s.tryf(lambda: holds(b[0], inv_at(c, b[0], simp_t(s.it + 1))))]
            if DEBUG: print("HOUDINI", s.line, len(cands), len(keep), "lost:", [cands.index(c) for c in bad], flush=True)
            if not bad: return keep
            keep = [c for c in keep if c not in bad]
        return []

    def tryf(s, f):
        try: return f()
        except Unsupported as e:
            if isinstance(e, vc.Timeout): raise
            return False

    def variant(s, H, M):
        ex = s.ex
        if not ex.check_term or ex.suppress: return
        it = s.it
        ok = None
        pc = [p for p in M.pc if p is not s.lim]        # the length of executions proves nothing about termination
        # a bound on the number of iterations
        for N in bounds_of(M.pc[common(H.pc, M.pc):], it):
            if contains(tz(N), it) or any(a.decl().name().startswith("P!") for a in apps(tz(N)).values()): continue
            if vc.prove(pc, it < tz(N)): ok = "bounded by %s" % (str(N)[:60],); break
        if ok is None:
            for nm, hd in ex.streams.items():
                k = (nm, ("pos",))
                if k in M.mem and k in H.mem:
                    LEN = sym("LEN!" + nm, "len")
                    if vc.prove(pc, z3.And(tz(M.mem[k]) >= tz(H.mem[k]) + 1, tz(M.mem[k]) <= LEN)): ok = "consumes input"; break
        loc = "%s:%d" % (s.file.replace(ir.REPO + "/", ""), s.line)
        key = ("terminates", loc, "loop variant decreases")
        r = ex.obl.setdefault(key, {"kind": "terminates", "loc": loc, "what": "loop variant decreases and is bounded", "fn": ex.callfn(), "proved": 0, "failed": 0, "unknown": 0, "model": None, "exact": False})
        if ok: r["proved"] += 1
        else: r["unknown"] += 1

    def leave(s, o, H):
        ex = s.ex
        it = s.it
        st = o[2] if o[0] == "edge" else o[1]
        k = 0
        # number of completed iterations
        N = None
        if o[0] == "edge":
            for c in bounds_of(st.pc[common(H.pc, st.pc):], it):
                if contains(tz(c), it): continue
                if vc.prove(st.pc, it == tz(c)): N = c; break
            if N is None and vc.prove(st.pc, it == 0): N = 0
        if N is None:
            N = sym("n!" + s.name + "".join("~" + x for (x, _) in s.st.its), "nat", [t for (_, t) in s.st.its])
            # distinct exits of one loop share the symbol: they exclude each other
        ps = [(it, tz(N))]
        st.mem = {k: (vsubst(v, ps) if not isinstance(v, z3.ExprRef) else tz(simp(subst(v, ps))) if z3.is_expr(v) and s.arity(k) else simp(subst(v, ps))) for k, v in st.mem.items()}
        npc = []
        for p in st.pc:
            if isinstance(p, QF): npc.append(p.subst(ps))
            elif isinstance(p, z3.ExprRef):
                q = simp(subst(p, ps)) if contains(p, it) else p
                if q is True: continue
                npc.append(q if not isinstance(q, bool) else q)
            else: npc.append(p)
        st.pc = npc
        st.regs = {k: (vsubst(v, ps) if not isinstance(v, (Poison,)) else v) for k, v in st.regs.items()}
        st.its = s.st.its
        st.checked = s.st.checked
        if o[0] == "edge": return ("edge", o[1], st, o[3])
        v = o[2]
        return (o[0], st, vsubst(v, ps) if o[0] == "ret" and v is not None else v)


class Irregular(Unsupported):
    pass


def ex_roots(ex): return ex.roots


class Poison(Undef):
    """value of a body-local cell between iterations: must not be read"""
    def __init__(s, k): s.k = k
    def __repr__(s): return "dead %s" % (s.k,)


def hidden(t):
    """mentions the unknown value of a cell of an enclosing loop"""
    return any(a.decl().name().startswith("P!") for a in apps(t).values())


def mentions_fresh(L, d):
    """d mentions symbols chosen inside the iteration"""
    for a in apps(d).values():
        n = a.decl().name()
        if "~" + L.name in n: return True
    return False


def common(a, b):
    n = 0
    while n < len(a) and n < len(b) and pcsame(a[n], b[n]): n += 1
    return n


def simp_t(t): return tz(simp(t))


def simp_under(t): return t


def ctxsimp(t, pc=()):
    """simplify by what the enclosing conditions (and the path condition) imply"""
    sol = z3.SimpleSolver(); sol.set("timeout", 300)
    has_ite = {}

    def ites(x):
        i = x.get_id()
        if i not in has_ite:
            has_ite[i] = (x, z3.is_app(x) and (z3.is_app_of(x, z3.Z3_OP_ITE) or any(ites(c) for c in x.children())))
        return has_ite[i][1]
    n = [0, 0]; ctx = []

    def implied(c):
        n[0] += 1
        if n[0] > 3000: return None
        sol.push(); sol.add(z3.Not(c)); r = sol.check(); sol.pop()
        if r == z3.unsat: return True
        sol.push(); sol.add(c); r = sol.check(); sol.pop()
        if r == z3.unsat: return False
        if pc and n[1] < 60 and ENUM(c):
            n[1] += 1
            if vc.prove(list(pc) + ctx, c, 1500): return True
            if vc.prove(list(pc) + ctx, z3.Not(c), 1500): return False
        return None

    def rec(x):
        if not ites(x): return x
        if z3.is_app_of(x, z3.Z3_OP_ITE):
            c, a, b = x.children()
            # position of a key in a map compared with the end: presence of the key
            if z3.is_eq(c) and c.arg(0).sort() == INT and ENUM(c):
                for p, q in ((c.arg(0), c.arg(1)), (c.arg(1), c.arg(0))):
                    if z3.is_app_of(p, z3.Z3_OP_ITE) and p.arg(2).eq(q) and pc and n[1] < 60:
                        n[1] += 1
                        if vc.prove(list(pc) + ctx, z3.Implies(p.arg(0), p.arg(1) != q), 1500): c = z3.Not(p.arg(0)); break
            c = rec(c)
            r = implied(c)
            if r is True: return rec(a)
            if r is False: return rec(b)
            sol.push(); sol.add(c); ctx.append(c); a = rec(a); sol.pop(); ctx.pop()
            sol.push(); sol.add(z3.Not(c)); ctx.append(z3.Not(c)); b = rec(b); sol.pop(); ctx.pop()
            return a if a.eq(b) else z3.If(c, a, b)
        if z3.is_and(x) or z3.is_or(x):
            # plain conjuncts first: they are the context of the others
            cs = sorted(x.children(), key=ites); out = []
            sol.push()
            for c in cs:
                c = rec(c); out.append(c)
                sol.add(c if z3.is_and(x) else z3.Not(c))
            sol.pop()
            return z3.And(*out) if z3.is_and(x) else z3.Or(*out)
        if x.num_args() == 0: return x
        return x.decl()(*[rec(c) for c in x.children()])
    return simp_t(rec(t))


def ENUM(c): return any(a.decl().name().startswith("card!") for a in apps(c).values())


def conj(gs):
    out = []
    for g in gs:
        if z3.is_and(g): out += conj(g.children())
        elif z3.is_not(g) and z3.is_or(g.arg(0)): out += conj([z3.Not(c) for c in g.arg(0).children()])
        elif z3.is_not(g) and z3.is_not(g.arg(0)): out += conj([g.arg(0).arg(0)])
        else: out.append(g)
    return out


def lin(t, x):
    """t = c*x + r with integer c, r free of x"""
    r0 = simp_t(subst(t, [(x, z3.IntVal(0))]))
    c = simp(subst(t, [(x, z3.IntVal(1))]) - r0)
    if not isinstance(c, int): return None
    if simp(t - (c * x + r0)) != 0: return None
    return c, r0


def solve_eq(g, x, it, moving=True):
    """an equation x == t(it) among the conjuncts"""
    for c in conj(g):
        if z3.is_eq(c) and c.arg(0).sort() == INT:
            d = simp_t(c.arg(0) - c.arg(1))
            if not contains(d, x): continue
            l = lin(d, x)
            if l is None: continue
            k, r = l
            if k == 1: t = simp_t(-r)
            elif k == -1: t = r
            else: continue
            if not moving or contains(t, it): return t
    return None


def solve_mixed(parts, x, it, pc):
    """lower end lo(it) of ranges [lo(it), lo(it+1)) that contain the places and ranges written in an iteration"""
    ivs = []
    for g, v in parts:
        t = solve_eq(g, x, it)
        if t is not None: ivs.append((t, simp_t(t + 1))); continue
        los = []; his = []
        for c in conj(g):
            neg = z3.is_not(c)
            d = c.arg(0) if neg else c
            if not (z3.is_le(d) or z3.is_ge(d) or z3.is_lt(d) or z3.is_gt(d)): continue
            a, b = d.arg(0), d.arg(1)
            op = d.decl().name()
            if neg: op = {"<=": ">", ">=": "<", "<": ">=", ">": "<="}[op]
            if op in ("<", "<="): a, b = b, a; op = {"<": ">", "<=": ">="}[op]
            e = simp_t(a - b - (1 if op == ">" else 0))
            l = lin(e, x) if contains(e, x) else None
            if l is None: continue
            if l[0] == 1 and contains(l[1], it): los.append(simp_t(-l[1]))
            elif l[0] == -1 and contains(l[1], it): his.append(simp_t(l[1] + 1))
        if not los or not his: return None
        ivs.append((los[0], his[0]))
    for lo, _ in ivs:
        nx = simp_t(subst(lo, [(it, it + 1)]))
        b = simp_t(nx - lo)
        if contains(b, it): continue
        if all(vc.prove(pc, z3.And(l >= lo, h <= nx)) for l, h in ivs): return lo
    return None


def solve_range(parts, x, it):
    """lower end lo(it) of ranges [lo(it), lo(it+1)) containing x in every written part"""
    lo = None
    for g, v in parts:
        los = []; his = []
        for c in conj(g):
            neg = z3.is_not(c)
            d = c.arg(0) if neg else c
            if z3.is_le(d) or z3.is_ge(d) or z3.is_lt(d) or z3.is_gt(d):
                a, b = d.arg(0), d.arg(1)
                op = d.decl().name()
                if neg: op = {"<=": ">", ">=": "<", "<": ">=", ">": "<="}[op]
                if op in ("<", "<="): a, b = b, a; op = {"<": ">", "<=": ">="}[op]
                # a > b or a >= b
                e = simp_t(a - b - (1 if op == ">" else 0))      # e >= 0
                if not contains(e, x): continue
                l = lin(e, x)
                if l is None: continue
                if l[0] == 1: los.append(simp_t(-l[1]))
                elif l[0] == -1: his.append(simp_t(l[1] + 1))
        los = [t for t in los if contains(t, it)]
        if len(los) < 1: return None
        good = None
        for t in los:
            nx = simp_t(subst(t, [(it, it + 1)]))
            if not his or any(same(simp(nx - hh), 0) for hh in his): good = t
        if good is None: return None
        if lo is None: lo = good
        elif not same(simp(lo - good), 0): return None
    return lo


def decided(pc, t):
    """t without the alternatives (of a wrapping sum) that the path condition excludes"""
    if not isinstance(t, z3.ExprRef) or not z3.is_app(t): return t
    if z3.is_app_of(t, z3.Z3_OP_ITE):
        c, a, b = t.children()
        if vc.prove(pc, c): return decided(pc, a)
        if vc.prove(pc, z3.Not(c)): return decided(pc, b)
    elif z3.is_add(t) or z3.is_sub(t):
        ks = t.children(); out = [decided(pc, x) for x in ks]
        if any(x is not y for x, y in zip(ks, out)): return simp(t.decl()(*out))
    return t


def limits_of(pc, it):
    """terms the iteration counter differs from while the loop goes on"""
    out = []
    for p in pc:
        if isinstance(p, z3.ExprRef) and z3.is_not(p) and z3.is_eq(p.arg(0)) and p.arg(0).arg(0).sort() == INT:
            l = lin(simp_t(p.arg(0).arg(0) - p.arg(0).arg(1)), it)
            if l is None or abs(l[0]) != 1: continue
            t = simp(-l[1] if l[0] > 0 else l[1])
            if isinstance(t, int) or not contains(tz(t), it) and not any(same(t, x) for x in out): out.append(t)
    return out


def bounds_of(pc, it):
    """loop-invariant terms compared with the iteration counter"""
    out = []
    seen = set()
    for p in pc:
        if isinstance(p, QF): continue
        if not isinstance(p, z3.ExprRef): continue
        if not contains(p, it): continue
        stack = [p]
        while stack:
            q = stack.pop()
            if z3.is_not(q) or z3.is_and(q) or z3.is_or(q) or z3.is_implies(q): stack.extend(q.children()); continue
            if z3.is_app(q) and q.num_args() == 2 and q.arg(0).sort() == INT and q.sort() == BOOL:
                d = simp_t(q.arg(0) - q.arg(1))
                l = lin(d, it)
                if l is None or l[0] == 0: continue
                c, r = l
                for t in ((-r if c > 0 else r), (-r + 1 if c > 0 else r + 1), (-r - 1 if c > 0 else r - 1)):
                    if abs(c) == 1: t = simp(t)
                    else:
                        t = simp(t / abs(c))
                    s = str(t)
                    if s not in seen: seen.add(s); out.append(t)
    return out
