"""Grammar of the ghost content of a stream: sequences of text tokens and raw fields over a ghost spec."""
from sx import *
from vc import *


class Node: pass


class Tok(Node):
    """text token; kind: lit (python str), int, f64, str, quoted"""
    def __init__(s, kind, v, name=None): s.kind, s.v, s.name = kind, v, name
    def __repr__(s): return "Tok(%s,%s)" % (s.kind, s.v)


class Raw(Node):
    """little endian field; kind: i32 u64 f64"""
    def __init__(s, kind, v, name=None): s.kind, s.v, s.name = kind, v, name; s.width = {"i32": 4, "u64": 8, "f64": 8}[kind]
    def __repr__(s): return "Raw(%s,%s)" % (s.kind, s.v)


class Seq(Node):
    def __init__(s, ch): s.ch = [c for c in ch if c is not None]


class Each(Node):
    """count repetitions; body(i) -> node"""
    def __init__(s, count, body): s.count, s.body = count, body


class Opt(Node):
    def __init__(s, cond, node): s.cond, s.node = cond, node


class Sec(Node):
    """named unit, consumed/produced whole by a callee contract, or entered"""
    def __init__(s, name, node): s.name, s.node = name, node


class Cur:
    """position in a grammar: frames ('s',k) | ('i',t) | ('o',) | ('c',)"""
    nomerge = True
    __slots__ = ("g", "fr")

    def __init__(s, g, fr): s.g, s.fr = g, fr
    def __repr__(s): return "Cur" + "".join("/%s" % (f[1] if len(f) > 1 else f[0],) for f in s.fr) if s.fr is not None else "Cur:end"

    def decompose(s):
        if s.fr is None: return ("cur", id(s.g), None), []
        return ("cur", id(s.g), tuple(f if f[0] != "i" else ("i",) for f in s.fr)), [f[1] for f in s.fr if f[0] == "i"]

    def recompose(s, terms):
        if s.fr is None: return s
        it = iter(terms)
        return Cur(s.g, tuple(("i", next(it)) if f[0] == "i" else f for f in s.fr))

    def pos(s):
        if s.fr is None: return ((9,),)
        return tuple((f[1],) if f[0] == "s" else (0,) for f in s.fr)


def node_at(g, fr):
    n = g
    for f in fr:
        if f[0] == "s": n = n.ch[f[1]]
        elif f[0] == "i": n = n.body(f[1])
        else: n = n.node
    return n


def canon(g, fr):
    """descend eagerly: Seq first child, Each index 0 ; stop at Each(not entered) / Opt / Sec / items"""
    n = node_at(g, fr)
    while True:
        if isinstance(n, Seq):
            if not n.ch: return advance(g, fr)
            fr = fr + (("s", 0),); n = n.ch[0]
        elif isinstance(n, Each):
            return fr + (("i", 0),)
        else:
            return fr


def start(g): return Cur(g, canon(g, ()))


def advance(g, fr):
    """position after the node at fr"""
    while True:
        if not fr: return None
        last = fr[-1]
        par = fr[:-1]
        pn = node_at(g, par)
        if last[0] == "s":
            if last[1] + 1 < len(pn.ch): return canon(g, par + (("s", last[1] + 1),))
            fr = par
        elif last[0] == "i":
            return par + (("i", simp(tz(last[1]) + 1)),)
        else:
            fr = par


def at_each(g, fr):
    """the Each node whose iteration the position stands before, or None"""
    if fr and fr[-1][0] == "i":
        n = node_at(g, fr[:-1])
        if isinstance(n, Each): return n
    return None


def settle(ex, st, c):
    """leave finished repetitions when that is provable"""
    while c.fr is not None:
        e = at_each(c.g, c.fr)
        if e is None:
            n = node_at(c.g, c.fr)
            if isinstance(n, Opt):
                k = simp(lnot(n.cond))
                if k is True or (k is not False and vc_prove(st, k)):
                    c = Cur(c.g, advance(c.g, c.fr)); continue
            return c
        t = c.fr[-1][1]
        k = simp(tz(t) >= tz(e.count))
        if k is True or (k is not False and vc_prove(st, k)):
            nf = advance(c.g, c.fr[:-1])
            c = Cur(c.g, nf)
        else:
            n = e.body(t)
            if isinstance(n, Opt):
                # an absent optional part that certainly belongs to this repetition
                k = simp(lnot(n.cond))
                if k is True or (k is not False and vc_prove(st, k) and vc_prove(st, tz(t) < tz(e.count))):
                    c = Cur(c.g, advance(c.g, c.fr)); continue
            return c
    return c


def vc_prove(st, k):
    import vc
    return vc.prove(st.pc, k)


def next_item(ex, st, c, want_sec=False):
    """-> (item node, frames) of the next thing to produce/consume; may fork. None at the end."""
    fr = c.fr; g = c.g
    while fr is not None:
        e = at_each(g, fr)
        if e is not None:
            if ex.decide(st, tz(fr[-1][1]) < tz(e.count)):
                body = e.body(fr[-1][1])
                fr2 = fr
                n = body
                while isinstance(n, Seq):
                    fr2 = fr2 + (("s", 0),); n = n.ch[0]
                if isinstance(n, Each):
                    fr = fr2 + (("i", 0),); continue
                fr = fr2
                if isinstance(n, (Opt,)) or (isinstance(n, Sec) and not want_sec):
                    pass
                else: return n, fr
            else:
                fr = advance(g, fr[:-1]); continue
        n = node_at(g, fr)
        if isinstance(n, Opt):
            if ex.decide(st, tz(n.cond)): fr = canon(g, fr + (("o",),))
            else: fr = advance(g, fr)
            continue
        if isinstance(n, Sec):
            if want_sec: return n, fr
            fr = canon(g, fr + (("c",),)); continue
        if isinstance(n, Seq): fr = canon(g, fr); continue
        return n, fr
    return None, None


def settle_all(ex, st):
    for n in ex.streams:
        k = (n, ("cur",))
        v = st.mem.get(k)
        if isinstance(v, Cur): st.mem[k] = settle(ex, st, v)


def refine(ex, st, c, like):
    """descend c into repetitions that certainly go on until it has the frames of `like`; None if impossible"""
    while c.fr is not None and like.fr is not None and c.decompose()[0] != like.decompose()[0]:
        if len(c.fr) >= len(like.fr): return None
        e = at_each(c.g, c.fr)
        if e is not None:
            if not vc_prove(st, tz(c.fr[-1][1]) < tz(e.count)): return None
            n = e.body(c.fr[-1][1])
        else: n = node_at(c.g, c.fr)
        if e is not None and not isinstance(n, (Seq, Each)): return None
        if e is None and isinstance(n, Opt):
            if like.fr[len(c.fr)][0] != "o" or not vc_prove(st, n.cond): return None
            c = Cur(c.g, canon(c.g, c.fr + (("o",),)))
        elif e is None and isinstance(n, Sec): c = Cur(c.g, canon(c.g, c.fr + (("c",),)))
        else:
            nf = canon(c.g, c.fr)
            if nf == c.fr:
                if isinstance(n, Each): nf = c.fr + (("i", 0),)
                else: return None
            c = Cur(c.g, nf)
    return c if c.fr is not None and like.fr is not None and c.decompose()[0] == like.decompose()[0] else None
