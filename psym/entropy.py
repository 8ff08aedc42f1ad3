"""How many unpredictable bits a value has, decided over its terms.

The value is a function of the random draws (fresh variables named rnd!n).  Its
characters and the draws they depend on fall into independent components; in
each the solver decides which draws matter and whether the characters determine
them (two different outcomes of the draws never give the same characters).  If
they do, the component is worth the entropy of those draws; otherwise its
distinct values are counted, up to a limit."""
import math
import time

import z3

from . import values as V

LIMIT = 600


CACHE = {}


def variables(term):
    """the uninterpreted constants of a term"""
    if term.get_id() not in CACHE:
        # (the term is kept, and with it its number)
        CACHE[term.get_id()] = (term, _variables(term))
    return CACHE[term.get_id()][1]


def _variables(term):
    out, todo, seen = {}, [term], set()
    while todo:
        t = todo.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out[t.decl().name()] = t
        todo.extend(t.children())
    return out


def is_random(name):
    return name.startswith("rnd!")


def components(terms):
    """[(terms, variables)] that share no random draw"""
    groups = []
    for t in terms:
        vs = {n: v for n, v in variables(t).items() if is_random(n)}
        if not vs:
            continue
        ts = [t]
        rest = []
        for g in groups:
            if vs.keys() & g[1].keys():
                ts = g[0] + ts
                vs = {**g[1], **vs}
            else:
                rest.append(g)
        groups = rest + [(ts, vs)]
    return groups


def bits(engine, value, known=()):
    """a bound on the unpredictable bits of value for who has the known ones"""
    taken = set()
    for k in known:
        for c in V.chars_of(k):
            if type(c) is not int:
                taken |= variables(c).keys()
    terms = [z3.simplify(c) for c in V.chars_of(value) if type(c) is not int]
    total, assumed = 0.0, assumptions(engine)
    for ts, vs in components(terms):
        total += component(engine, assumed, ts, {n: v for n, v in vs.items() if n not in taken})
    return total


def assumptions(engine):
    """what is assumed, by a name it mentions"""
    out = {}
    for e in engine.stack:
        if e.kind == "a":
            for n in variables(e.cond):
                out.setdefault(n, []).append(e.cond)
    return out


def domain(assumed, vs):
    """what is assumed about these draws alone"""
    out = {a.get_id(): a for n in vs for a in assumed.get(n, ()) if variables(a).keys() <= vs.keys()}
    return list(out.values())


KNOWN = {}


def component(engine, assumed, terms, vs):
    """components alike but for the names of their draws are decided once"""
    sizes = engine.memo.get("rndbits", {})
    assumed = domain(assumed, vs)
    names = sorted(vs, key=lambda n: int(n.split("!")[1]))
    plain = {n: z3.Const(f"rnd!p{i}", vs[n].sort()) for i, n in enumerate(names)}
    subst = [(vs[n], plain[n]) for n in names]
    terms, assumed = [z3.substitute(t, *subst) for t in terms], [z3.substitute(a, *subst) for a in assumed]
    sizes = {plain[n].decl().name(): sizes[n] for n in names if n in sizes}
    key = (*[t.get_id() for t in terms], None, *sorted(a.get_id() for a in assumed), None, *sorted(sizes.items()))
    if key not in KNOWN:
        KNOWN[key] = (decided(engine, sizes, assumed, terms, {p.decl().name(): p for p in plain.values()}), terms, assumed)
    return KNOWN[key][0]


def decided(engine, sizes, assumed, terms, vs):
    s = z3.Solver()
    s.set("timeout", 20000)

    def check(*x):
        engine.queries += 1
        t = time.perf_counter()
        try:
            return s.check(*x)
        finally:
            engine.solver_s += time.perf_counter() - t
    s.add(*assumed)
    primed = {n: z3.Const(n + "'", v.sort()) for n, v in vs.items()}
    subst = [(v, primed[n]) for n, v in vs.items()]
    s.add(*[z3.substitute(a, *subst) for a in assumed])
    others = [z3.substitute(t, *subst) for t in terms]
    differ = z3.Or(*[a != b for a, b in zip(terms, others)])
    same = {n: v == primed[n] for n, v in vs.items()}
    worth, loose, fixed = 0.0, [], []
    for n, v in vs.items():
        rest = [same[m] for m in vs if m != n]
        w = v.size()
        if sizes.get(n, (0, 0))[1] != 2 ** w:
            # a choice among some values: all of it or nothing
            if check(differ, *rest) == z3.unsat:
                fixed.append(same[n])
            else:
                worth += sizes[n][0] if n in sizes else float(w)
                loose.append(same[n])
            continue
        for i in range(w):
            one, two = z3.Extract(i, i, v), z3.Extract(i, i, primed[n])
            equal = [z3.Extract(j, j, v) == z3.Extract(j, j, primed[n]) for j in range(w) if j != i]
            if check(differ, *rest, *equal) == z3.unsat:
                fixed.append(one == two)
            else:
                worth += 1
                loose.append(one == two)
    if not loose:
        return 0.0
    if check(z3.Not(differ), z3.Not(z3.And(*loose)), *fixed) == z3.unsat:
        return worth
    # several outcomes give the same characters: count what they give
    s.push()
    n = 0
    while n < LIMIT and check() == z3.sat:
        m = s.model()
        n += 1
        s.add(z3.Or(*[t != m.eval(t, model_completion=True) for t in terms]))
    s.pop()
    if n >= LIMIT:
        engine.note_incomplete("outcomes of a random draw not all counted")
        return worth
    return min(worth, math.log2(n)) if n else 0.0
