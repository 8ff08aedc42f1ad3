"""The harness API.  One harness source runs in two modes:

* SymCtx   - inputs are symbolic, check() is a solver obligation;
* ConcCtx  - replay: inputs come from a counterexample file, the real psion
             runs unmodified, check() is an ordinary assertion.
"""
from __future__ import annotations

import datetime as _dt
import hashlib
import hmac as _hmac


class ReplayViolation(Exception):
    pass


class ReplayDiscard(Exception):
    """the replayed input does not satisfy the harness assumptions"""


# ------------------------------------------------------------------ JSON codec
def enc(v):
    if v is None or isinstance(v, (bool, int)):
        return v
    if isinstance(v, float):
        return {"f": v}
    if isinstance(v, str):
        return {"s": v}
    if isinstance(v, (bytes, bytearray)):
        return {"b": bytes(v).hex()}
    if isinstance(v, _dt.datetime):
        off = v.utcoffset()
        us = (v.replace(tzinfo=None) - _dt.datetime(1970, 1, 1)) // _dt.timedelta(microseconds=1)
        return {"dt": us, "off": None if off is None else off // _dt.timedelta(microseconds=1)}
    if isinstance(v, (list, tuple)):
        return {"l": [enc(x) for x in v], "tuple": isinstance(v, tuple)}
    if isinstance(v, dict):
        return {"d": [[enc(k), enc(x)] for k, x in v.items()]}
    raise TypeError(type(v))


def dec(v):
    if not isinstance(v, dict):
        return v
    if "f" in v:
        return v["f"]
    if "s" in v:
        return v["s"]
    if "b" in v:
        return bytes.fromhex(v["b"])
    if "dt" in v:
        d = _dt.datetime(1970, 1, 1) + _dt.timedelta(microseconds=v["dt"])
        if v["off"] is not None:
            d = d.replace(tzinfo=_dt.timezone(_dt.timedelta(microseconds=v["off"])))
        return d
    if "l" in v:
        x = [dec(y) for y in v["l"]]
        return tuple(x) if v.get("tuple") else x
    if "d" in v:
        return {dec(k): dec(x) for k, x in v["d"]}
    raise ValueError(v)


DEFAULT_NOW = 1609459200_000000  # the clock of a harness that does not set one


class Stop(Exception):
    pass


def drive(coro):
    """run a coroutine whose awaits never really suspend"""
    try:
        while True:
            coro.send(None)
    except StopIteration as e:
        return e.value


class Base:
    symbolic = False

    # values -----------------------------------------------------------
    def attempt(self, fn, *a, **k):
        """-> (value, None) or (None, exception)"""
        try:
            return fn(*a, **k), None
        except Exception as e:  # noqa: BLE001 - the point of the call
            return None, e

    def run(self, coro):
        return drive(coro)

    def attempt_run(self, coro):
        try:
            return drive(coro), None
        except Exception as e:  # noqa: BLE001
            return None, e

    @property
    def tier(self):
        return self._tier

    def q(self, quick, thorough):
        """a bound: quick or thorough value"""
        return thorough if self._tier == "thorough" else quick


# ------------------------------------------------------------------ replay mode
class ConcCtx(Base):
    def __init__(self, case):
        self.inp = {k: dec(v) for k, v in case["inputs"].items()}
        self.draws = [(k, dec(v), s) for k, v, s in case.get("draws", [])]
        self._tier = case.get("tier", "quick")
        self.params = case.get("params", {})
        self.covered = set()
        self.insecure_used = False
        self.secure_entropy = 0.0
        self.checks = 0
        self.names = {}
        self.set_now(DEFAULT_NOW)

    def _get(self, name, default):
        n = self.names.get(name, 0)
        self.names[name] = n + 1
        if n:
            name = f"{name}#{n}"
        return self.inp.get(name, default)

    def str(self, name, max, min=0, ranges=None):
        return self._get(name, "a" * min)

    def bytes(self, name, max, min=0):
        return self._get(name, b"\0" * min)

    def int(self, name, lo, hi):
        return self._get(name, lo)

    def bool(self, name):
        return self._get(name, False)

    def choice(self, name, options):
        options = list(options)
        return options[self._get(name, 0)]

    def datetime(self, name, lo=0, hi=1 << 33):
        return self._get(name, _dt.datetime(1970, 1, 1))

    def instant(self, name, lo=0, hi=1 << 33):
        return self._get(name, lo * 10**6)

    def form(self, name, fields):
        """fields: [(key, value)] -> the ones present"""
        return [(k, v) for i, (k, v) in enumerate(fields) if self._get(f"{name}.has.{k}.{i}", False)]

    def form_all(self, fields):
        return [(k, v) for k, v in fields]

    def has(self, entries, key):
        """is some entry of that name present?"""
        return any(k == key for k, v in entries)

    def body(self, pairs):
        from urllib.parse import urlencode
        return urlencode(pairs).encode("ascii")

    def url(self, base, pairs):
        from urllib.parse import urlencode
        return base + ("?" + urlencode(pairs) if pairs else "")

    def assume(self, cond):
        if not cond:
            raise ReplayDiscard

    def check(self, cond, msg, known=None):
        self.checks += 1
        if not cond:
            raise ReplayViolation(msg)

    def cover(self, label, cond=True):
        if cond:
            self.covered.add(label)

    def and_(self, *xs):
        return all(bool(x) for x in xs)

    def or_(self, *xs):
        return any(bool(x) for x in xs)

    def not_(self, x):
        return not x

    def implies(self, a, b):
        return (not a) or bool(b)

    def iff(self, a, b):
        return bool(a) == bool(b)

    def eq(self, a, b):
        return a == b

    def ite(self, c, a, b):
        return a if c else b

    def isin(self, x, xs):
        return any(x == y for y in xs)

    def only(self, text, ranges):
        """every character (octet) of text lies in one of the code ranges"""
        return all(any(a <= (ord(x) if isinstance(x, str) else x) <= b for a, b in ranges) for x in text)

    # environment
    def set_now(self, us):
        """fix the clock at `us` microseconds since the epoch"""
        from . import replay_env
        replay_env.set_now(us)

    def set_tz(self, minutes):
        from . import replay_env
        replay_env.set_tz(minutes)

    def sha(self, alg, data):
        return hashlib.new(alg, data).digest()

    def hmac(self, alg, key, data):
        return _hmac.new(key, data, alg).digest()

    def ec_shapes(self):
        """explore ECDSA signatures with leading zero octets as well"""

    def generating(self, *keys):
        """the asymmetric keys generated next are these"""
        from . import line
        line.patch()
        line.put(keys)

    def restart(self):
        """psion is loaded anew: what it kept in modules and classes is gone"""
        import sys
        for n in [n for n in sys.modules if n.split(".")[0] == "psion"]:
            del sys.modules[n]

    def aside(self, key, fn):
        """what fn gives in a psion loaded anew, before and after"""
        from . import replay_env
        kept, replay_env._queue = replay_env._queue, []
        self.restart()
        try:
            return fn()
        finally:
            self.restart()
            replay_env._queue = kept

    def secure_random(self):
        from . import replay_env
        return replay_env.secure_entropy(), replay_env.insecure_used()

    def unpredictable(self, make):
        """-> the values made, and the unpredictable bits of each for who knows
        the others (here estimated from many runs)"""
        import math
        first = make()
        runs = [make() for _ in range(500)]
        out = []
        for i in range(len(first)):
            n = 0.0
            for j in range(len(first[i])):
                seen = {r[i][j] for r in runs if j < len(r[i])}
                if any(all(j < len(r[i]) and j < len(r[h]) and r[i][j] == r[h][j] for r in runs) for h in range(len(first)) if h != i):
                    continue
                if any(all(r[i][j:j + 1] == r[i][h:h + 1] for r in runs) for h in range(j)):
                    continue
                n += math.log2(max(1, len(seen)))
            out.append(n)
        return first, out


# ------------------------------------------------------------------ symbolic mode
class SymCtx(Base):
    symbolic = True

    def __init__(self, engine, goal, tier, params, on_violation, skip_known=None):
        self.e = engine
        self.goal, self._tier, self.params = goal, tier, params
        self.on_violation = on_violation
        self.names = {}
        self.reset()

    def reset(self):
        self.names = {}
        self.e.clock = lambda: DEFAULT_NOW

    def _name(self, name):
        n = self.names.get(name, 0)
        self.names[name] = n + 1
        return f"{name}#{n}" if n else name

    def _input(self, name, value):
        self.e.inputs.append((name, value))
        return value

    def str(self, name, max, min=0, ranges=None):
        import z3
        from . import values as V
        name = self._name(name)
        dom = ranges or ((0, 0xD7FF), (0xE000, 0x10FFFF))
        chars = tuple(z3.BitVec(f"{name}[{i}]", V.CW) for i in range(max))
        for c in chars:
            self.e.assume(V.zbool(V.mkbool(V.in_ranges(c, dom, V.CW))))
            if ranges and sum(b - a + 1 for a, b in ranges) <= 256:
                V.set_charset(c, [x for a, b in ranges for x in range(a, b + 1)])
        return self._input(name, self._seq(V.SymStr, name, chars, min, max))

    def _seq(self, cls, name, chars, lo, hi):
        import z3
        from . import values as V
        if lo == hi:
            return cls(chars) if hi else cls.native(())
        nz = z3.BitVec(f"{name}.len", V.LW)
        self.e.assume(z3.And(z3.UGE(nz, lo), z3.ULE(nz, hi)))
        return cls(chars, nz)

    def bytes(self, name, max, min=0):
        import z3
        from . import values as V
        name = self._name(name)
        chars = tuple(z3.BitVec(f"{name}[{i}]", 8) for i in range(max))
        return self._input(name, self._seq(V.SymBytes, name, chars, min, max))

    def int(self, name, lo, hi):
        import z3
        from . import values as V
        name = self._name(name)
        w = 1 + max(lo.bit_length(), hi.bit_length())
        z = z3.BitVec(name, w)
        self.e.assume(z3.And(z >= z3.BitVecVal(lo, w), z <= z3.BitVecVal(hi, w)))
        return self._input(name, V.SymInt(z))

    def bool(self, name):
        import z3
        from . import values as V
        name = self._name(name)
        return self._input(name, V.SymBool(z3.Bool(name)))

    def choice(self, name, options):
        import z3
        options = list(options)
        name = self._name(name)
        n = len(options)
        if n == 1:
            self.e.inputs.append((name, 0))
            return options[0]
        w = max(1, (n - 1).bit_length())
        z = z3.BitVec(name, w)
        if n < 1 << w:
            self.e.assume(z3.ULT(z, n))
        i = self.e.choose(z)
        self.e.inputs.append((name, i))
        return options[i]

    def datetime(self, name, lo=0, hi=1 << 33):
        """naive datetime, microsecond resolution, lo..hi seconds since 1970"""
        from . import values as V
        n2 = self._name(name)
        return self._input(n2, V.SymDatetime(self._instant(n2, lo, hi), None))

    def instant(self, name, lo=0, hi=1 << 33):
        """microseconds since the epoch, lo..hi seconds (hi excluded)"""
        name = self._name(name)
        return self._input(name, self._instant(name, lo, hi))

    def _instant(self, name, lo, hi):
        import z3
        from . import values as V
        w = 1 + max(lo.bit_length(), hi.bit_length())
        s, f = z3.BitVec(name + ".s", w), z3.BitVec(name + ".us", 21)
        self.e.assume(z3.And(s >= lo, s < hi, f >= 0, f < 10**6))
        return V.micro(V.SymInt(s), V.SymInt(f))

    def form(self, name, fields):
        import z3
        from . import values as V
        out = []
        for i, (k, v) in enumerate(fields):
            n = self._name(f"{name}.has.{k}.{i}")
            b = z3.Bool(n)
            self._input(n, V.SymBool(b))
            out.append((b, k, v))
        return out

    def form_all(self, fields):
        return [(True, k, v) for k, v in fields]

    def has(self, entries, key):
        from . import values as V
        return V.mkbool(V.z_or(*[b for b, k, v in entries if k == key]))

    def body(self, entries):
        from . import models
        return models.make_form_bytes(list(entries))

    def url(self, base, entries):
        from . import models
        return models.make_url(base, list(entries))

    # logic
    def _z(self, x):
        from . import values as V
        return V.zraw(x) if not isinstance(x, (list, dict, tuple)) else bool(x)

    def and_(self, *xs):
        from . import values as V
        return V.mkbool(V.z_and(*[self._z(x) for x in xs]))

    def or_(self, *xs):
        from . import values as V
        return V.mkbool(V.z_or(*[self._z(x) for x in xs]))

    def not_(self, x):
        from . import values as V
        return V.mkbool(V.z_not(self._z(x)))

    def implies(self, a, b):
        return self.or_(self.not_(a), b)

    def iff(self, a, b):
        from . import values as V
        a, b = self._z(a), self._z(b)
        if a is True or a is False:
            a, b = b, a
        if b is True:
            return V.mkbool(a)
        if b is False:
            return V.mkbool(V.z_not(a))
        return V.mkbool(a == b)

    def eq(self, a, b):
        from . import values as V
        return V.mkbool(V.same(a, b))

    def ite(self, c, a, b):
        return a if c else b

    def isin(self, x, xs):
        return self.or_(*[self.eq(x, y) for y in xs])

    def only(self, text, ranges):
        from . import values as V
        w = 8 if V.kind_of(text) == "b" else V.CW
        out = [z for z in (V.in_ranges(ch, tuple(ranges), w) for ch in V.chars_of(text)) if z is not True]
        return V.mkbool(V.z_and(*out))

    def assume(self, cond):
        from . import values as V
        self.e.assume(V.zbool(cond))

    def check(self, cond, msg, known=None):
        """obligation: cond holds for every value on this path"""
        import z3
        from . import values as V
        e = self.e
        if e.aborting:
            from .core import PathAbort
            raise PathAbort
        if isinstance(cond, bool) and not V.isinstance_sym(cond):
            z = z3.BoolVal(cond)
        else:
            z = z3.simplify(V.zbool(cond))
        if e.pos < len(e.stack):
            return  # discharged on an earlier run with this very prefix
        e.obligations += 1
        if z3.is_true(z):
            e.trivial += 1
            e.discharged += 1
            return
        r = e.check(z3.Not(z))
        if r == z3.unsat:
            e.discharged += 1
            return
        if r == z3.unknown:
            e.note_incomplete("solver unknown on an obligation")
            return
        self.on_violation(self, z3.Not(z), msg, known)

    def cover(self, label, cond=True):
        import z3
        from . import values as V
        e = self.e
        if label in e.covers:
            e.covers[label] += 1
            return
        if cond is False:
            return
        if cond is not True:
            if e.check(V.zbool(cond)) != z3.sat:
                return
        elif e.ensure_model() is None:
            return
        e.covers[label] = 1

    # environment
    def set_now(self, us):
        self.e.clock = lambda: us

    def set_tz(self, minutes):
        self.e.memo["tz"] = minutes * 60 * 10**6

    def sha(self, alg, data):
        from . import models
        return models.digest(alg, data)

    def hmac(self, alg, key, data):
        from . import models
        return models.mac(alg, key, data)

    def ec_shapes(self):
        self.e.memo["ec_shapes"] = True

    def aside(self, key, fn):
        from . import core, values as V
        memo = self.e.asides
        if key not in memo:
            # on an engine of its own, once for all paths; only if nothing there
            # is symbolic or branches
            outer, kept = self.e, (self.names, core.CURRENT)
            self.e = core.CURRENT = core.Engine(deadline=outer.deadline)
            self.names = {}
            self.e.clock = outer.clock
            self.restart()
            try:
                out = fn()
                plain = not V.deep_sym(out, 12) and not any(x.kind == "v" or x.kind == "d" and x.alt for x in self.e.stack)
            finally:
                outer.functions |= self.e.functions
                outer.queries += self.e.queries
                outer.solver_s += self.e.solver_s
                self.e, (self.names, core.CURRENT) = outer, kept
            memo[key] = (plain, out)
            self.restart()
        if memo[key][0]:
            return memo[key][1]
        self.restart()
        out = fn()
        self.restart()
        return out

    def generating(self, *keys):
        from . import line
        line.put(keys)

    def restart(self):
        from . import instrument
        instrument.purge()

    def unpredictable(self, make):
        from . import entropy
        values = make()
        return values, [entropy.bits(self.e, v, values[:i] + values[i + 1:]) for i, v in enumerate(values)]

    def secure_random(self):
        ent = sum(d[3] for d in self.e.draws if d[2] == "secure")
        return ent, any(d[2] == "insecure" for d in self.e.draws)


def extract_case(ctx, negated, tries=6):
    """concrete inputs of a counterexample, with every uninterpreted function
    pinned to its real value; None when no model survives pinning"""
    import z3
    from . import values as V
    from .models import cat
    e = ctx.e
    s = e.solver
    s.push()
    try:
        s.add(negated)
        blocked = 0
        while blocked < tries:
            s.push()
            ok = True
            if e.check() != z3.sat:
                s.pop()
                return None
            model = s.model()
            for app, real, args, outlen in e.uf_apps:
                vals = [V.evaluate(a, model) for a in args]
                out = real(*vals)
                pins = [cat(a) == z3.BitVecVal(int.from_bytes(v, "big"), 8 * len(v)) for a, v in zip(args, vals) if len(v)]
                if outlen == "bool":
                    pins.append(app == z3.BoolVal(out))
                else:
                    pins.append(app == z3.BitVecVal(int.from_bytes(out, "big"), 8 * outlen))
                s.add(*pins)
                if e.check() != z3.sat:
                    ok = False
                    break
                model = s.model()
            if ok:
                case = {"inputs": {}, "draws": []}
                for n, v in e.inputs:
                    case["inputs"][n] = enc(V.evaluate(v, model))
                for kind, v, src, _ in e.draws:
                    case["draws"].append([kind, enc(V.evaluate(v, model)), src])
                s.pop()
                return case
            s.pop()
            blocked += 1
            # move away from this choice of hashed inputs
            diff = []
            for app, real, args, outlen in e.uf_apps:
                for a in args:
                    v = V.evaluate(a, model)
                    if len(v):
                        diff.append(cat(a) != z3.BitVecVal(int.from_bytes(v, "big"), 8 * len(v)))
            if not diff:
                return None
            s.add(z3.Or(*diff))
        return None
    finally:
        s.pop()
