"""Models of the cryptography package at its public interface.

HMAC is an uninterpreted function (psym.models.mac).  Asymmetric keys are real
key objects; signing symbolic data yields an uninterpreted signature for which
the verification predicate of the very same scheme is true; verification is an
uninterpreted predicate per (key, scheme).  Concrete applications are computed
for real, and a counterexample pins every application to its real value.

ECDSA signatures are pairs (r, s) with at most one leading zero octet each."""
from __future__ import annotations

import z3
from cryptography.exceptions import AlreadyFinalized, InvalidSignature
from cryptography.hazmat.backends import default_backend
from cryptography.hazmat.primitives import constant_time, hashes
from cryptography.hazmat.primitives import hmac as chmac
from cryptography.hazmat.primitives.asymmetric import padding as cpad
from cryptography.hazmat.primitives.asymmetric import utils as cutils

from . import models as M
from .values import SymBytes, SymInt, chars_of, decide, eng, isinstance_sym, kind_of, mkseq

_real_enc, _real_dec = cutils.encode_dss_signature, cutils.decode_dss_signature
_HASHES = {"sha224", "sha256", "sha384", "sha512", "sha1", "md5"}


def need_bytes(name, v):
    if kind_of(v) != "b":
        raise TypeError(f"{name} must be bytes")


class SymHMAC:
    def __init__(self, key, algorithm, backend=None, ctx=None):
        if not isinstance(algorithm, hashes.HashAlgorithm):
            raise TypeError("Expected instance of hashes.HashAlgorithm.")
        need_bytes("key", key)
        self.algorithm, self.key, self.buf, self.done = algorithm, key, b"", False

    def _live(self):
        if self.done:
            raise AlreadyFinalized("Context was already finalized.")

    def update(self, data):
        self._live()
        need_bytes("data", data)
        self.buf = self.buf + data

    def copy(self):
        self._live()
        r = SymHMAC(self.key, self.algorithm)
        r.buf = self.buf
        return r

    def finalize(self):
        self._live()
        self.done = True
        return M.mac(self.algorithm.name, self.key, self.buf)

    def verify(self, signature):
        need_bytes("signature", signature)
        tag = self.finalize()
        if not bool(tag == signature):
            raise InvalidSignature("Signature did not match digest.")


class SymChash:
    def __init__(self, algorithm, backend=None, ctx=None):
        if not isinstance(algorithm, hashes.HashAlgorithm):
            raise TypeError("Expected instance of hashes.HashAlgorithm.")
        self.algorithm, self.buf, self.done = algorithm, b"", False

    def update(self, data):
        if self.done:
            raise AlreadyFinalized("Context was already finalized.")
        need_bytes("data", data)
        self.buf = self.buf + data

    def finalize(self):
        if self.done:
            raise AlreadyFinalized("Context was already finalized.")
        self.done = True
        return M.digest(self.algorithm.name, self.buf)


def m_bytes_eq(a, b):
    if kind_of(a) != "b" or kind_of(b) != "b":
        raise TypeError("a and b must be bytes.")
    return a == b


# ------------------------------------------------------------------ signatures
def uf_bool(name, real, args):
    e = eng()
    lens = tuple(len(chars_of(a)) for a in args)
    if all(type(c) is int for a in args for c in chars_of(a)):
        return real(*[bytes(chars_of(a)) for a in args])
    doms = [z3.BitVecSort(8 * n) for n in lens if n]
    f = z3.Function(name + "_" + "_".join(map(str, lens)), *doms, z3.BoolSort())
    app = f(*[M.cat(a) for a in args if len(chars_of(a))])
    key = ("ufb", app.get_id())
    if key not in e.memo:
        e.memo[key] = app
        e.uf_apps.append((app, real, list(args), "bool"))
    return app


def key_id(key):
    k = key.public_key() if hasattr(key, "private_numbers") else key
    n = k.public_numbers()
    return f"{n.n}.{n.e}" if hasattr(n, "n") else f"{n.curve.name}.{n.x}.{n.y}"


_kid = {}


def short(key):
    return "k%d" % _kid.setdefault(key_id(key), len(_kid))


def pad_name(key, pad, alg):
    if isinstance(pad, cpad.PKCS1v15):
        return "pkcs1"
    if isinstance(pad, cpad.PSS):
        salt = pad._salt_length
        if salt is cpad.PSS.MAX_LENGTH:
            salt = cpad.calculate_max_pss_salt_length(key, alg)
        return f"pss.{pad._mgf._algorithm.name}.{salt}"
    return None


def _memo(real):
    seen = {}

    def f(*a):
        if a not in seen:
            seen[a] = real(*a)
        return seen[a]
    return f


def _ok(fn, *a):
    try:
        fn(*a)
        return True
    except InvalidSignature:
        return False


_real = {}
_stable = {}


def stable(cls, key, *a):
    """a real (randomised) signature, the same one in every re-execution"""
    k = (cls, key_id(key), a[0], repr([getattr(x, "name", None) or vars(x).get("_salt_length", x.__class__) for x in a[1:]]), repr([getattr(getattr(x, "algorithm", None), "name", 0) for x in a[1:]]))
    if k not in _stable:
        _stable[k] = _real[cls](key, *a)
    return _stable[k]


def rsa_sign(key, data, pad, alg):
    pn = pad_name(key, pad, alg)
    if not isinstance_sym(data) or pn is None or not isinstance(alg, hashes.HashAlgorithm):
        return stable("_RSAPrivateKey", key, data, pad, alg)
    n = (key.key_size + 7) // 8
    scheme = f"{short(key)}.{pn}.{alg.name}"
    sig = M.uf_bytes("S" + scheme, _memo(lambda d: _real["_RSAPrivateKey"](key, d, pad, alg)), [data], n)
    pub = key.public_key()
    eng().assume(uf_bool("V" + scheme, lambda s, d: _ok(_real["_RSAPublicKey"], pub, s, d, pad, alg), [sig, data]))
    return sig


def rsa_verify(key, signature, data, pad, alg):
    pn = pad_name(key, pad, alg)
    if not (isinstance_sym(data) or isinstance_sym(signature)) or pn is None:
        return _real["_RSAPublicKey"](key, signature, data, pad, alg)
    need_bytes("signature", signature)
    need_bytes("data", data)
    if len(signature) != (key.key_size + 7) // 8:
        raise InvalidSignature
    scheme = f"{short(key)}.{pn}.{alg.name}"
    v = uf_bool("V" + scheme, lambda s, d: _ok(_real["_RSAPublicKey"], key, s, d, pad, alg), [signature, data])
    if not (v if isinstance(v, bool) else decide(v)):
        raise InvalidSignature


def dss(r, s):
    """a DER signature whose bytes are only built when looked at"""
    if not isinstance_sym(r) and not isinstance_sym(s):
        return _real_enc(r, s)

    def der_int(v):
        n = (v.bit_length() // 8) + 1
        b = v.to_bytes(n, "big")
        return M.ps_call(bytes, [2, n]) + b

    def thunk():
        body = der_int(r) + der_int(s)
        n = len(body)
        head = bytes([0x30, n]) if n < 128 else bytes([0x30, 0x81, n])
        return chars_of(head + body)
    return SymBytes(None, thunk=thunk, meta=("dss", (r, s)))


def m_enc_dss(r, s):
    if not isinstance(r, (int, SymInt)) or not isinstance(s, (int, SymInt)):
        raise ValueError("Both r and s must be integers")
    return dss(r, s)


def meta_dss(sig):
    m = getattr(sig, "meta", None)
    return m[1] if m and m[0] == "dss" else None


def m_dec_dss(sig):
    m = meta_dss(sig)
    if m is not None:
        return m
    if isinstance_sym(sig):
        sig = M.concretise(sig, "decode_dss_signature on enumerated values")
    return _real_dec(sig)


def ec_size(key):
    return (key.curve.key_size + 7) // 8


def ec_real_verify(pub, sa):
    n = ec_size(pub)

    def f(rs, d):
        r, s = int.from_bytes(rs[:n], "big"), int.from_bytes(rs[n:], "big")
        return _ok(_real["_EllipticCurvePublicKey"], pub, _real_enc(r, s), d, sa)
    return f


def ec_sign(key, data, sa):
    if not isinstance_sym(data):
        return stable("_EllipticCurvePrivateKey", key, data, sa)
    n = ec_size(key)
    scheme = f"{short(key)}.ecdsa.{sa.algorithm.name}"
    e = eng()
    no = sum(1 for d in e.draws if d[0] == "ecsig")
    # does r (or s) start with a zero octet?  A real outcome either way.
    lead = [decide(z3.Bool(f"ecsig{no}.lead{w}")) for w in ("r", "s")] if e.memo.get("ec_shapes") else [False, False]

    def real(d):
        for _ in range(200000):
            r, s = _real_dec(_real["_EllipticCurvePrivateKey"](key, d, sa))
            if [x < 1 << 8 * (n - 1) for x in (r, s)] == lead:
                return r.to_bytes(n, "big") + s.to_bytes(n, "big")
        raise AssertionError("no signature of that shape")
    sig = M.uf_bytes(f"S{scheme}.{no}", _memo(real), [data], 2 * n)
    cs = chars_of(sig)
    for i, z in ((0, lead[0]), (n, lead[1])):
        e.assume(cs[i] == 0 if z else cs[i] != 0)
        if z:
            e.assume(cs[i + 1] != 0)
    pub = key.public_key()
    e.assume(uf_bool("V" + scheme, ec_real_verify(pub, sa), [sig, data]))
    r, s = M.MODELS[int.from_bytes](mkseq(SymBytes, cs[:n])), M.MODELS[int.from_bytes](mkseq(SymBytes, cs[n:]))
    out = dss(r, s)
    e.draws.append(("ecsig", sig, "secure", 0.0))
    return out


def ec_verify(key, signature, data, sa):
    if not (isinstance_sym(data) or isinstance_sym(signature)):
        return _real["_EllipticCurvePublicKey"](key, signature, data, sa)
    need_bytes("signature", signature)
    need_bytes("data", data)
    m = meta_dss(signature)
    scheme = f"{short(key)}.ecdsa.{sa.algorithm.name}"
    if m is None and not isinstance_sym(signature):
        try:
            m = _real_dec(signature)
        except Exception:  # noqa: BLE001 - not DER
            raise InvalidSignature
    if m is None:
        v = uf_bool("VDER" + scheme, lambda s, d: _ok(_real["_EllipticCurvePublicKey"], key, s, d, sa), [signature, data])
    else:
        n = ec_size(key)
        r, s = m
        for x in (r, s):
            if not bool(x < 1 << 8 * n) or not bool(x >= 0):
                raise InvalidSignature
        rs = r.to_bytes(n, "big") + s.to_bytes(n, "big")
        v = uf_bool("V" + scheme, ec_real_verify(key, sa), [rs, data])
    if not (v if isinstance(v, bool) else decide(v)):
        raise InvalidSignature


def _generated(real):
    """key generation: the keys the harness put in line where they are what is
    asked for, otherwise one made once per run"""
    made = {}

    def f(*a, **k):
        from . import line
        given = line.take(a, k)
        if given is not None:
            return given
        key = repr([x if isinstance(x, int) else getattr(x, "name", None) for x in a]) + repr([(n, getattr(v, "name", v) if not n == "backend" else 0) for n, v in sorted(k.items())])
        if key not in made:
            made[key] = real(*a, **k)
        return made[key]
    return f


def install():
    from cryptography.hazmat.primitives.asymmetric import ec as cec, rsa as crsa
    M.MODELS[crsa.generate_private_key] = _generated(crsa.generate_private_key)
    M.MODELS[cec.generate_private_key] = _generated(cec.generate_private_key)
    from cryptography.hazmat.backends.openssl import ec as oec, rsa as orsa
    be = default_backend()
    del be
    for cls, mod, meth, model in (
        ("_RSAPrivateKey", orsa, "sign", rsa_sign), ("_RSAPublicKey", orsa, "verify", rsa_verify),
        ("_EllipticCurvePrivateKey", oec, "sign", ec_sign), ("_EllipticCurvePublicKey", oec, "verify", ec_verify)):
        _real[cls] = getattr(getattr(mod, cls), meth)
        M.METHODS[(cls, meth)] = model
    M.MODELS[chmac.HMAC] = SymHMAC
    M.MODELS[hashes.Hash] = SymChash
    M.MODELS[constant_time.bytes_eq] = m_bytes_eq
    M.MODELS[cutils.encode_dss_signature] = m_enc_dss
    M.MODELS[cutils.decode_dss_signature] = m_dec_dss
