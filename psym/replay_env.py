"""Environment stand-ins for replay: clock, time zone and randomness.  They are
installed before psion is imported; psion itself is not touched."""
import datetime as _d
import math
import os
import random
import secrets
import time

_real_dt = _d.datetime
_now = None
_queue = []
_secure = 0.0
_insecure = False
_real_time = time.time


class _Meta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, _real_dt)

    def __subclasscheck__(cls, c):
        return issubclass(c, _real_dt)


class FakeDatetime(_real_dt, metaclass=_Meta):
    @classmethod
    def utcnow(cls):
        if _now is None:
            return _real_dt.utcnow()
        return _real_dt(1970, 1, 1) + _d.timedelta(microseconds=_now)

    @classmethod
    def now(cls, tz=None):
        if _now is None:
            return _real_dt.now(tz)
        u = (_real_dt(1970, 1, 1) + _d.timedelta(microseconds=_now)).replace(tzinfo=_d.timezone.utc)
        if tz is None:
            return u.astimezone().replace(tzinfo=None)
        return u.astimezone(tz)

    @classmethod
    def today(cls):
        return cls.now()


def set_now(us):
    global _now
    _now = us


def set_tz(minutes):
    m = abs(minutes)
    os.environ["TZ"] = "<PSYM>%s%02d:%02d" % ("-" if minutes > 0 else "+", m // 60, m % 60)
    time.tzset()


def _take(kind):
    if _queue and _queue[0][0] == kind:
        return _queue.pop(0)[1]
    return None


def secure_entropy():
    return _secure


def insecure_used():
    return _insecure


def install(draws):
    global _queue
    _queue = list(draws)
    _d.datetime = FakeDatetime
    time.time = lambda: _real_time() if _now is None else _now / 1e6
    time.time_ns = lambda: int(_real_time() * 1e9) if _now is None else _now * 1000

    def wrap(real, kind, bits, secure):
        def f(*a, **k):
            global _secure, _insecure
            if secure:
                _secure += bits(*a, **k)
            else:
                _insecure = True
            v = _take(kind)
            return real(*a, **k) if v is None else v
        return f

    secrets.choice = wrap(secrets.choice, "choice", lambda s: math.log2(max(1, len(s))), True)
    tb = wrap(secrets.token_bytes, "bytes", lambda n=None: 8.0 * (32 if n is None else n), True)
    secrets.token_bytes = tb
    secrets.token_hex = lambda n=None: tb(n).hex()

    def turl(n=None):
        import base64
        return base64.urlsafe_b64encode(tb(n)).rstrip(b"=").decode("ascii")
    secrets.token_urlsafe = turl
    secrets.randbelow = wrap(secrets.randbelow, "below", lambda n: math.log2(n), True)
    secrets.randbits = wrap(secrets.randbits, "bits", lambda n: float(n), True)
    os_urandom = os.urandom
    os.urandom = wrap(os_urandom, "bytes", lambda n: 8.0 * n, True)
    for n, kind in (("choice", "choice"), ("randrange", "below"), ("randint", "below"), ("getrandbits", "bits"), ("choices", "choices"), ("sample", "sample"), ("randbytes", "bytes"), ("random", "random")):
        setattr(random, n, wrap(getattr(random, n), kind, lambda *a, **k: 0.0, False))

    if any(d[0] == "ecsig" for d in draws):
        from cryptography.hazmat.backends.openssl import ec as oec
        from cryptography.hazmat.primitives.asymmetric.utils import encode_dss_signature
        real = oec._EllipticCurvePrivateKey.sign

        def sign(self, data, alg):
            v = _take("ecsig")
            if v is not None:
                n = len(v) // 2
                der = encode_dss_signature(int.from_bytes(v[:n], "big"), int.from_bytes(v[n:], "big"))
                try:
                    self.public_key().verify(der, data, alg)
                    return der
                except Exception:  # noqa: BLE001 - not a signature of this data
                    pass
            return real(self, data, alg)
        oec._EllipticCurvePrivateKey.sign = sign
