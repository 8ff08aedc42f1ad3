"""Asymmetric keys to be "generated" next, put in line by a harness: the random
source giving those very keys is one of the things that can happen."""
_line = []


def put(keys):
    _line[:] = list(keys)


def take(a, k):
    """the next key in line, if it is of the curve or size asked for"""
    if not _line:
        return None
    key = _line[0]
    if hasattr(key, "curve"):
        curve = a[0] if a else k.get("curve")
        ok = getattr(curve, "name", None) == key.curve.name
    else:
        exponent = a[0] if a else k.get("public_exponent")
        size = a[1] if len(a) > 1 else k.get("key_size")
        ok = (exponent, size) == (key.public_key().public_numbers().e, key.key_size)
    return _line.pop(0) if ok else None


def patch():
    """the same for replays, on the real library"""
    from cryptography.hazmat.primitives.asymmetric import ec, rsa
    for mod in (ec, rsa):
        real = mod.generate_private_key
        if getattr(real, "in_line", False):
            continue

        def f(*a, real=real, **k):
            given = take(a, k)
            return real(*a, **k) if given is None else given
        f.in_line = True
        mod.generate_private_key = f
