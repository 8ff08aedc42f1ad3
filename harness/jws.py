"""JSON Web Signature: what is accepted, with which key, under which algorithm.

The oracle is written against RFC 7515/7518 with the cryptography package and
does not call psion."""
import base64
import json

from harness.world import long, near, odd

ALGS = ["none", "HS256", "HS384", "HS512", "RS256", "RS384", "RS512", "ES256", "ES384", "ES512", "PS256", "PS384", "PS512"]
CURVE = {"ES256": "p256", "ES384": "p384", "ES512": "p521"}
SECRET = b"0123456789abcdef0123456789abcdef"


def b64(raw):
    return base64.urlsafe_b64encode(raw).rstrip(b"=")


def key_name(alg):
    if alg in CURVE:
        return CURVE[alg]
    return "oct" if alg[:2] in ("HS", "no") else "rsa"


_pem = {}


def keypair(name):
    from cryptography.hazmat.backends import default_backend
    from cryptography.hazmat.primitives import serialization
    from harness.keys import PEM
    if name not in _pem:
        priv, pub = PEM[name]
        _pem[name] = (serialization.load_pem_private_key(priv, None, default_backend()), serialization.load_pem_public_key(pub, default_backend()))
    return _pem[name]


def hash_of(alg):
    from cryptography.hazmat.primitives import hashes
    return {"256": hashes.SHA256, "384": hashes.SHA384, "512": hashes.SHA512}[alg[2:]]()


def oracle_sign(c, alg, data, secret=SECRET, name=None):
    """the signature octets RFC 7518 prescribes"""
    from cryptography.hazmat.primitives.asymmetric import ec, padding
    from cryptography.hazmat.primitives.asymmetric.utils import decode_dss_signature
    if alg == "none":
        return b""
    if alg[:2] == "HS":
        return c.hmac("sha" + alg[2:], secret, data)
    priv, _ = keypair(name or key_name(alg))
    h = hash_of(alg)
    if alg[:2] == "RS":
        return priv.sign(data, padding.PKCS1v15(), h)
    if alg[:2] == "PS":
        return priv.sign(data, padding.PSS(padding.MGF1(h), h.digest_size), h)
    n = (priv.curve.key_size + 7) // 8
    r, s = decode_dss_signature(priv.sign(data, ec.ECDSA(h)))
    return r.to_bytes(n, "big") + s.to_bytes(n, "big")


def oracle_verify(c, alg, sig, data, secret=SECRET, name=None):
    """is sig a signature of data under RFC 7518?"""
    from cryptography.exceptions import InvalidSignature
    from cryptography.hazmat.primitives.asymmetric import ec, padding
    from cryptography.hazmat.primitives.asymmetric.utils import encode_dss_signature
    if alg == "none":
        return c.eq(sig, b"")
    if alg[:2] == "HS":
        return c.eq(sig, c.hmac("sha" + alg[2:], secret, data))
    _, pub = keypair(name or key_name(alg))
    h = hash_of(alg)
    try:
        if alg[:2] == "RS":
            pub.verify(sig, data, padding.PKCS1v15(), h)
        elif alg[:2] == "PS":
            pub.verify(sig, data, padding.PSS(padding.MGF1(h), h.digest_size), h)
        else:
            n = (pub.curve.key_size + 7) // 8
            if len(sig) != 2 * n:
                return False
            r, s = int.from_bytes(sig[:n], "big"), int.from_bytes(sig[n:], "big")
            pub.verify(encode_dss_signature(r, s), data, ec.ECDSA(h))
        return True
    except InvalidSignature:
        return False


def sig_len(alg):
    return {"none": 0, "HS": int(alg[2:] or 0) // 8 if alg != "none" else 0, "RS": 160, "PS": 160}.get(alg[:2] if alg != "none" else alg) if alg not in CURVE else {"ES256": 64, "ES384": 96, "ES512": 132}[alg]


def jwk(alg_or_name, secret=SECRET, public=False, **extra):
    from harness import keys
    from psion.jose import JsonWebKey
    name = key_name(alg_or_name) if alg_or_name in ALGS else alg_or_name
    if name == "oct":
        k = b64(secret).decode("ascii")
        return JsonWebKey({"kty": "oct", "k": k, **extra})
    return JsonWebKey((keys.public if public else keys.private)(name, **extra))


def deserialize(c, api, token, key, *a, **k):
    """-> (payload octets or claims, header, error) by either entry point"""
    from psion.jose import JsonWebSignature
    v, e = c.attempt(JsonWebSignature.deserialize, token, key, *a, **k)
    if e is not None:
        return None, None, e
    return v.payload, v.header, None


# ------------------------------------------------------------------ C01
def authentic(c, alg, source, size=4):
    """a token is accepted exactly when its signature is a valid signature of
    its first two segments, and then yields exactly those contents"""
    from psion.jose.exceptions import InvalidSignature, JoseError
    head = json.dumps({"alg": alg}).encode()
    payload = c.bytes("payload", size)
    message = b64(head) + b"." + b64(payload)
    key = jwk(alg, public=True)
    if source == "valid":
        sig = oracle_sign(c, alg, message)
    elif source == "other-message":
        other = c.bytes("signed", size)
        sig = oracle_sign(c, alg, b64(head) + b"." + b64(other))
    elif source == "bit-flip":
        good = oracle_sign(c, alg, message)
        flip = c.bytes("flip", len(good), len(good))
        sig = xor(good, flip)
    elif source == "resized":
        good = oracle_sign(c, alg, message)
        at = c.choice("at", [0, 1, len(good) // 2, len(good) - 1, len(good)])
        sig = good[:at] + c.bytes("more", 1, 1) + good[at:] if c.choice("grow", [True, False]) or at == len(good) else good[:at] + good[at + 1:]
    else:
        n = sig_len(alg)
        lens = sorted({0, 1, n - 1, n, n + 1} - {-1})
        n = c.choice("siglen", lens)
        sig = c.bytes("sig", n, n)
    token = message + b"." + b64(sig)
    got, header, err = deserialize(c, "jws", token, key)
    valid = oracle_verify(c, alg, sig, message)
    c.check(c.iff(err is None, valid), "accepted exactly when the signature is valid")
    if err is None:
        c.check(c.eq(got, payload), "the payload is the signed payload")
        c.check(c.eq(dict(header), {"alg": alg}), "the header is the signed header")
        c.cover("accepted")
    else:
        c.check(isinstance(err, InvalidSignature), "an invalid signature is reported as such")
        c.cover("refused")


def xor(a, b):
    return bytes([x ^ y for x, y in zip(a, b)])


def authentic_secret(c, alg, size=3):
    """any secret, any message: the MAC is made with that very secret"""
    secret = c.bytes("secret", 4)
    other = c.bytes("other", 4)
    payload = c.bytes("payload", size)
    head = json.dumps({"alg": alg}).encode()
    message = b64(head) + b"." + b64(payload)
    sig = oracle_sign(c, alg, message, other)
    got, header, err = deserialize(c, "jws", message + b"." + b64(sig), jwk("oct", secret))
    c.check(c.iff(err is None, oracle_verify(c, alg, sig, message, secret)), "accepted exactly when made with this secret")
    c.cover("accepted", err is None)
    c.cover("refused", err is not None)


def authentic_raw(c, alg, size=4):
    """any octets in the payload segment: never accepted unless they were signed"""
    from psion.jose.exceptions import JoseError
    seg = c.bytes("segment", size)
    for ch in seg:
        c.assume(ch != 46)
    head = b64(json.dumps({"alg": alg}).encode())
    signed = c.bytes("signed", size)
    sig = oracle_sign(c, alg, head + b"." + signed)
    message = head + b"." + seg
    got, header, err = deserialize(c, "jws", message + b"." + b64(sig), jwk(alg, public=True))
    if err is None:
        c.check(oracle_verify(c, alg, sig, message), "nothing but the signed octets is accepted")
        c.cover("accepted")
    else:
        c.check(isinstance(err, JoseError), "refused with a library error")
        c.cover("refused")


def authentic_header(c, alg, size=2):
    """the header segment is covered by the signature"""
    kid, signed_kid = c.str("kid", size, 1, ranges=((32, 126),)), c.str("signed_kid", size, 1, ranges=((32, 126),))
    seg = b64(json.dumps({"alg": alg, "typ": kid}).encode())
    signed = b64(json.dumps({"alg": alg, "typ": signed_kid}).encode())
    body = b64(b"{}")
    sig = oracle_sign(c, alg, signed + b"." + body)
    got, header, err = deserialize(c, "jws", seg + b"." + body + b"." + b64(sig), jwk(alg, public=True))
    c.check(c.iff(err is None, oracle_verify(c, alg, sig, seg + b"." + body)), "a header is accepted exactly when it is the signed one")
    if err is None:
        c.check(c.eq(header["typ"], kid), "the header value is kept")
        c.cover("accepted")
    else:
        c.cover("refused")


def head_forms(alg):
    """one header, written in the ways other implementations write it"""
    return [
        b'{"alg": "%s", "typ": "JWT"}' % alg, b'{"alg":"%s","typ":"JWT"}' % alg, b'{"typ":"JWT","alg":"%s"}' % alg,
        b'{"typ":"JWT",\r\n "alg":"%s"}' % alg, b' {"alg" : "%s" , "typ" : "\\u004aWT"}\n' % alg, b'{"alg":"%s","typ":"JWT","cty":null}' % alg,
    ]


def authentic_form(c, alg, size=2):
    """the octets received are what is verified, however the header is written"""
    from psion.jose import JsonWebSignature, JsonWebToken
    from psion.jose.exceptions import InvalidSignature
    forms = head_forms(alg.encode())
    sent, signed = c.choice("sent", forms), c.choice("signed", forms)
    claim = c.str("claim", size, ranges=((97, 122),))
    body = json.dumps({"sub": claim}, separators=(",", ":")).encode()
    api = c.choice("api", ["jws", "jwt"])
    message = b64(sent) + b"." + b64(body)
    sig = oracle_sign(c, alg, b64(signed) + b"." + b64(body))
    fn = JsonWebSignature.deserialize if api == "jws" else JsonWebToken.decode
    v, err = c.attempt(fn, message + b"." + b64(sig), jwk(alg, public=True))
    if b"null" in sent:
        # a null member is not valid header text: refused or, when signed, accepted
        c.check(c.or_(err is not None, oracle_verify(c, alg, sig, message)), "accepted only as signed")
        return
    c.check(c.iff(err is None, oracle_verify(c, alg, sig, message)), "accepted exactly when the octets received are the signed ones")
    if err is None:
        c.check(c.eq(dict(v.header), {"alg": alg, "typ": "JWT"}), "the header is the signed header")
        if api == "jws":
            c.check(c.eq(v.payload, body), "the payload is the signed payload")
        else:
            c.check(c.eq(dict(v.claims), {"sub": claim}), "the claims are the signed claims")
        c.cover("accepted")
    else:
        c.check(isinstance(err, InvalidSignature), "reported as an invalid signature")
        c.cover("refused")


PRINT = ((35, 91), (93, 126))


def authentic_long(c, alg):
    """every octet of a long token counts, and of a long secret"""
    from psion.jose.exceptions import InvalidSignature
    mark, signed_mark = long(c, "mark", 250, PRINT), long(c, "signed.mark", 250, PRINT)
    payload, signed = long(c, "payload", 1200, PRINT).encode(), long(c, "signed", 1200, PRINT).encode()
    secret, other = long(c, "secret", 200, PRINT).encode(), long(c, "other", 200, PRINT).encode()
    head, signed_head = [json.dumps({"alg": alg, "x": x, **{f"m{i}": i for i in range(20)}}).encode() for x in (mark, signed_mark)]
    vary = c.choice("vary", ["payload", "header", "secret"] if alg[:2] == "HS" else ["payload", "header"])
    sent = (signed_head if vary != "header" else head, signed if vary != "payload" else payload)
    other = other if vary == "secret" else secret
    sig = oracle_sign(c, alg, b64(signed_head) + b"." + b64(signed), other)
    message = b64(sent[0]) + b"." + b64(sent[1])
    key = jwk("oct", secret) if alg[:2] == "HS" else jwk(alg, public=True)
    got, header, err = deserialize(c, "jws", message + b"." + b64(sig), key)
    c.check(c.iff(err is None, oracle_verify(c, alg, sig, message, secret)), "accepted exactly when the octets received are the signed ones")
    if err is None:
        c.check(c.eq(got, sent[1]) and c.eq(dict(header), json.loads(sent[0])), "and read as such")
        c.cover("accepted")
    else:
        c.check(isinstance(err, InvalidSignature), "reported as an invalid signature")
        c.cover("refused")


def unvalidated(c, alg):
    """JsonWebToken.decode validates unless told otherwise"""
    from psion.jose import JsonWebToken
    from psion.jose.exceptions import InvalidSignature
    claim = c.str("claim", 2, ranges=((97, 122),))
    message = b64(json.dumps({"alg": alg}).encode()) + b"." + b64(json.dumps({"sub": claim}).encode())
    n = sig_len(alg) or 1
    good = oracle_sign(c, alg, message)
    use = c.bool("valid")
    sig = good if use else c.bytes("sig", n, n)
    as_text = c.bool("text")
    token = message + b"." + b64(sig)
    if as_text:
        token = token.decode("ascii")
    v, err = c.attempt(JsonWebToken.decode, token, jwk(alg, public=True))
    c.check(c.iff(err is None, oracle_verify(c, alg, sig, message)), "decode accepts exactly valid signatures")
    if err is None:
        c.check(c.eq(dict(v.claims), {"sub": claim}), "the claims are the signed claims")
        c.check(c.eq(dict(v.header), {"alg": alg}), "the header is the signed header")
        c.cover("accepted")
    else:
        c.check(isinstance(err, InvalidSignature), "reported as an invalid signature")
        c.cover("refused")


def authentic_again(c, alg):
    """what was verified, refused or signed before says nothing about the next token"""
    from psion.jose import JsonWebSignature, JsonWebToken
    from psion.jose.exceptions import InvalidSignature
    head = {"alg": alg, "kid": "k"}
    text = b64(json.dumps(head).encode())
    two = {"HS": "oct2", "RS": "rsa2", "PS": "rsa2"}.get(alg[:2], {"ES256": "p256b"}.get(alg))
    seconds = [False, True] if two else [False]

    def key_of(second):
        return jwk("oct", secret=b"another secret" if second else SECRET, kid="k") if alg[:2] == "HS" else jwk(two if second else alg, public=True, kid="k")

    def signed(message, second):
        return oracle_sign(c, alg, message, secret=b"another secret", name=two) if second else oracle_sign(c, alg, message)

    first = text + b"." + b64(b'{"sub":"a"}')
    mine = key_of(False)
    done = []
    for step in c.choice("before", [["verified"], ["refused"], ["decoded"], ["verified by another"] if two else ["signed"], ["signed"], ["verified", "refused"], ["refused", "verified"]]):
        if step in ("verified", "verified by another"):
            other = step != "verified"
            tok = first + b"." + b64(signed(first, other))
            _, err = c.attempt(JsonWebSignature.deserialize, tok, key_of(other) if other else mine)
            c.check(err is None, "a good token")
        elif step == "decoded":
            _, err = c.attempt(JsonWebToken.decode, first + b"." + b64(signed(first, False)), mine, alg)
            c.check(err is None, "a good token")
        elif step == "refused":
            _, err = c.attempt(JsonWebSignature.deserialize, first + b"." + b64(b"x" * sig_len(alg)), mine)
            c.check(isinstance(err, InvalidSignature), "a bad token")
        else:
            JsonWebSignature(b'{"sub":"a"}', dict(head)).serialize(jwk(alg, kid="k"))
        done.append(step)
    payload = c.choice("payload", [b'{"sub":"a"}', "other"])
    payload = b'{"sub":"' + c.str("sub", 1, 1, ranges=((97, 99),)).encode() + b'"}' if payload == "other" else payload
    message = text + b"." + b64(payload)
    how = c.choice("signature", ["first", "own", "flip", "by another"] if two else ["first", "own", "flip"])
    if how == "first":
        sig = signed(first, False)
    elif how == "own":
        sig = signed(message, False)
    elif how == "by another":
        sig = signed(message, True)
    else:
        good = signed(message, False)
        sig = xor(good, c.bytes("flip", 1, 1) + bytes(len(good) - 1))
    other = c.choice("with", seconds)
    key = key_of(True) if other else c.choice("same key", [mine, key_of(False)])
    v, err = c.attempt(JsonWebSignature.deserialize, message + b"." + b64(sig), key)
    valid = oracle_verify(c, alg, sig, message, **({"secret": b"another secret", "name": two} if other else {}))
    c.check(c.iff(err is None, valid), "accepted exactly when the signature is valid")
    if err is None:
        c.check(c.eq(v.payload, payload), "with its own payload")
        c.cover("accepted")
    else:
        c.cover("refused")


def c01(tier):
    t = tier == "thorough"
    out = []
    for alg in ALGS:
        sources = ["valid", "arbitrary", "other-message"] if alg != "none" else ["arbitrary"]
        if alg[:2] in ("HS", "ES"):
            sources.append("bit-flip")
        if alg != "none":
            sources.append("resized")
        for s in sources:
            cov = {"valid": ["accepted"], "arbitrary": ["refused"], "other-message": ["accepted", "refused"], "bit-flip": ["accepted", "refused"], "resized": ["refused"]}[s]
            out.append(dict(name=f"authentic-{alg}-{s}", fn="authentic", params={"alg": alg, "source": s, "size": (5 if t else 2) if s != "other-message" else (3 if t else 1)}, covers=cov))
        if alg[:2] == "HS":
            out.append(dict(name=f"secret-{alg}", fn="authentic_secret", params={"alg": alg, "size": 3 if t else 1}, covers=["accepted", "refused"]))
        if alg != "none":
            out.append(dict(name=f"raw-{alg}", fn="authentic_raw", params={"alg": alg, "size": 4 if t else 2}, covers=["accepted", "refused"]))
            out.append(dict(name=f"header-{alg}", fn="authentic_header", params={"alg": alg, "size": 2 if t else 1}, covers=["accepted", "refused"]))
            out.append(dict(name=f"form-{alg}", fn="authentic_form", params={"alg": alg, "size": 3 if t else 1}, covers=["accepted", "refused"]))
        if t or alg in ("HS256", "HS512", "RS256", "ES256", "PS256"):
            out.append(dict(name=f"long-{alg}", fn="authentic_long", params={"alg": alg}, covers=["accepted", "refused"]))
            out.append(dict(name=f"again-{alg}", fn="authentic_again", params={"alg": alg}, covers=["accepted", "refused"]))
        out.append(dict(name=f"decode-{alg}", fn="unvalidated", params={"alg": alg}, covers=["accepted", "refused"]))
    return out


# ------------------------------------------------------------------ C02
def entry(c, api, token, key, *a, **k):
    """-> error of either entry point"""
    from psion.jose import JsonWebSignature, JsonWebToken
    fn = JsonWebSignature.deserialize if api == "jws" else JsonWebToken.decode
    return c.attempt(fn, token, key, *a, **k)


def pinned(c, api, heads, close=False):
    """a pinned algorithm is enforced whatever the token says"""
    from psion.jose.exceptions import JoseError
    alg = c.choice("alg", heads)
    want = near(c, "pinned", alg) if close else c.str("pinned", 6)
    claim = c.str("claim", 1, ranges=((97, 122),))
    message = b64(json.dumps({"alg": alg}).encode()) + b"." + b64(json.dumps({"sub": claim}).encode())
    token = message + b"." + b64(oracle_sign(c, alg, message))
    key = jwk(alg, public=True)
    validate = close or c.choice("validate", [True, False])
    if close or c.choice("style", ["keyword", "positional"]) == "keyword":
        v, err = entry(c, api, token, key, algorithm=want, validate=validate)
    else:
        v, err = entry(c, api, token, key, want, validate)
    c.check(c.iff(err is None, c.or_(c.eq(want, ""), c.eq(want, alg))), "accepted exactly under the pinned algorithm")
    if err is not None:
        c.check(isinstance(err, JoseError), "refused with a library error")
        c.cover("refused")
    else:
        c.cover("accepted", c.eq(want, alg))


def pinned_forged(c, api, alg):
    """a token the attacker builds freely (any listed algorithm in the header,
    any signature octets) never passes under a pinned algorithm unless it
    carries a valid signature for that algorithm"""
    from psion.jose.exceptions import JoseError
    head = c.choice("head", ALGS)
    size = c.choice("size", sorted({0, 1, sig_len(alg), sig_len(head)}))
    sig = c.bytes("sig", size, size)
    message = b64(json.dumps({"alg": head}).encode()) + b"." + b64(b'{"sub": "a"}')
    key = jwk(alg, public=True)
    v, err = entry(c, api, message + b"." + b64(sig), key, algorithm=alg)
    ok = False
    if head == alg:
        ok = oracle_verify(c, alg, sig, message)
    c.check(c.iff(err is None, ok), "nothing but a valid signature under the pinned algorithm")
    if err is not None:
        c.check(isinstance(err, JoseError), "refused with a library error")
        c.cover("refused")
    else:
        c.cover("accepted")


def pinned_again(c, alg):
    """what one call pinned does not count for the next"""
    from psion.jose.exceptions import JoseError
    message = b64(json.dumps({"alg": alg}).encode()) + b"." + b64(b'{"sub": "a"}')
    token = message + b"." + b64(oracle_sign(c, alg, message))
    key = jwk(alg, public=True)
    before = c.choice("before", ["unpinned", "right", "wrong", "unverified"])
    kw = {"unpinned": {}, "right": {"algorithm": alg}, "wrong": {"algorithm": "HS256" if alg != "HS256" else "ES256"}, "unverified": {"validate": False}}[before]
    _, err = entry(c, c.choice("api", ["jws", "jwt"]), token, key, **kw)
    c.check((err is None) == (before != "wrong"), "the first")
    want = c.str("pinned", 6)
    _, err = entry(c, c.choice("api2", ["jws", "jwt"]), token, key if c.choice("same", [True, False]) else jwk(alg, public=True), algorithm=want)
    c.check(c.iff(err is None, c.or_(c.eq(want, ""), c.eq(want, alg))), "accepted exactly under the pinned algorithm")
    if err is not None:
        c.check(isinstance(err, JoseError), "refused with a library error")
        c.cover("refused")
    else:
        c.cover("accepted", c.eq(want, alg))


def c02(tier):
    out = []
    for alg in ("none", "HS256", "RS256", "ES256", "PS512") if tier == "quick" else ALGS:
        out.append(dict(name=f"again-{alg}", fn="pinned_again", params={"alg": alg}, covers=["accepted", "refused"]))
    for api in ("jws", "jwt"):
        for alg in ALGS:
            out.append(dict(name=f"pinned-{api}-{alg}", fn="pinned", params={"api": api, "heads": [alg]}, covers=["accepted", "refused"]))
            out.append(dict(name=f"near-{api}-{alg}", fn="pinned", params={"api": api, "heads": [alg], "close": True}, covers=["refused"]))
            if alg != "none":
                out.append(dict(name=f"forged-{api}-{alg}", fn="pinned_forged", params={"api": api, "alg": alg}, covers=["refused"]))
    return out


# ------------------------------------------------------------------ C03
TYPES = {"oct": ("oct", None), "rsa": ("RSA", None), "p256": ("EC", "P-256"), "p384": ("EC", "P-384"), "p521": ("EC", "P-521")}
NEEDS = {"HS": "oct", "RS": "RSA", "PS": "RSA", "ES": "EC"}


def allowed(c, alg, name, kalg, use, ops, key_kid, head_kid):
    """is this key, as declared, usable with this header?"""
    kty, crv = TYPES[name]
    if alg != "none":
        if NEEDS[alg[:2]] != kty:
            return False
        if kty == "EC" and {"P-256": "ES256", "P-384": "ES384", "P-521": "ES512"}[crv] != alg:
            return False
    return c.and_(
        c.or_(kalg is None, c.eq(kalg, ""), c.eq(kalg, alg)),
        c.or_(use is None, c.eq(use, ""), c.eq(use, "sig")),
        c.or_(ops is None, c.and_(*[c.isin(o, ["sign", "verify"]) for o in ops or []])),
        c.or_(head_kid is None, key_kid is not None and c.eq(key_kid, head_kid)),
    )


def declared(c, alg, name, op, what):
    """a key is used only as it declares itself"""
    from psion.jose import JsonWebSignature
    from psion.jose.exceptions import InvalidKey, JoseError
    extra, header = {}, {"alg": alg}
    kalg = use = ops = kid = hkid = None
    if "alg" in what:
        kalg = c.choice("kalg", [None, "text"])
        if kalg:
            kalg = c.str("key alg", 6)
    if "use" in what:
        use = c.choice("use?", [None, "text"])
        if use:
            use = c.str("use", 4)
    if "ops" in what:
        n = c.choice("ops?", [None, 0, 1, 2])
        if n is not None:
            ops = [c.str(f"op{i}", 7) for i in range(n)]
    if "kid" in what:
        if c.choice("kid?", [False, True]):
            kid = c.str("key kid", 2)
        if c.choice("hkid?", [False, True]):
            hkid = c.str("head kid", 2, 1, ranges=((33, 126),))
    if "near" in what:
        of = c.choice("near", ["alg", "use", "ops", "kid", "head"])
        if of == "alg":
            kalg = near(c, "alg", alg)
        elif of == "use":
            use = near(c, "use", "sig")
        elif of == "ops":
            ops = [near(c, "op", "sign"), "verify"] if c.choice("which op", [True, False]) else ["sign", near(c, "op", "verify")]
        else:
            kid, hkid = "key-1", "key-1"
            if of == "kid":
                kid = near(c, "kid", kid)
            else:
                hkid = near(c, "kid", hkid)
    for k, v in (("alg", kalg), ("use", use), ("key_ops", ops), ("kid", kid)):
        if v is not None:
            extra[k] = v
    if hkid is not None:
        header["kid"] = hkid
    ok = allowed(c, alg, name, kalg, use, ops, kid, hkid)
    if op == "sign":
        key = jwk(name, **extra)
        v, err = c.attempt(JsonWebSignature(b"data", header).serialize, key)
    else:
        key = jwk(name, public=True, **extra)
        seg = b64(json.dumps(header).encode()) + b"." + b64(b"data")
        match = allowed(c, alg, name, None, None, None, None, None)
        sig = oracle_sign(c, alg, seg) if match is not False else c.bytes("sig", 4)
        v, err = c.attempt(JsonWebSignature.deserialize, seg + b"." + b64(sig), key)
    c.check(c.iff(err is None, ok), "used exactly when the key declares itself usable")
    if err is not None:
        c.check(isinstance(err, InvalidKey), "refused as an invalid key")
        c.cover("refused")
    else:
        c.cover("used")


def declared_long(c, alg, op):
    """long identifiers are compared in full, long lists of operations read in full"""
    from psion.jose import JsonWebSignature, JsonWebToken
    from psion.jose.exceptions import InvalidKey
    kid, hkid = long(c, "kid", 300, WORD), long(c, "head.kid", 300, WORD)
    ops = ["sign", "verify"] * 6 + [c.choice("last", ["sign", "verify", "encrypt", "text"])]
    if ops[-1] == "text":
        ops[-1] = c.str("op", 6, 4, ranges=((97, 122),))
    ok = c.and_(c.eq(kid, hkid), c.isin(ops[-1], ["sign", "verify"]))
    header = {"alg": alg, "kid": hkid}
    key = jwk(key_name(alg), public=op == "verify", kid=kid, key_ops=ops)
    api = c.choice("api", ["jws", "jwt"])
    if op == "sign":
        v, err = c.attempt(JsonWebSignature(b"data", header).serialize, key) if api == "jws" else c.attempt(JsonWebToken({"sub": "a"}, header).encode, key)
    else:
        seg = b64(json.dumps(header).encode()) + b"." + b64(b'{"sub": "a"}')
        v, err = entry(c, api, seg + b"." + b64(oracle_sign(c, alg, seg)), key)
    c.check(c.iff(err is None, ok), "used exactly when the key declares itself usable")
    if err is not None:
        c.check(isinstance(err, InvalidKey), "refused as an invalid key")
        c.cover("refused")
    else:
        c.cover("used")


WORD = ((48, 57), (65, 90), (97, 122))


def declared_again(c, alg, op):
    """what one key may do says nothing about another of the same identifier,
    nor about the same key under another algorithm"""
    from psion.jose import JsonWebSignature
    from psion.jose.exceptions import InvalidKey
    name = key_name(alg)

    def act(key, a, op):
        header = {"alg": a, "kid": "k"}
        if op == "sign":
            return c.attempt(JsonWebSignature(b"data", header).serialize, key)[1]
        seg = b64(json.dumps(header).encode()) + b"." + b64(b"data")
        return c.attempt(JsonWebSignature.deserialize, seg + b"." + b64(oracle_sign(c, a, seg)), key)[1]
    free = jwk(name, kid="k")
    for step in c.choice("before", [["sign"], ["verify"], ["refused"], ["sign", "verify", "refused"]]):
        err = act(free if step != "refused" else jwk(name, kid="k", use="enc"), alg, op if step == "refused" else step)
        c.check((err is None) == (step != "refused"), "the first")
    what = c.choice("what", ["use", "alg", "key_ops", "kid", "public", "other algorithm"])
    if what == "other algorithm":
        a = {"HS": "HS512", "RS": "PS256", "PS": "RS256", "ES": "ES384"}[alg[:2]]
        err = act(free, a, op)
        ok = a[:2] != "ES"
    elif what == "public":
        err = act(jwk(name, public=True, kid="k"), alg, op)
        ok = op == "verify" or name == "oct"
    else:
        v = c.str("value", 6, 1, ranges=WORD)
        err = act(jwk(name, **{"kid": "k", what: [v] if what == "key_ops" else v}), alg, op)
        ok = c.isin(v, {"use": ["sig"], "alg": [alg], "key_ops": ["sign", "verify"], "kid": ["k"]}[what])
    c.check(c.iff(err is None, ok), "used exactly when the key declares itself usable")
    if err is not None:
        c.check(isinstance(err, InvalidKey), "refused as an invalid key")
        c.cover("refused")
    else:
        c.cover("used")


def public_signs(c, alg):
    """a public key never signs"""
    from psion.jose import JsonWebSignature
    from psion.jose.exceptions import InvalidKey
    payload = c.bytes("payload", 3)
    v, err = c.attempt(JsonWebSignature(payload, {"alg": alg}).serialize, jwk(alg, public=True))
    c.check(isinstance(err, InvalidKey), "a public key cannot sign")
    c.cover("refused", err is not None)


def no_key(c, alg):
    """whatever is not a key is refused as one"""
    from psion.jose import JsonWebSignature
    from psion.jose.exceptions import InvalidKey
    key = c.choice("key", [None, "secret", b"secret", {"kty": "oct", "k": "c2VjcmV0"}, 1])
    if key == "secret":
        key = c.str("raw", 3)
    message = b64(json.dumps({"alg": alg}).encode()) + b"." + b64(b"data")
    v, e1 = c.attempt(JsonWebSignature.deserialize, message + b".", key)
    v, e2 = c.attempt(JsonWebSignature(b"data", {"alg": alg}).serialize, key)
    c.check(isinstance(e1, InvalidKey) and isinstance(e2, InvalidKey), "not a key")
    c.cover("refused")


def c03(tier):
    out = []
    for alg in ALGS:
        for name in TYPES:
            kty, crv = TYPES[name]
            m = alg == "none" or (NEEDS[alg[:2]] == kty and (kty != "EC" or name == CURVE[alg]))
            cov = ["used", "refused"] if m else ["refused"]
            for op in ("sign", "verify"):
                whats = [("alg",), ("use", "ops"), ("kid",), ("near",)] if m else [("alg",)]
                if tier == "thorough":
                    whats = [("alg", "use"), ("use", "ops"), ("kid", "alg"), ("near",)]
                for w in whats:
                    out.append(dict(name=f"{op}-{alg}-{name}-{'.'.join(w)}", fn="declared", params={"alg": alg, "name": name, "op": op, "what": list(w)}, covers=cov))
        if alg[:2] not in ("HS", "no"):
            out.append(dict(name=f"public-{alg}", fn="public_signs", params={"alg": alg}, covers=["refused"]))
        for op in ("sign", "verify"):
            if tier == "thorough" or alg in ("HS256", "ES384", "RS512", "PS256"):
                out.append(dict(name=f"long-{op}-{alg}", fn="declared_long", params={"alg": alg, "op": op}, covers=["used", "refused"]))
            if alg != "none" and (tier == "thorough" or alg in ("HS256", "ES256", "RS256", "PS256")):
                out.append(dict(name=f"again-{op}-{alg}", fn="declared_again", params={"alg": alg, "op": op}, covers=["used", "refused"]))
        out.append(dict(name=f"nokey-{alg}", fn="no_key", params={"alg": alg}, covers=["refused"]))
    return out


# ------------------------------------------------------------------ C04
B64 = ((65, 90), (97, 122), (48, 57), (45, 45), (95, 95))


def round_trip(c, alg, size, vary="payload"):
    """serialize then deserialize"""
    from psion.jose import JsonWebSignature
    header = {"alg": alg}
    if vary == "header":
        payload = c.bytes("payload", 1)
        x = c.choice("x", [[1, None, {"y": "z"}], 0, "", False, [], {}, True, -1])
        header["x"] = x
        header["y"] = c.str("y", 1, ranges=((32, 126),))
    else:
        payload = c.bytes("payload", size)
        if c.choice("typ?", [False, True]):
            header["typ"] = c.str("typ", 1, 1)
    wanted = dict(header)
    token = JsonWebSignature(payload, header).serialize(jwk(alg))
    c.check(isinstance(token, bytes), "octets")
    parts = token.split(b".")
    c.check(len(parts) == 3, "three segments")
    for p in parts:
        c.check(c.only(p, B64), "unpadded base64url segments")
    c.check(c.eq(parts[1], b64(payload)), "the middle segment is the payload")
    back = JsonWebSignature.deserialize(token, jwk(alg, public=True))
    c.check(c.eq(back.payload, payload), "the payload comes back")
    c.check(c.eq(dict(back.header), wanted), "the header comes back")
    c.check(c.eq(header, wanted), "the caller's header is not changed")
    c.cover("done")


def claim_value(c, kind, size):
    if kind == "text":
        return c.str("text", size)
    if kind == "ascii":
        return c.str("ascii", size + 2, ranges=((32, 126),))
    if kind == "int":
        return c.int("int", -999, 9999)
    if kind == "bool":
        return c.choice("bool", [True, False])
    if kind == "nested":
        return {"a": [c.str("in", 1, ranges=((32, 126),)), 2, None, True], "b": {}}
    if kind == "float":
        return 1.5
    return None


def jwt_round_trip(c, alg, kind, size):
    from psion.jose import JsonWebToken
    claims = {"sub": c.str("sub", 1, ranges=((97, 122),))}
    v = claim_value(c, kind, size)
    claims["x"] = v
    wanted = {k: x for k, x in claims.items() if x is not None}
    header = {"alg": alg, "typ": "JWT"}
    token = JsonWebToken(claims, header).encode(jwk(alg))
    c.check(isinstance(token, str), "text")
    parts = token.split(".")
    c.check(len(parts) == 3, "three segments")
    for p in parts:
        c.check(c.only(p, B64), "unpadded base64url segments")
    as_bytes = c.choice("bytes", [False, True])
    back = JsonWebToken.decode(token.encode("ascii") if as_bytes else token, jwk(alg, public=True), alg)
    c.check(c.eq(dict(back.claims), wanted), "the claims come back")
    c.check(c.eq(dict(back.header), header), "the header comes back")
    c.cover("done")


def odd_round_trip(c, alg, what):
    """whatever the members look like"""
    from psion.jose import JsonWebSignature, JsonWebToken
    v = odd(c, "value")
    at = c.choice("at", ["value", "name", "inside", "registered"])
    m = {"value": {"x": v}, "name": {v: 1}, "inside": {"x": [{v: [v]}]}, "registered": {"sub" if what == "claims" else "kid": v}}[at]
    if what == "payload":
        payload = (v if at == "value" else c.choice("around", ["\ufeff", " ", "\r\n", '{"a": '] ) + v).encode("utf-8")
        back = JsonWebSignature.deserialize(JsonWebSignature(payload, {"alg": alg}).serialize(jwk(alg)), jwk(alg, public=True))
        c.check(c.eq(back.payload, payload), "the payload comes back")
    elif what == "header":
        header = {"alg": alg, **m}
        kw = {"kid": v} if at == "registered" else {}
        back = JsonWebSignature.deserialize(JsonWebSignature(b"data", dict(header)).serialize(jwk(alg, **kw)), jwk(alg, public=True, **kw))
        c.check(c.eq(dict(back.header), header), "the header comes back")
    else:
        back = JsonWebToken.decode(JsonWebToken(dict(m), {"alg": alg}).encode(jwk(alg)), jwk(alg, public=True), alg)
        c.check(c.eq(dict(back.claims), m), "the claims come back")
    c.cover("done")


def long_round_trip(c, alg, what):
    """long payloads and headers, many claims"""
    from psion.jose import JsonWebSignature, JsonWebToken
    header = {"alg": alg, "typ": "JWT", "y": {f"m{i}": [i] * i for i in range(8)}}
    if what == "jws":
        payload = long(c, "payload", 1500, ((0, 127),)).encode()
        header["x"] = long(c, "x", 300, PRINT)
        wanted = json.loads(json.dumps(header))
        back = JsonWebSignature.deserialize(JsonWebSignature(payload, header).serialize(jwk(alg)), jwk(alg, public=True))
        c.check(c.eq(back.payload, payload), "the payload comes back")
        c.check(c.eq(dict(back.header), wanted), "the header comes back")
    else:
        claims = {f"claim{i}": f"value{i}" for i in range(130)}
        claims.update(sub=long(c, "sub", 300, PRINT), aud=[f"aud{i}" for i in range(70)] + [c.str("aud", 1, 1, ranges=((97, 122),))], n=2**70)
        wanted = json.loads(json.dumps(claims))
        back = JsonWebToken.decode(JsonWebToken(claims, header).encode(jwk(alg)), jwk(alg, public=True), alg)
        c.check(c.eq(dict(back.claims), wanted), "the claims come back")
    c.cover("done")


def round_trips(c, alg):
    """tokens made side by side carry each their own"""
    from psion.jose import JsonWebSignature, JsonWebToken
    headers = [{"alg": alg, "x": c.str(f"x{i}", 1, ranges=PRINT)} for i in range(2)]
    payloads = [c.bytes(f"payload{i}", 2, 1) for i in range(2)]
    headers[1]["kid"] = "k"
    kinds = c.choice("kinds", ["jws", "jwt"])
    claims = [{"sub": c.str(f"sub{i}", 1, ranges=PRINT)} for i in range(2)]
    claims[1]["nonce"] = "n"
    made = [JsonWebSignature(p, dict(h)) if kinds == "jws" else JsonWebToken(dict(x), dict(h)) for p, h, x in zip(payloads, headers, claims)]
    key, public = jwk(alg, kid="k"), jwk(alg, public=True, kid="k")
    order = c.choice("order", [[0, 1], [1, 0], [0, 1, 0], [1, 1, 0]])
    tokens = [(i, made[i].serialize(key) if kinds == "jws" else made[i].encode(key)) for i in order]
    for i, tok in tokens:
        back = (JsonWebSignature.deserialize if kinds == "jws" else JsonWebToken.decode)(tok, public)
        if kinds == "jws":
            c.check(c.eq(back.payload, payloads[i]), "the payload comes back")
        else:
            c.check(c.eq(dict(back.claims), claims[i]), "the claims come back")
        c.check(c.eq(dict(back.header), headers[i]), "the header comes back")
    c.cover("done")


def c04(tier):
    t = tier == "thorough"
    out = [dict(name=f"several-{alg}", fn="round_trips", params={"alg": alg}, covers=["done"]) for alg in (ALGS if t else ["none", "HS256", "ES256", "RS256"])]
    for alg in ALGS:
        out.append(dict(name=f"jws-{alg}", fn="round_trip", params={"alg": alg, "size": 8 if t else 3}, covers=["done"]))
        out.append(dict(name=f"header-{alg}", fn="round_trip", params={"alg": alg, "size": 1, "vary": "header"}, covers=["done"]))
        if t or alg in ("HS256", "ES512", "RS256"):
            out += [dict(name=f"long-{alg}-{w}", fn="long_round_trip", params={"alg": alg, "what": w}, covers=["done"]) for w in ("jws", "jwt")]
        if t or alg == "HS256":
            out += [dict(name=f"odd-{alg}-{w}", fn="odd_round_trip", params={"alg": alg, "what": w}, covers=["done"]) for w in ("payload", "header", "claims")]
        kinds = ["text", "ascii", "int", "bool", "nested", "float", "null"]
        for k in kinds if (t or alg in ("none", "HS256", "ES256", "RS256")) else ["ascii"]:
            out.append(dict(name=f"jwt-{alg}-{k}", fn="jwt_round_trip", params={"alg": alg, "kind": k, "size": 2 if t else 1}, covers=["done"]))
    return out


# ------------------------------------------------------------------ C05
def arbitrary(c, api, size, dots):
    """any octets: a library error or a value, nothing else"""
    from psion.jose.exceptions import JoseError
    parts = [c.bytes(f"part{i}", n) for i, n in enumerate(size)]
    token = b".".join(parts[:dots + 1])
    v, err = entry(c, api, token, jwk("oct"), validate=c.choice("validate", [True, False]))
    c.check(c.or_(err is None, isinstance(err, JoseError)), "refused with a library error")
    c.check(err is not None, "octets that are no token are refused")
    c.cover("refused", err is not None)


JUNK = {
    "header-text": lambda c: (b64(c.str("h", 3).encode("utf-8")), b64(b"{}")),
    "header-object": lambda c: (b64(b'{"alg":' + c.str("h", 4, ranges=((32, 126),)).encode() + b"}"), b64(b"{}")),
    "payload-text": lambda c: (b64(b'{"alg": "none"}'), b64(c.bytes("p", 3))),
    "payload-object": lambda c: (b64(b'{"alg": "none"}'), b64(b'{"sub":' + c.str("p", 3, ranges=((32, 126),)).encode() + b"}")),
}


def junk(c, kind):
    """well-formed base64url around malformed JSON"""
    from psion.jose import JsonWebToken
    from psion.jose.exceptions import JoseError
    h, p = JUNK[kind](c)
    token = h + b"." + p + b"."
    if c.choice("text", [False, True]):
        token = token.decode("ascii")
    v, err = c.attempt(JsonWebToken.decode, token, jwk("oct"))
    c.check(c.or_(err is None, isinstance(err, JoseError)), "refused with a library error")
    if err is None:
        c.check(isinstance(v.header["alg"], str) and isinstance(v.claims, dict) and len(v.claims) > 0, "accepted only with an object of claims")
        c.cover("accepted")
    c.cover("refused", err is not None)


def deep(c, where, api):
    """nesting beyond what the interpreter can hold"""
    from psion.jose.exceptions import JoseError
    n = c.choice("depth", [500, 100000])
    text = c.choice("open", [b"[", b'{"a":']) * n + c.choice("tail", [b"", b"1", b"]", b"}"])
    h, p = (b64(text), b64(b"{}")) if where == "header" else (b64(b'{"alg": "none"}'), b64(text))
    v, err = entry(c, api, h + b"." + p + b".", jwk("oct"), validate=c.choice("validate", [True, False]))
    if api == "jws" and where == "payload":
        c.check(err is None, "any octets are a payload")
    else:
        c.check(isinstance(err, JoseError), "refused with a library error")
    c.cover("done")


def segments(c, n, size):
    """exactly three segments"""
    from psion.jose import JsonWebSignature
    from psion.jose.exceptions import JoseError
    good = [b64(b'{"alg": "HS256"}'), b64(b"data")]
    good.append(b64(oracle_sign(c, "HS256", good[0] + b"." + good[1])))
    parts = (good + [b"", b""])[:n]
    extra = c.bytes("extra", size)
    where = c.choice("where", list(range(n + 1)))
    token = b".".join(parts[:where] + [extra] + parts[where:]) if c.choice("add", [True, False]) else b".".join(parts)
    v, err = c.attempt(JsonWebSignature.deserialize, token, jwk("oct"))
    dots = 0
    for ch in token:
        dots = dots + c.ite(ch == 46, 1, 0)
    c.check(c.or_(err is None, isinstance(err, JoseError)), "refused with a library error")
    c.check(c.implies(err is None, dots == 2), "accepted only with three segments")
    c.cover("refused", err is not None)


KINDS = ["absent", "text", "null", "int", "bool", "list", "object", "float"]


def member(c, name, kind, size=2, lo=0, ranges=None):
    if kind == "text":
        return c.str(name, size, lo, ranges=ranges)
    return {"null": None, "int": c.choice(name + ".int", [0, 7]) if kind == "int" else 0, "bool": c.choice(name + ".bool", [False, True]) if kind == "bool" else False,
            "list": c.choice(name + ".list", [[], ["a"], [1]]) if kind == "list" else 0, "object": c.choice(name + ".object", [{}, {"a": 1}]) if kind == "object" else 0, "float": 0.5}[kind]


def header_alg(c, how, close=False):
    """the header names a supported algorithm, or is refused"""
    from psion.jose.exceptions import JoseError
    kind = "near" if close else c.choice("kind", KINDS)
    header = {"x": "y"}
    if close:
        header["alg"], kind = near(c, "alg", c.choice("of", ["none", "HS256", "ES512", "PS384"]), ((33, 126), (0xC0, 0xFF))), "text"
    elif kind != "absent":
        header["alg"] = member(c, "alg", kind, 6, ranges=((45, 57), (65, 90), (97, 122)) if how == "token" else None)
    err = submit(c, how, header)
    ok = kind == "text" and c.isin(header["alg"], ALGS)
    c.check(c.iff(err is None, ok), "accepted exactly when alg is a supported algorithm")
    if err is not None:
        c.check(isinstance(err, JoseError), "refused with a library error")
        c.cover("refused")
    else:
        c.cover("accepted")


def submit(c, how, header):
    from psion.jose import JsonWebSignature, JsonWebToken
    if how == "sign":
        v, err = c.attempt(JsonWebSignature, b"data", header)
    elif how == "jwt":
        v, err = c.attempt(JsonWebToken, {"sub": "a"}, header)
    else:
        token = b64(json.dumps(header).encode()) + b"." + b64(b"data") + b"."
        v, err = c.attempt(JsonWebSignature.deserialize, token, jwk("oct"), validate=False)
    return err


def header_text(c, how, name):
    """kid, typ and cty are non-empty text when present"""
    from psion.jose.exceptions import JoseError
    kind = c.choice("kind", KINDS)
    header = {"alg": "HS256"}
    if kind != "absent":
        header[name] = member(c, name, kind, 1 if how == "token" else 3)
    err = submit(c, how, header)
    ok = kind == "absent" or (kind == "text" and c.not_(c.eq(header[name], "")))
    c.check(c.iff(err is None, ok), "accepted exactly when it is non-empty text or absent")
    if err is not None:
        c.check(isinstance(err, JoseError), "refused with a library error")
        c.cover("refused")
    else:
        c.cover("accepted")


def header_crit(c, how, n):
    """every critical parameter is present"""
    from psion.jose.exceptions import JoseError
    header = {"alg": "HS256"}
    rng = ((97, 122),) if how == "token" else None
    if c.choice("has exp", [False, True]):
        header["exp"] = c.choice("exp", [1, 0, "", "v", False, [], None])
    items = []
    kind = c.choice("kind", KINDS if n == 0 else ["items"])
    if kind == "items":
        for i in range(n):
            k = c.choice(f"item{i}", ["text", "int", "null", "list"])
            items.append(c.str(f"name{i}", 3, ranges=rng) if k == "text" else {"int": c.choice(f"n{i}", [0, 1]), "null": None, "list": ["exp"]}[k])
        header["crit"] = items
    elif kind != "absent":
        header["crit"] = member(c, "crit", kind)
        if kind == "list":
            items = header["crit"]
    err = submit(c, how, header)

    def met(x):
        # the harness branches here on purpose: the header is looked up by name
        if not isinstance(x, str):
            return False
        if x == "":
            return False
        return c.or_(*[c.and_(c.eq(x, k), bool(v)) for k, v in header.items() if k != "crit"], c.eq(x, "crit"))
    ok = kind == "absent" or (isinstance(header.get("crit"), list) and len(items) > 0 and c.and_(*[met(x) for x in items]))
    c.check(c.iff(err is None, ok), "accepted exactly when every critical parameter is there")
    if err is not None:
        c.check(isinstance(err, JoseError), "refused with a library error")
        c.cover("refused")
    else:
        c.cover("accepted")


def header_near(c, how):
    """it is the very parameter that has to be there"""
    from psion.jose.exceptions import JoseError
    name = near(c, "name", "b64x", ((33, 126), (0xC0, 0xFF)))
    header = {"alg": "HS256", "b64x": "v", "crit": c.choice("crit", [[name], ["b64x", name], [name, "b64x"]])}
    if c.choice("flip", [True, False]):
        header = {"alg": "HS256", name: "v", "crit": ["b64x"]}
    err = submit(c, how, header)
    c.check(c.iff(err is None, c.eq(name, "b64x")), "accepted exactly when every critical parameter is there")
    if err is not None:
        c.check(isinstance(err, JoseError), "refused with a library error")
        c.cover("refused")


def header_many(c, how):
    """a long list of critical parameters, every one of them present"""
    from psion.jose.exceptions import JoseError
    header = {"alg": "HS256", **{f"p{i:02d}": i + 1 for i in range(20)}}
    names = [f"p{i:02d}" for i in range(20)]
    at = c.choice("at", [0, 1, 9, 10, 18, 19])
    names[at] = "p0" + c.str("name", 1, 1, ranges=((48, 57), (97, 122)))
    header["crit"] = names
    err = submit(c, how, header)
    c.check(c.iff(err is None, c.isin(names[at], [f"p{i:02d}" for i in range(10)])), "accepted exactly when every critical parameter is there")
    if err is not None:
        c.check(isinstance(err, JoseError), "refused with a library error")
        c.cover("refused")
    else:
        c.cover("accepted")


def header_shape(c):
    """a header is a non-empty object"""
    from psion.jose.exceptions import JoseError
    text = c.choice("text", ["[]", "{}", "null", "1", "true", '"alg"', '["alg"]', "1.5", "", "{", '{"alg": "none"}'])
    token = b64(text.encode()) + b"." + b64(b'{"a": 1}') + b"."
    for api in ("jws", "jwt"):
        v, err = entry(c, api, token, jwk("oct"))
        c.check((err is None) == (text == '{"alg": "none"}'), "only an object with alg")
        c.check(err is None or isinstance(err, JoseError), "refused with a library error")
    c.cover("done")


def refused_again(c, api):
    """what was refused stays refused, what was good stays good"""
    from psion.jose.exceptions import JoseError
    good = b64(b'{"alg": "HS256"}') + b"." + b64(b'{"sub": "a"}')
    good = good + b"." + b64(oracle_sign(c, "HS256", good))
    no = b64(b'{"alg": "HS256"}')
    bad = c.choice("bad", [b"", b"..", b"a", no + b"..", no + b"." + b64(b"[]") + b".", b64(b"{}") + b".YQ.", b64(b'{"alg": 1}') + b".YQ.", b64(b'{"alg": "HS256", "crit": ["x"]}') + b".YQ.", b64(b'{"alg": "HS256", "kid": 1}') + b".YQ.", b64(b'{"alg": "zz"}') + b".YQ.", b64(b'{') + b".YQ.", b"\xff.YQ."])
    steps = c.choice("steps", ["gbgb", "bbg", "bgbb"])
    for k in steps:
        _, err = entry(c, api, good if k == "g" else bad, jwk("oct"))
        c.check(err is None if k == "g" else isinstance(err, JoseError), "each token on its own")
    c.cover("done")


def c05(tier):
    t = tier == "thorough"
    out = [dict(name=f"again-{api}", fn="refused_again", params={"api": api}, covers=["done"]) for api in ("jws", "jwt")]
    for api in ("jws", "jwt"):
        n = 4 if t else 2
        for d in range(4):
            out.append(dict(name=f"octets-{api}-{d}", fn="arbitrary", params={"api": api, "size": [3 if t else 2, n, n, 1], "dots": d}, covers=["refused"]))
    for k in JUNK:
        out.append(dict(name=f"junk-{k}", fn="junk", params={"kind": k}, covers=["refused"]))
    for w in ("header", "payload"):
        for api in ("jws", "jwt"):
            out.append(dict(name=f"deep-{w}-{api}", fn="deep", params={"where": w, "api": api}, covers=["done"]))
    for n in range(0, 6 if t else 4):
        out.append(dict(name=f"segments-{n}", fn="segments", params={"n": n, "size": 3 if t else 2}, covers=["refused"]))
    for how in ("sign", "jwt", "token"):
        out.append(dict(name=f"alg-{how}", fn="header_alg", params={"how": how}, covers=["accepted", "refused"]))
        for name in ("kid", "typ", "cty"):
            out.append(dict(name=f"{name}-{how}", fn="header_text", params={"how": how, "name": name}, covers=["accepted", "refused"]))
        out.append(dict(name=f"alg-{how}-near", fn="header_alg", params={"how": how, "close": True}, covers=["refused"]))
        out.append(dict(name=f"crit-{how}-near", fn="header_near", params={"how": how}, covers=["refused"]))
        out.append(dict(name=f"crit-{how}-many", fn="header_many", params={"how": how}, covers=["accepted", "refused"]))
        for n in (0, 1, 2) if not t else (0, 1, 2, 3):
            out.append(dict(name=f"crit-{how}-{n}", fn="header_crit", params={"how": how, "n": n}, covers=["accepted", "refused"]))
    out.append(dict(name="shape", fn="header_shape", covers=["done"]))
    return out


# ------------------------------------------------------------------ C13
def conforms_sign(c, alg, size, name=None):
    """what psion signs is a signature of that algorithm under RFC 7518"""
    from psion.jose import JsonWebSignature
    c.ec_shapes()
    payload = c.bytes("payload", size)
    token = JsonWebSignature(payload, {"alg": alg}).serialize(jwk(name or alg))
    message, _, sig = token.rpartition(b".")
    raw = base64.urlsafe_b64decode(sig + b"=" * (-len(sig) % 4))
    c.check(c.eq(len(raw), sig_len(alg)), "the signature has the length the algorithm prescribes")
    c.check(c.eq(sig, b64(raw)), "canonical base64url")
    c.check(oracle_verify(c, alg, raw, message, name=name), "an independent verifier accepts it")
    back = JsonWebSignature.deserialize(token, jwk(name or alg, public=True))
    c.check(c.eq(back.payload, payload), "and so does psion")
    c.cover("signed")


def conforms_verify(c, alg, size, name=None):
    """what an independent implementation signs is accepted"""
    from psion.jose import JsonWebSignature
    c.ec_shapes()
    payload = c.bytes("payload", size)
    message = b64(json.dumps({"alg": alg}).encode()) + b"." + b64(payload)
    sig = oracle_sign(c, alg, message, name=name)
    back = JsonWebSignature.deserialize(message + b"." + b64(sig), jwk(name or alg, public=True))
    c.check(c.eq(back.payload, payload), "accepted with its payload")
    c.cover("verified")


def conforms_again(c, first):
    """algorithms do not rub off on one another"""
    from psion.jose import JsonWebSignature
    held = {}

    def key(alg):
        return held.setdefault(key_name(alg), jwk(alg))
    for alg in (first, c.choice("second", ALGS[1:]), first):
        payload = c.bytes("payload" + alg, 1)
        token = JsonWebSignature(payload, {"alg": alg}).serialize(key(alg))
        message, _, sig = token.rpartition(b".")
        raw = base64.urlsafe_b64decode(sig + b"=" * (-len(sig) % 4))
        c.check(c.eq(len(raw), sig_len(alg)) and oracle_verify(c, alg, raw, message), "an independent verifier accepts it")
        back = JsonWebSignature.deserialize(message + b"." + b64(oracle_sign(c, alg, message)), key(alg))
        c.check(c.eq(back.payload, payload), "and psion what another signed")
    c.cover("done")


def conforms_keys(c, alg):
    """nor do keys"""
    from psion.jose import JsonWebSignature
    other = {"oct": "oct", "rsa": "rsa2", "p256": "p256b", "p384": "p384z", "p521": "p521z"}[key_name(alg)]
    for i, (name, secret) in enumerate([(key_name(alg), SECRET), (other, b"quite another secret"), (key_name(alg), SECRET)]):
        # (made anew, or kept)
        key = jwk(name, secret)
        payload = c.bytes(f"payload{i}", 1)
        token = JsonWebSignature(payload, {"alg": alg}).serialize(key)
        message, _, sig = token.rpartition(b".")
        raw = base64.urlsafe_b64decode(sig + b"=" * (-len(sig) % 4))
        c.check(c.eq(len(raw), sig_len(alg)) and oracle_verify(c, alg, raw, message, secret=secret, name=name), "an independent verifier accepts it")
        back = JsonWebSignature.deserialize(message + b"." + b64(oracle_sign(c, alg, message, secret=secret, name=name)), key)
        c.check(c.eq(back.payload, payload), "and psion what another signed")
    c.cover("done")


def c13(tier):
    n = 8 if tier == "thorough" else 2
    out = [dict(name=f"again-{alg}", fn="conforms_again", params={"first": alg}, covers=["done"]) for alg in ALGS[1:]]
    out += [dict(name=f"keys-{alg}", fn="conforms_keys", params={"alg": alg}, covers=["done"]) for alg in ALGS[1:]]
    for alg in ALGS[1:]:
        for name in [None] + {"ES256": ["p256b", "p256z"], "RS256": ["rsa2"], "PS256": ["rsa2"]}.get(alg, []):
            s = f"-{name}" if name else ""
            out.append(dict(name=f"sign-{alg}{s}", fn="conforms_sign", params={"alg": alg, "size": n, "name": name}, covers=["signed"]))
            out.append(dict(name=f"verify-{alg}{s}", fn="conforms_verify", params={"alg": alg, "size": n, "name": name}, covers=["verified"]))
    return out


GOALS = {"C01": c01, "C02": c02, "C03": c03, "C04": c04, "C05": c05, "C13": c13}
