"""Codecs and small web helpers (psion.webtools)."""

B64URL = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_"


def b64_bytes(c, hi=8):
    from psion.webtools import base64url_decode, base64url_encode
    data = c.bytes("data", hi)
    out = base64url_encode(data)
    c.check(isinstance(out, bytes), "base64url output is bytes")
    n = len(data)
    c.check(c.eq(len(out), (n * 4 + 2) // 3), "base64url output has no padding and the exact length")
    for ch in out:
        c.check(c.or_(c.and_(ch >= 65, ch <= 90), c.and_(ch >= 97, ch <= 122), c.and_(ch >= 48, ch <= 57), ch == 45, ch == 95), "only base64url characters")
    c.check(c.eq(base64url_decode(out), data), "base64url round trip")
    c.cover("non-empty", len(data) > 0)


def b64_str(c, hi=4):
    from psion.webtools import base64url_decode, base64url_encode, to_bytes, to_string
    s = c.str("text", hi)
    enc = base64url_encode(s)
    c.check(c.eq(to_string(base64url_decode(enc)), s), "text survives encoding and decoding")
    c.check(c.eq(to_string(to_bytes(s)), s), "text to bytes and back")
    c.cover("wide", len(s) > 2)


def b64_int(c, lo=0, hi=2**64):
    from psion.webtools import b64_to_int, base64url_decode, int_to_b64
    n = c.int("n", lo, hi)
    out = int_to_b64(n)
    c.check(c.eq(b64_to_int(out), n), "integer round trip (bytes)")
    raw = base64url_decode(out)
    c.check(len(raw) >= 1, "at least one octet")
    c.check(c.or_(len(raw) == 1, raw[0] != 0), "minimal number of octets")
    c.cover("one octet", n < 256)
    c.cover("many octets", n > hi // 2)


def b64_negative(c, lo=-(2**64)):
    from psion.webtools import int_to_b64
    n = c.int("n", lo, -1)
    v, e = c.attempt(int_to_b64, n)
    c.check(isinstance(e, ValueError), "negative integers are refused")
    c.cover("refused", e is not None)


def b64_long(c, sizes):
    """long values are encoded in full"""
    from harness.world import long
    from psion.webtools import base64url_decode, base64url_encode, to_bytes, to_string
    n = c.choice("size", sizes)
    raw = c.bytes("head", 2, 2) + b"q" * (n // 2) + c.bytes("mid", 2, 2) + b"q" * (n - n // 2) + c.bytes("tail", 2, 2)
    out = base64url_encode(raw)
    c.check(len(out) == ((n + 6) * 4 + 2) // 3 and c.only(out, URLSAFE), "unpadded base64url")
    c.check(c.eq(base64url_decode(out), raw), "base64url round trip")
    text = long(c, "text", n + 3, ((0, 127),), "\u00e9")
    c.check(c.eq(to_string(base64url_decode(base64url_encode(text))), text), "text survives encoding and decoding")
    c.check(c.eq(to_string(to_bytes(text)), text), "text to bytes and back")
    c.cover("done")


def b64_again(c):
    """each value by itself, whatever was encoded or decoded before"""
    from psion.webtools import b64_to_int, base64url_decode, base64url_encode, int_to_b64
    a, b = c.bytes("a", 2), c.bytes("b", 2)
    x, y = c.int("x", 0, 1 << 20), c.int("y", 0, 1 << 20)
    ea, eb, ex, ey = base64url_encode(a), base64url_encode(b), int_to_b64(x), int_to_b64(y)
    again = base64url_encode(a), int_to_b64(x)
    c.check(c.eq(again, (ea, ex)), "the same again")
    for enc, raw in ((ea, a), (eb, b), (again[0], a)):
        c.check(c.eq(base64url_decode(enc), raw), "each its own")
    for enc, n in ((ex, x), (ey, y), (again[1], x)):
        c.check(c.eq(b64_to_int(enc), n), "each its own")
    c.cover("done")


# ------------------------------------------------------------------ C29
URLSAFE = ((65, 90), (97, 122), (48, 57), (45, 45), (95, 95))


def fresh(c, make, size):
    """what make() makes has size unpredictable bits, from a proper source, also
    for who knows the other values"""
    values, bits = c.unpredictable(make)
    c.check(not c.secure_random()[1], "no insecure random source")
    for b in bits:
        c.check(b >= size * 0.995, "as many unpredictable bits as asked for, anew every time")
    return values


def secret_token_(c, sizes):
    """length, alphabet, and a cryptographic source behind every character"""
    from psion.webtools import secret_token
    n = c.choice("size", sizes)
    size = 32 if n is None else n
    for tok in fresh(c, lambda: [secret_token() if n is None else secret_token(n) for _ in range(3)], 6 * size):
        c.check(isinstance(tok, str) and c.eq(len(tok), size), "as long as asked for")
        c.check(c.only(tok, URLSAFE), "URL safe characters only")
    c.cover("made")


def oct_generate(c, sizes):
    """generated symmetric keys are as long as asked for and unpredictable"""
    import base64
    from psion.jose import JsonWebKey
    n = c.choice("size", sizes)
    size = 32 if n is None else n
    extra = c.choice("extra", [{}, {"kid": "k", "alg": "HS256"}])
    for raw in fresh(c, lambda: [base64.b64decode((JsonWebKey.generate("oct", **extra) if n is None else JsonWebKey.generate("oct", n, **extra)).export()) for _ in range(3)], 8 * size):
        c.check(len(raw) == size, "as long as asked for")
    c.cover("made")


def oct_generate_short(c):
    """short symmetric keys are never generated"""
    from psion.jose import JsonWebKey
    from psion.jose.exceptions import InvalidKey
    n = c.int("size", 1, 31)
    v, e = c.attempt(JsonWebKey.generate, "oct", n)
    c.check(isinstance(e, InvalidKey), "refused")
    c.cover("refused", e is not None)


def code_secret(c):
    """authorization codes are unpredictable and fresh"""
    from harness.world import Client, User, World, request
    states = ["s", c.str("state", 1), "s"]
    challenge = c.str("challenge", 43, 43, ranges=((97, 122),))

    def make():
        w = World(c, clients=[Client("a", uris=["https://c.example/"], scopes=["a"], grants=["authorization_code"])])
        for i, state in enumerate(states):
            fields = [("response_type", "code"), ("client_id", "a"), ("redirect_uri", "https://c.example/"), ("scope", "a"), ("state", state),
                      ("code_challenge", challenge), ("code_challenge_method", "plain")]
            c.run(w.provider.authorize(request(c, "GET", query=c.form_all(fields), user=User("u"))))
            c.check(len(w.of("save")) == i + 1, "a code is issued")
        return [x[1] for x in w.of("save")]
    for code in fresh(c, make, 128):
        c.check(c.only(code, URLSAFE), "URL safe characters only")
        c.check(len(code) >= 22, "long enough to carry them")
    c.cover("issued")


# ------------------------------------------------------------------ C30
def clean(c, kind):
    """a mapping without nulls never shows one"""
    from psion.webtools import FullDict
    v = [c.choice(f"v{i}", [None, 0, "", False, [], {}, 0.0, "x", "text"]) for i in range(3)]
    v = [c.str("text", 2) if x == "text" else x for x in v]
    k = c.choice("key", ["a", "b", "new"])
    first = {"a": v[0], "b": v[1]}
    before = dict(first)
    if kind == "init":
        d = FullDict(first, **{k: v[2]})
        want = {**first, k: v[2]}
    elif kind == "kwargs":
        d = FullDict(**first)
        d[k] = v[2]
        want = {**first, **({k: v[2]} if v[2] is not None else {})}
    elif kind == "setitem":
        d = FullDict(first)
        d[k] = v[2]
        want = {**first, **({k: v[2]} if v[2] is not None else {})}
    elif kind == "update":
        d = FullDict(first)
        d.update({k: v[2]})
        want = {**first, **({k: v[2]} if v[2] is not None else {})}
    else:
        d = FullDict(first)
        d.update(**{k: v[2]})
        want = {**first, **({k: v[2]} if v[2] is not None else {})}
    want = {x: y for x, y in want.items() if y is not None}
    c.check(None not in d.values(), "no null value")
    c.check(sorted(d) == sorted(want), "every other member is there")
    c.check(c.and_(*[c.eq(d[x], y) for x, y in want.items()]), "with its value")
    c.check(c.eq(first, before), "the given mapping is left alone")
    c.cover("done")


def crowded(c):
    """many members, long values"""
    from harness.world import body_of, long
    from psion.oauth2.models import JSONResponse
    from psion.webtools import FullDict, urlencode
    src = {f"k{i}": [None, i, f"v{i}", "", False][i % 5] for i in range(40)}
    src["last"] = long(c, "value", 1000, ((32, 126),))
    want = {k: v for k, v in src.items() if v is not None}
    before = dict(src)
    c.check(c.eq(dict(FullDict(src)), want), "every member that has a value")
    c.check(c.eq(body_of(JSONResponse(200, {}, FullDict(src))), want), "on the wire too")
    c.check(c.eq(src, before), "the given mapping is left alone")
    from urllib.parse import parse_qsl, urlsplit
    got = dict(parse_qsl(urlsplit(urlencode("https://c.example/", **{k: v for k, v in src.items() if isinstance(v, str)})).query, keep_blank_values=True))
    c.check(c.eq(got, {k: v for k, v in src.items() if isinstance(v, str)}), "and in a redirect")
    c.cover("done")


def apart(c):
    """mappings, errors and answers share nothing"""
    from harness.world import body_of
    from psion.oauth2.exceptions import InvalidGrant, InvalidRequest
    from psion.oauth2.models import JSONResponse, RedirectResponse, Response
    from psion.webtools import FullDict, urlencode
    a, b = c.str("a", 1), c.str("b", 1)
    one, two = FullDict(x=a), FullDict(y=b)
    one.update(z=a)
    one["w"] = None
    c.check(c.eq(dict(two), {"y": b}) and c.eq(dict(one), {"x": a, "z": a}) and dict(FullDict()) == {}, "each mapping its own members")
    e1, e2, e3 = InvalidRequest(description=a, state=b), InvalidRequest(), InvalidGrant(state=a)
    c.check(c.eq(dict(e1.dump()), {"error": "invalid_request", "error_description": a, "state": b}) and dict(e2.dump()) == {"error": "invalid_request"} and c.eq(dict(e3.dump()), {"error": "invalid_grant", "state": a}), "each error")
    e1.dump()["error"] = "changed"
    c.check(e1.dump()["error"] == "invalid_request", "however it was used")
    r1, r2 = JSONResponse(400, {"A": "1"}, {"m": a}), JSONResponse(200, {"B": "2"}, {"n": b})
    r1.headers["C"] = "3"
    r3, r4 = JSONResponse(), Response()
    c.check(c.eq(body_of(r2), {"n": b}) and r2.headers == {"B": "2", "Content-Type": "application/json"} and r2.status_code == 200, "each answer")
    c.check("A" not in r3.headers and "C" not in r3.headers and "m" not in str(r3.body) and "A" not in r4.headers and "C" not in r4.headers, "and later ones")
    c.check(c.eq(body_of(r1), {"m": a}) and r1.headers["A"] == "1", "as it was made")
    l1, l2 = RedirectResponse("https://a.example/"), RedirectResponse("https://b.example/")
    c.check(l1.headers["Location"] == "https://a.example/" and l2.headers["Location"] == "https://b.example/", "each redirect")
    u1, u2, u3 = urlencode("https://a.example/", x="1"), urlencode("https://a.example/", y="2"), urlencode("https://b.example/", x="1")
    c.check((u1, u2, u3) == ("https://a.example/?x=1", "https://a.example/?y=2", "https://b.example/?x=1"), "each location")
    c.cover("done")


def nested(c):
    """the mapping does not share mutable values with the one it was made from"""
    from psion.webtools import FullDict
    s = c.str("s", 2)
    src = {"a": [s], "b": {"x": s}}
    deep = {"a": [None, s, {"x": None, "y": s}, []], "b": {"x": None, "y": [None], "z": {"w": None}}, "c": None}
    for made in (FullDict(deep), FullDict(**deep), FullDict({}, **deep)):
        c.check(c.eq(dict(made), {k: deep[k] for k in "ab"}), "what is inside a value is its own business")
    c.check(c.eq(deep["b"], {"x": None, "y": [None], "z": {"w": None}}), "the given mapping is left alone")
    d = FullDict(src)
    src["a"].append("later")
    src["b"]["x"] = "later"
    c.check(c.eq(d, {"a": [s], "b": {"x": s}}), "later changes do not show")
    c.cover("done")


def responses_clean(c, which):
    """error and token responses carry no null member"""
    from harness.world import body_of
    from psion.oauth2 import exceptions as X
    from psion.oauth2.models import JSONResponse, Response
    d = {}
    for k in ("description", "uri", "state"):
        t = c.choice(k, ["text", None])
        d[k] = c.str(k + ".text", 1) if t else None
    name = c.choice("error", ["InvalidRequest", "InvalidClient", "InvalidGrant", "UnauthorizedClient", "AccessDenied", "UnsupportedResponseType", "UnsupportedGrantType", "UnsupportedTokenType", "InvalidScope", "ServerError", "TemporarilyUnavailable"])
    err = getattr(X, name)(**d)
    out = err.dump()
    want = {"error": CODES[name], **{k: v for k, v in (("error_description", d["description"]), ("error_uri", d["uri"]), ("state", d["state"])) if v is not None}}
    c.check(c.eq(dict(out), want), "exactly the members that have a value")
    if which == "json":
        resp = JSONResponse(400, {"X": None, "Y": "y"}, out)
        c.check(c.eq(body_of(resp), want), "and so on the wire")
        c.check("X" not in resp.headers and resp.headers["Y"] == "y" and resp.headers["Content-Type"] == "application/json", "no null header")
    c.cover("done")


CODES = {"InvalidRequest": "invalid_request", "InvalidClient": "invalid_client", "InvalidGrant": "invalid_grant", "UnauthorizedClient": "unauthorized_client",
         "AccessDenied": "access_denied", "UnsupportedResponseType": "unsupported_response_type", "UnsupportedGrantType": "unsupported_grant_type",
         "UnsupportedTokenType": "unsupported_token_type", "InvalidScope": "invalid_scope", "ServerError": "server_error", "TemporarilyUnavailable": "temporarily_unavailable"}


GOALS = {
    "C29": lambda tier: [
        dict(name="token", fn="secret_token_", params={"sizes": [None, 1, 2, 8, 64] + ([16, 31, 128, 256] if tier == "thorough" else [])}, covers=["made"]),
        dict(name="oct", fn="oct_generate", params={"sizes": [None, 32, 33, 64] + ([48, 100, 128] if tier == "thorough" else [])}, covers=["made"]),
        dict(name="oct-short", fn="oct_generate_short", covers=["refused"]),
        dict(name="code", fn="code_secret", covers=["issued"]),
    ],
    "C30": lambda tier: [dict(name=f"clean-{k}", fn="clean", params={"kind": k}, covers=["done"]) for k in ("init", "kwargs", "setitem", "update", "update-kwargs")] + [
        dict(name="nested", fn="nested", covers=["done"]),
        dict(name="crowded", fn="crowded", covers=["done"]),
        dict(name="apart", fn="apart", covers=["done"]),
        dict(name="errors", fn="responses_clean", params={"which": "dump"}, covers=["done"]),
        dict(name="json", fn="responses_clean", params={"which": "json"}, covers=["done"]),
    ],
    "C09": lambda tier: [
        dict(name="bytes", fn="b64_bytes", params={"hi": 8 if tier == "quick" else 24}, covers=["non-empty"]),
        dict(name="text", fn="b64_str", params={"hi": 3 if tier == "quick" else 6}, covers=["wide"]),
        dict(name="int", fn="b64_int", params={"hi": 2**(64 if tier == "quick" else 521)}, covers=["one octet", "many octets"]),
        dict(name="int-long", fn="b64_int", params={"lo": 2**500, "hi": 2**521}, covers=["many octets"]),
        dict(name="long", fn="b64_long", params={"sizes": [57, 58, 59, 60, 250, 1000, 4099]}, covers=["done"]),
        dict(name="again", fn="b64_again", covers=["done"]),
        dict(name="negative", fn="b64_negative", covers=["refused"]),
    ],
}
