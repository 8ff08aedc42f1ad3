"""JSON Web Token claims: time, configured requirements, registered types."""
import json

from harness.jws import b64, jwk, oracle_sign
from harness.world import long, near

SEC = 10**6
ZONES = [0, 60, -300, 330, 840, -720]


def token_of(c, claims, alg="HS256"):
    message = b64(json.dumps({"alg": alg}).encode()) + b"." + b64(json.dumps(claims).encode())
    return message + b"." + b64(oracle_sign(c, alg, message))


# ------------------------------------------------------------------ C06
def verdict(c, now, exp, nbf, iat):
    return c.and_(
        exp is None or now < exp * SEC,
        nbf is None or now >= nbf * SEC,
        iat is None or now >= iat * SEC,
    )


def judge(c, err, now, exp, nbf, iat):
    from psion.jose.exceptions import ExpiredToken, InvalidJWTClaim, JoseError, NotYetValidToken
    c.check(c.iff(err is None, verdict(c, now, exp, nbf, iat)), "accepted exactly inside its time window")
    if err is None:
        c.cover("accepted")
        return
    c.check(isinstance(err, JoseError), "refused with a library error")
    if isinstance(err, ExpiredToken):
        c.check(exp is not None and now >= exp * SEC, "reported expired only when expired")
    if isinstance(err, NotYetValidToken):
        c.check(nbf is not None and now < nbf * SEC, "reported not yet valid only then")
    if nbf is None and iat is None:
        c.check(isinstance(err, ExpiredToken), "an expired token is reported as expired")
    if exp is None and iat is None:
        c.check(isinstance(err, NotYetValidToken), "a premature token is reported as not yet valid")
    c.cover("refused")


def clock(c, zone):
    now = c.instant("now", 0, 2**32)
    c.set_now(now)
    c.set_tz(zone)
    return now


def window_built(c, names, zone):
    """claims built by the application, any instant, any values"""
    from psion.jose import JsonWebToken
    now = clock(c, zone)
    v = {n: c.int(n, -(2**63), 2**63) if n in names else None for n in ("exp", "nbf", "iat")}
    claims = {"sub": "a", **{n: x for n, x in v.items() if x is not None}}
    _, err = c.attempt(JsonWebToken, claims, {"alg": "HS256"})
    judge(c, err, now, **v)


def window_id_token(c, names, zone):
    """an ID token's claims are judged by the same clock"""
    from psion.oidc import IDToken
    now = clock(c, zone)
    v = {n: c.int(n, -(2**63), 2**63) if n in names else None for n in ("exp", "nbf", "iat")}
    claims = {"sub": "a", **{n: x for n, x in v.items() if x is not None}}
    _, err = c.attempt(IDToken, claims, c.choice("options", [None, {}, {"sub": {"essential": True}}]))
    judge(c, err, now, **v)


def window_decoded(c, names, zone, validate=True):
    """a received token, any instant"""
    from psion.jose import JsonWebToken
    v = {n: c.choice(n, [0, 1, 1609459200, 2**31, -5, 10**13, 2**63, -(10**13)]) if n in names else None for n in ("exp", "nbf", "iat")}
    now = clock(c, zone)
    claims = {"sub": "a", **{n: x for n, x in v.items() if x is not None}}
    tok, err = c.attempt(JsonWebToken.decode, token_of(c, claims), jwk("oct"), "HS256", validate)
    judge(c, err, now, **v)
    if err is None:
        c.check(c.eq(dict(tok.claims), claims), "with its claims")


def window_again(c, how):
    """judged by the clock of the moment, not of an earlier one"""
    from psion.jose import JsonWebToken
    from psion.jose.jwt import JsonWebTokenClaims
    from psion.oidc import IDToken
    v = {n: c.int(n, 0, 2**32) if how != "decoded" else {"exp": 1609459200, "nbf": 1600000000, "iat": 1599999999}[n] for n in c.choice("names", [["exp"], ["nbf"], ["iat"], ["exp", "nbf", "iat"]])}
    v = {n: v.get(n) for n in ("exp", "nbf", "iat")}
    claims = {"sub": "a", **{n: x for n, x in v.items() if x is not None}}
    token = token_of(c, claims) if how == "decoded" else None
    key = jwk("oct")
    kept = c.choice("kept", [True, False])
    for i in range(2):
        now = c.instant(f"now{i}", 0, 2**32)
        c.set_now(now)
        c.set_tz(c.choice(f"tz{i}", [0, -300]))
        given = claims if kept else dict(claims)
        if how == "decoded":
            _, err = c.attempt(JsonWebToken.decode, token, key)
        else:
            _, err = c.attempt({"claims": JsonWebTokenClaims, "id-token": IDToken}[how], given)
        judge(c, err, now, **v)
        c.check(sorted(claims) == sorted(["sub"] + [n for n in v if v[n] is not None]), "the caller's claims are not changed")


def c06(tier):
    out = [dict(name=f"again-{h}", fn="window_again", params={"how": h}, covers=["accepted", "refused"]) for h in ("claims", "decoded", "id-token")]
    sets = [["exp"], ["nbf"], ["iat"], ["exp", "nbf", "iat"], ["exp", "nbf"], ["exp", "iat"], ["nbf", "iat"]]
    for s in sets:
        for z in ZONES if tier == "thorough" else [0, 330, -300] if len(s) != 2 else [0]:
            n = "+".join(s)
            out.append(dict(name=f"built-{n}-{z}", fn="window_built", params={"names": s, "zone": z}, covers=["accepted", "refused"]))
            if len(s) == 1 or tier == "thorough":
                out.append(dict(name=f"decoded-{n}-{z}", fn="window_decoded", params={"names": s, "zone": z}, covers=["accepted", "refused"]))
    out.append(dict(name="id-token", fn="window_id_token", params={"names": ["exp", "nbf", "iat"], "zone": 330}, covers=["accepted", "refused"]))
    out.append(dict(name="unverified", fn="window_decoded", params={"names": ["exp"], "zone": 0, "validate": False}, covers=["accepted", "refused"]))
    return out


# ------------------------------------------------------------------ C07
LOW = ((97, 99),)


def a_value(c, name, kind):
    if kind == "absent":
        return None
    if kind == "text":
        return c.str(name, 1, ranges=LOW)
    if kind == "list":
        return [c.str(name + ".0", 1, 1, ranges=LOW), c.str(name + ".1", 1, ranges=LOW)]
    if kind == "int":
        return c.int(name, 0, 9)
    if kind == "empty":
        return []
    if kind == "object":
        return {"a": c.str(name + ".a", 1, ranges=LOW)}
    return False


def an_option(c, name, parts):
    o = {}
    if "essential" in parts:
        o["essential"] = c.choice(name + ".essential", [True, False])
    if "value" in parts:
        k = c.choice(name + ".value?", ["text", "int", "bool", "object"])
        o["value"] = a_value(c, name + ".value", k)
    if "values" in parts:
        n = c.choice(name + ".values?", [0, 1, 2])
        last = c.choice(name + ".last", ["int", "object"]) if n == 2 else None
        o["values"] = [a_value(c, f"{name}.values{i}", ["text", last][i]) for i in range(n)]
    return o


def same(c, a, b):
    """equality of JSON values of like type; anything else differs"""
    if isinstance(a, list) or isinstance(b, list):
        if not (isinstance(a, list) and isinstance(b, list)) or len(a) != len(b):
            return False
        return c.and_(*[same(c, x, y) for x, y in zip(a, b)])
    if isinstance(a, dict) or isinstance(b, dict):
        return isinstance(a, dict) and isinstance(b, dict) and sorted(a) == sorted(b) and c.and_(*[same(c, a[k], b[k]) for k in a])
    if isinstance(a, bool) and not isinstance(b, bool):
        a = int(a)
    if isinstance(b, bool) and not isinstance(a, bool):
        b = int(b)
    if isinstance(a, str) != isinstance(b, str) or a is None or b is None:
        return False
    return c.eq(a, b)


def satisfied(c, value, o):
    conds = []
    if o.get("essential"):
        conds.append(value is not None)
    if "value" in o:
        conds.append(same(c, value, o["value"]))
    vals = o.get("values")
    if vals:
        hit = [same(c, value, x) for x in vals]
        if isinstance(value, list):
            hit += [same(c, item, x) for item in value for x in vals]
        conds.append(c.or_(*hit))
    return c.and_(*conds)


def required(c, shape, kinds, via):
    """every configured requirement on every claim is enforced"""
    from psion.jose import JsonWebToken
    from psion.jose.exceptions import InvalidJWTClaim
    from psion.jose.jwt import JsonWebTokenClaims
    claims = {"z": "z"}
    options, want = {}, []
    for i, parts in enumerate(shape):
        name = f"c{i}"
        value = a_value(c, name, c.choice(name + ".kind", kinds[i]))
        o = an_option(c, name + ".o", parts)
        if value is not None:
            claims[name] = value
        elif c.choice(name + ".null", [False, True]):
            claims[name] = None
        options[name] = o
        want.append(satisfied(c, value, o))
    if via == "direct":
        _, err = c.attempt(JsonWebTokenClaims, claims, options)
    else:
        a = c.choice("pinned", [("HS256",), ()])
        _, err = c.attempt(JsonWebToken.decode, token_of(c, claims), jwk("oct"), *a, options=options)
    c.check(c.iff(err is None, c.and_(*want)), "accepted exactly when every requirement is met")
    if err is None:
        c.cover("accepted")
    else:
        c.check(isinstance(err, InvalidJWTClaim), "refused as an invalid claim")
        c.cover("refused")


def registered(c, name):
    """requirements on registered claims (iss, aud, sub) are enforced too"""
    from psion.jose import JsonWebToken
    from psion.jose.exceptions import InvalidJWTClaim
    has = c.choice("has", [True, False])
    value = a_value(c, "value", c.choice("kind", ["text", "list"] if name == "aud" else ["text"])) if has else None
    o = an_option(c, "o", ["essential"])
    how = c.choice("how", ["value", "values", "none"])
    if how == "value":
        o["value"] = c.str("want", 1, ranges=LOW)
    elif how == "values":
        o["values"] = [c.str("want0", 1, ranges=LOW), c.str("want1", 1, ranges=LOW)]
    claims = {"z": 1}
    if value is not None:
        claims[name] = value
    _, err = c.attempt(JsonWebToken.decode, token_of(c, claims), jwk("oct"), "HS256", True, {"other": {}, name: o})
    c.check(c.iff(err is None, satisfied(c, value, o)), "accepted exactly when the requirement is met")
    c.cover("accepted", err is None)
    if err is not None:
        c.check(isinstance(err, InvalidJWTClaim), "refused as an invalid claim")
        c.cover("refused")


def near_required(c, via):
    """only the very value will do, only the very claim counts"""
    from psion.jose import JsonWebToken
    from psion.jose.exceptions import InvalidJWTClaim
    from psion.jose.jwt import JsonWebTokenClaims
    name, word, some = c.choice("claim", ["iss", "aud", "other"]), "https://as.example", ((33, 126), (0xC0, 0xFF))
    side = c.choice("side", ["claim", "option", "name"])
    if side == "name":
        # a claim of nearly that name
        named = near(c, "named", name, some)
        claims, o, ok = {named: word, "z": 1}, {"essential": True}, c.eq(named, name)
    else:
        text = near(c, "text", word, some)
        have, want = (text, word) if side == "claim" else (word, text)
        claims = {name: have if name == "iss" else ["x", have], "z": 1}
        o = {"value": want} if name == "iss" else {"values": [want, "y"]}
        ok = c.eq(have, want)
    if via == "direct":
        _, err = c.attempt(JsonWebTokenClaims, claims, {name: o})
    else:
        _, err = c.attempt(JsonWebToken.decode, token_of(c, claims), jwk("oct"), "HS256", options={name: o})
    c.check(c.iff(err is None, ok), "accepted exactly when the requirement is met")
    if err is not None:
        c.check(isinstance(err, InvalidJWTClaim), "refused as an invalid claim")
        c.cover("refused")
    else:
        c.cover("accepted")


def many_required(c, via):
    """the last of many requirements, the last of many values"""
    from psion.jose import JsonWebToken
    from psion.jose.exceptions import InvalidJWTClaim
    from psion.jose.jwt import JsonWebTokenClaims
    from psion.oidc import IDToken
    claims = {f"c{i}": f"v{i}" for i in range(16)}
    options = {f"c{i}": [{"essential": True}, {"value": f"v{i}"}, {"values": [f"v{j}" for j in range(20)]}, {}][i % 4] for i in range(16)}
    at = c.choice("at", [0, 1, 7, 8, 15])
    kind = c.choice("kind", ["essential", "value", "values", "items", "long"])
    name = f"c{at}"
    if kind == "essential":
        options[name], has = {"essential": True}, c.choice("has", [True, False])
        if not has:
            claims.pop(name)
        want = has
    elif kind == "value":
        claims[name], options[name] = c.str("claim", 2, ranges=LOW), {"value": c.str("want", 2, ranges=LOW)}
        want = c.eq(claims[name], options[name]["value"])
    elif kind == "values":
        claims[name] = c.str("claim", 1, 1, ranges=LOW)
        options[name] = {"values": [f"v{i}" for i in range(12)] + [c.str("want", 1, 1, ranges=LOW)]}
        want = c.eq(claims[name], options[name]["values"][12])
    elif kind == "items":
        claims[name] = [f"x{i}" for i in range(12)] + [c.str("claim", 1, 1, ranges=LOW)]
        options[name] = {"values": [f"v{i}" for i in range(12)] + [c.str("want", 1, 1, ranges=LOW)]}
        want = c.eq(claims[name][12], options[name]["values"][12])
    else:
        claims[name], options[name] = long(c, "claim", 300, LOW), {"essential": True, "value": long(c, "want", 300, LOW)}
        want = c.eq(claims[name], options[name]["value"])
    if via == "token":
        _, err = c.attempt(JsonWebToken.decode, token_of(c, claims), jwk("oct"), "HS256", options=options)
    else:
        _, err = c.attempt(JsonWebTokenClaims if via == "direct" else IDToken, claims, options)
    c.check(c.iff(err is None, want), "accepted exactly when every requirement is met")
    if err is None:
        c.cover("accepted")
    else:
        c.check(isinstance(err, InvalidJWTClaim), "refused as an invalid claim")
        c.cover("refused")


def required_again(c, via):
    """the options of one call are not those of the next"""
    from psion.jose import JsonWebToken
    from psion.jose.exceptions import InvalidJWTClaim
    from psion.jose.jwt import JsonWebTokenClaims
    from psion.oidc import IDToken
    claims = {"z": "z", "a": c.str("claim", 1, ranges=LOW)}
    token = token_of(c, claims) if via == "token" else None
    key = jwk("oct")
    shared = {"a": {"value": "a"}}
    for i in range(2):
        how = c.choice(f"how{i}", ["none", "empty", "essential a", "essential b", "value", "values", "shared"])
        want = c.str(f"want{i}", 1, ranges=LOW)
        o = {"none": None, "empty": {}, "essential a": {"a": {"essential": True}}, "essential b": {"b": {"essential": True}}, "value": {"a": {"value": want}}, "values": {"a": {"values": ["q", want]}}, "shared": shared}[how]
        if via == "token":
            _, err = c.attempt(JsonWebToken.decode, token, key, "HS256", options=o)
        else:
            _, err = c.attempt(JsonWebTokenClaims if via == "direct" else IDToken, dict(claims), o)
        ok = {"essential b": False, "value": c.eq(claims["a"], want), "values": c.eq(claims["a"], want), "shared": c.eq(claims["a"], "a")}.get(how, True)
        c.check(c.iff(err is None, ok), "accepted exactly when every requirement is met")
        c.check(err is None or isinstance(err, InvalidJWTClaim), "refused as an invalid claim")
        c.check(shared == {"a": {"value": "a"}}, "the caller's options are not changed")
        c.cover("accepted" if err is None else "refused")


def c07(tier):
    out = [dict(name=f"again-{v}", fn="required_again", params={"via": v}, covers=["accepted", "refused"]) for v in ("direct", "token", "id-token")]
    every = ["absent", "text", "list", "int", "empty", "bool", "object"]
    for via in ("direct", "token"):
        for p in (["essential"], ["value"], ["values"], ["essential", "value"], ["essential", "values"], ["value", "values"], ["essential", "value", "values"]):
            out.append(dict(name=f"{via}-{'.'.join(p)}", fn="required", params={"shape": [p], "kinds": [every], "via": via}, covers=["refused", "accepted"]))
        kinds = [["absent", "text", "list"], ["absent", "text", "list"]]
        for a, b in ((["values"], ["essential"]), (["values"], ["value"]), (["values"], ["values"]), (["value"], ["values"]), (["essential"], ["values"]), (["essential", "values"], ["essential", "value"])):
            if via == "direct" or tier == "thorough":
                out.append(dict(name=f"{via}-{'.'.join(a)}+{'.'.join(b)}", fn="required", params={"shape": [a, b], "kinds": kinds, "via": via}, covers=["refused", "accepted"]))
        if tier == "thorough":
            out.append(dict(name=f"{via}-three", fn="required", params={"shape": [["values"], ["value"], ["essential"]], "kinds": [["text", "list"], ["text"], ["absent", "text"]], "via": via}, covers=["refused", "accepted"]))
    for via in ("direct", "token"):
        out.append(dict(name=f"near-{via}", fn="near_required", params={"via": via}, covers=["accepted", "refused"]))
    for via in ("direct", "token", "id-token"):
        out.append(dict(name=f"many-{via}", fn="many_required", params={"via": via}, covers=["accepted", "refused"]))
    for n in ("iss", "aud", "sub", "jti"):
        out.append(dict(name=f"registered-{n}", fn="registered", params={"name": n}, covers=["accepted", "refused"]))
    return out


# ------------------------------------------------------------------ C08
KINDS = ["text", "int", "null", "bool", "list", "texts", "object", "float", "absent", "bytes"]
COMPANY = {"iss": "i", "sub": "s", "aud": ["a", "b"], "exp": 4102444800, "nbf": 1, "iat": 0, "jti": "j"}
ACCEPT = {"iss": ("text",), "sub": ("text",), "jti": ("text",), "aud": ("text", "texts"), "exp": ("int",), "iat": ("int",), "nbf": ("int",)}


def typed_value(c, kind, direct):
    if kind == "text":
        return c.str("text", 2, ranges=None if direct else ((48, 57), (97, 122)))
    if kind == "int":
        return c.choice("int", [0, 1, -1, 1609459200, 4102444800])
    if kind == "list":
        n = c.choice("n", [1, 2, 3, 17])
        bad = c.choice("bad", list(range(n))) if n < 17 else 16
        return [c.choice("x", [1, 0, None, True, ["a"], {}, 1.5]) if i == bad else c.str("item", 1, ranges=((97, 122),)) if n < 17 else f"a{i}" for i in range(n)]
    if kind == "texts":
        return [c.str("item", 1, ranges=((97, 122),)) for _ in range(c.choice("n", [0, 1, 2]))]
    if kind == "bool":
        return c.choice("bool", [True, False])
    if kind == "object":
        return c.choice("object", [{}, {"a": 1}])
    if kind == "bytes":
        return c.bytes("raw", 1)
    return 1.5 if kind == "float" else None


def typed(c, name, via):
    """registered claims have their registered type or the token is refused"""
    from psion.jose import JsonWebToken
    from psion.jose.exceptions import InvalidJWTClaim, JoseError
    kind = c.choice("kind", KINDS)
    value = typed_value(c, kind, via != "token")
    if kind == "bytes":
        c.assume(via != "token")
    claims = {"z": {"x": None, "y": ["a", None, {"w": None}]}}
    if c.choice("company", [False, True]):
        claims.update({k: x for k, x in COMPANY.items() if k != name})
    if kind != "absent":
        claims[name] = value
    if via == "direct":
        v, err = c.attempt(JsonWebToken, claims, {"alg": "HS256"})
    elif via == "id-token":
        from psion.oidc import IDToken
        v, err = c.attempt(IDToken, claims)
        if err is None:
            v.claims = v
    else:
        v, err = c.attempt(JsonWebToken.decode, token_of(c, claims), jwk("oct"), "HS256", c.choice("validate", [True, False]))
    ok = kind in ("null", "absent") or kind in ACCEPT[name]
    if ok and kind == "int":
        ok = value > 1609459200 if name == "exp" else value <= 1609459200
    c.check((err is None) == bool(ok), "accepted exactly with the registered type")
    if err is None:
        c.cover("accepted")
        c.check(c.eq(dict(v.claims), {k: x for k, x in claims.items() if x is not None}), "the claims are kept")
    else:
        c.check(isinstance(err, JoseError), "refused with a library error")
        if kind != "int":
            c.check(isinstance(err, InvalidJWTClaim), "refused as an invalid claim")
        c.cover("refused")


def claims_object(c):
    """claims are a non-empty object"""
    from psion.jose import JsonWebToken
    from psion.jose.exceptions import InvalidJWTClaim
    text = c.choice("text", ["{}", "[]", "null", "0", "1", "true", "\"a\"", "[1]", "[{}]", "1.5", "", "{", "nul", "\xff", '{"a": 1}'])
    raw = b"\xff\xfe" if text == "\xff" else text.encode()
    message = b64(b'{"alg": "HS256"}') + b"." + b64(raw)
    token = message + b"." + b64(oracle_sign(c, "HS256", message))
    _, err = c.attempt(JsonWebToken.decode, token, jwk("oct"), "HS256")
    c.check((err is None) == (text == '{"a": 1}'), "accepted exactly with an object of claims")
    c.check(err is None or isinstance(err, InvalidJWTClaim), "refused as an invalid claim")
    bad = c.choice("claims", [None, {}, [], "a", 1, [("a", 1)], ()])
    _, err = c.attempt(JsonWebToken, bad, {"alg": "HS256"})
    c.check(isinstance(err, InvalidJWTClaim), "nor can one be built without claims")
    c.cover("done")


def typed_again(c, via):
    """one claims set does not vouch for the next, nor spoil it"""
    from psion.jose import JsonWebToken
    from psion.oidc import IDToken
    for i in range(2):
        name = c.choice(f"name{i}", ["iss", "aud", "exp", "jti"])
        good = c.choice(f"good{i}", [True, False])
        value = {"iss": "i", "aud": ["a", "b"], "exp": 4102444800, "jti": "j"}[name] if good else c.choice(f"value{i}", [["a", 1] if name == "aud" else 1.5, True, {"a": 1}])
        claims = {"z": 1, name: value}
        if via == "token":
            v, err = c.attempt(JsonWebToken.decode, token_of(c, claims), jwk("oct"))
            v = v and v.claims
        else:
            v, err = c.attempt(IDToken, claims) if via == "id-token" else c.attempt(JsonWebToken, claims, {"alg": "HS256"})
            v = v.claims if via == "direct" and v is not None else v
        c.check((err is None) == good, "accepted exactly with the registered type")
        if err is None:
            c.check(c.eq(dict(v), claims), "the claims are kept")
        c.cover("accepted" if good else "refused")


def c08(tier):
    out = [dict(name=f"again-{v}", fn="typed_again", params={"via": v}, covers=["accepted", "refused"]) for v in ("direct", "token", "id-token")]
    out += [dict(name=f"{n}-{via}", fn="typed", params={"name": n, "via": via}, covers=["accepted", "refused"]) for n in ACCEPT for via in ("direct", "token", "id-token")]
    out.append(dict(name="object", fn="claims_object", covers=["done"]))
    return out


GOALS = {"C06": c06, "C07": c07, "C08": c08}
