"""OpenID Connect on top of the code grant, and what hooks may touch."""
import base64
import json

from harness.authz import query_of
from harness.jws import jwk
from harness.tokens import LATER, NOW, T0, T1, U1, WORD, drive_two
from harness.world import ISSUER, Client, Code, User, World, body_of, long, near, odd, request

SIGNERS = ["HS256", "HS384", "HS512", "RS256", "RS384", "RS512", "ES256", "ES384", "ES512", "PS256", "PS384", "PS512"]


def half(c, alg, token):
    d = c.sha("sha" + alg[2:], token.encode("ascii"))
    return base64.urlsafe_b64encode(d[: len(d) // 2]).rstrip(b"=").decode("ascii")


# ------------------------------------------------------------------ C33
def half_hash(c, alg, size):
    """left half of the digest the algorithm names, as base64url"""
    from psion.webtools import create_half_hash
    tok = c.str("token", size, ranges=((32, 126),)) if size < 20 else long(c, "token", size, ((32, 126),))
    got = create_half_hash(tok, alg)
    c.check(isinstance(got, str) and len(got) == {"256": 22, "384": 32, "512": 43}[alg[2:]], "half as many octets as the digest")
    c.check(c.eq(got, half(c, alg, tok)), "the left half")
    c.cover("done")


def half_hash_again(c):
    """each token by itself"""
    from psion.webtools import create_half_hash
    a, b = c.str("a", 2, ranges=((32, 126),)), c.str("b", 2, ranges=((32, 126),))
    one, two = c.choice("one", SIGNERS), c.choice("two", SIGNERS)
    for tok, alg in ((a, one), (b, two), (a, two), (a, one)):
        c.check(c.eq(create_half_hash(tok, alg), half(c, alg, tok)), "its own half")
    c.cover("done")


def c33(tier):
    return [dict(name=a, fn="half_hash", params={"alg": a, "size": 4 if tier == "quick" else 12}, covers=["done"]) for a in SIGNERS] + [dict(name="again", fn="half_hash_again", covers=["done"])] + [
        dict(name=f"long-{a}", fn="half_hash", params={"alg": a, "size": 1500}, covers=["done"]) for a in ("RS256", "ES384", "PS512")]


# ------------------------------------------------------------------ C27
SCOPES = [["openid"], ["a", "openid"], ["openid", "a"], ["a"], ["openidx"], ["x-openid"], ["OpenID"], ["a", "openidx"]]


def issue(c, alg, vary, lifespan=36000):
    """an ID token comes exactly with openid, says who, for whom, from whom,
    until when, and is signed with the server's key"""
    from psion.oauth2.grants import AuthorizationCodeGrant
    from psion.oidc import AuthorizationCodeFlow
    key = jwk(alg, kid="k1")
    if "time" in vary:
        c.set_tz(c.choice("tz", [0, 330, -300]))
        now = c.instant("now", T0, 1609459200)
    else:
        now = NOW * 10**6
    c.set_now(now)
    scopes = c.choice("scopes", SCOPES) if "scopes" in vary else ["openid"]
    nonce = (c.choice("nonce", [None, "text"]) and c.str("nonce.text", c.q(1, 2), 1)) if "nonce" in vary else "n"
    who = c.str("sub", c.q(1, 2), 1, ranges=WORD) if "sub" in vary else "u"
    client = Client(c.str("id", c.q(1, 2), 1, ranges=WORD) if "sub" in vary else "m", None, "none", uris=[U1], scopes=sorted({s for x in SCOPES for s in x}), grants=["authorization_code"])
    info = {"sub": who, "name": c.str("name", c.q(1, 2))} if "sub" in vary else {"sub": who}
    if "long" in vary:
        nonce, who = long(c, "nonce", 300, ((33, 126),)), long(c, "sub", 200, WORD)
        client.id = long(c, "id", 90, WORD)
        info = {"sub": who, **{f"claim{i}": [f"value{i}", i, [i], {"a": i}, False][i % 5] for i in range(30)}}
        scopes = [f"scope{i}" for i in range(20)] + ["openid"]
    if "odd" in vary:
        what = c.choice("what", ["nonce", "sub", "id", "claim", "scope"])
        if what == "nonce":
            nonce = odd(c, "nonce")
        elif what == "sub":
            info = {"sub": odd(c, "sub")}
        elif what == "id":
            client.id = odd(c, "id")
        elif what == "claim":
            info["name"] = odd(c, "name")
        else:
            scopes = [near(c, "scope", "openid", ((33, 126), (0xC0, 0xFF)))]
    w = World(c, clients=[client], users=[User("u")], codes=[Code("code", client.id, "u", U1, scopes, "v" * 43, "plain", LATER, nonce)], scopes=sorted({s for x in SCOPES for s in x}),
              hooks=[(AuthorizationCodeGrant, AuthorizationCodeFlow)], key={"key": key, "alg": alg}, userinfo=lambda u: info, id_lifespan=lifespan)
    f = [("grant_type", "authorization_code"), ("client_id", client.id), ("code", "code"), ("redirect_uri", U1), ("code_verifier", "v" * 43)]
    given = dict(info)
    resp = c.run(w.provider.token(request(c, form=c.form_all(f))))
    c.check(resp.status_code == 200, "redeemed")
    c.check(c.eq(info, given), "the user's data are left as they were")
    body = body_of(resp)
    c.check(c.iff("id_token" in body, c.isin("openid", scopes)), "an ID token exactly when openid was granted")
    c.check(c.eq(w.of("userinfo"), [("userinfo", w.users[0], scopes)] if "id_token" in body else []), "the user's claims, for the scopes granted")
    c.check(body["access_token"] == "at1" and c.eq(body["scope"], " ".join(scopes)) and body["token_type"] == "Bearer", "next to the access token")
    if "id_token" not in body:
        c.cover("no ID token")
        return
    head, claims = verify(c, body["id_token"], alg)
    c.check(c.eq(head, {"alg": alg, "typ": "JWT", "kid": "k1"}), "naming the server's key")
    sec = now // 10**6
    want = {"iss": ISSUER, "aud": client.id, "iat": sec, "exp": sec + lifespan, "at_hash": half(c, alg, "at1"), **info}
    if nonce is not None:
        want["nonce"] = nonce
    c.check(sorted(claims) == sorted(want), "the claims due")
    for k, v in want.items():
        c.check(c.eq(claims[k], v), f"claim {k}")
    c.cover("ID token")


def b64d(text):
    return base64.urlsafe_b64decode(text + "=" * (-len(text) % 4))


def verify(c, token, alg):
    """check the signature without psion where that is possible"""
    from psion.jose import JsonWebSignature
    parts = token.split(".")
    c.check(len(parts) == 3, "a signed token")
    if alg.startswith("HS"):
        from harness.jws import SECRET
        c.check(c.eq(b64d(parts[2]), c.hmac("sha" + alg[2:], SECRET, (parts[0] + "." + parts[1]).encode("ascii"))), "signed with the server's key")
    else:
        _, err = c.attempt(JsonWebSignature.deserialize, token.encode("ascii"), jwk(alg, public=True, kid="k1"), alg)
        c.check(err is None, "signed with the server's key")
    return json.loads(b64d(parts[0])), json.loads(b64d(parts[1]))


def issue_several(c, how):
    """each ID token is about its own request: others before it or next to it,
    a key or clock or user data that have changed since, do not show"""
    from psion.oauth2.grants import AuthorizationCodeGrant
    from psion.oidc import AuthorizationCodeFlow
    ids = ["m", "o"]
    clients = [Client(i, None, "none", uris=[U1], scopes=["openid", "a", "b"], grants=["authorization_code"]) for i in ids]
    users = [User("u1"), User("u2")]
    name = "x" if how == "overlap" else c.str("name", 1, ranges=WORD)
    info = {"u1": {"sub": "u1", "name": name, "email": "u1@x"}, "u2": {"sub": "u2", "phone": "7"}}
    n = 3 if how == "thrice" else 2
    plan = []
    for i in range(n):
        plan.append((c.choice(f"who{i}", [0, 1]) if how == "plain" else i % 2, c.choice(f"user{i}", ["u1", "u2"]) if how == "plain" else "u1" if how == "same" else users[i % 2].id,
                     c.choice(f"nonce{i}", [None, f"n{i}"]) if how != "overlap" else f"n{i}", c.choice(f"scopes{i}", [["openid"], ["a"], ["openid", "b"]]) if how != "overlap" else ["openid", "ab"[i]]))
    codes = [Code(f"code{i}", ids[who], user, U1, scopes, "v" * 43, "plain", LATER, nonce) for i, (who, user, nonce, scopes) in enumerate(plan)]

    def another():
        # another server of the same process, with clients, users and a key of its own
        return World(c, clients=[Client(i, None, "none", uris=[U1], scopes=["openid", "z"], grants=["authorization_code"]) for i in ids], users=[User("u1"), User("u2")], scopes=["openid", "z"], hooks=[(AuthorizationCodeGrant, AuthorizationCodeFlow)],
                     codes=[Code(f"code{i}", ids[who], user, U1, ["openid", "z"], "v" * 43, "plain", LATER, "elsewhere") for i, (who, user, _, _) in enumerate(plan)], key={"key": jwk("HS512", kid="k3"), "alg": "HS512"}, userinfo=lambda u: {"sub": u.id, "name": "elsewhere"}, lifespan=5, id_lifespan=6)
    more = another() if how == "elsewhere" else None
    w = World(c, clients=clients, users=users, codes=codes, scopes=["openid", "a", "b"], hooks=[(AuthorizationCodeGrant, AuthorizationCodeFlow)], key={"key": jwk("HS256", kid="k1"), "alg": "HS256"},
              userinfo=lambda u: info[u.id], suspend=how == "overlap" and c.q(["get_authorization_code", "create_access_token", "get_key_info", "get_userinfo"], True))
    now = NOW
    c.set_now(now * 10**6)
    if how == "elsewhere":
        if c.choice("later", [True, False]):
            more = another()
        c.run(more.provider.token(request(c, form=c.form_all([("grant_type", "authorization_code"), ("client_id", ids[plan[0][0]]), ("code", "code0"), ("redirect_uri", U1), ("code_verifier", "v" * 43)]))))
        c.check(len(more.of("userinfo")) == 1 and not w.log, "served by itself")
    coming = [request(c, form=c.form_all([("grant_type", "authorization_code"), ("client_id", ids[plan[i][0]]), ("code", f"code{i}"), ("redirect_uri", U1), ("code_verifier", "v" * 43)])) for i in range(n)]
    if how == "overlap":
        resps = drive_two(c, [w.provider.token(r) for r in coming])
    for i, (who, user, nonce, scopes) in enumerate(plan):
        alg, kid = "HS256", "k1"
        if how == "overlap":
            resp = resps[i]
            c.check(not isinstance(resp, Exception), "answered")
        else:
            if i and how == "key":
                alg, kid = "HS384", "k2"
                w.key = {"key": jwk(alg, kid=kid), "alg": alg}
            if i and how == "clock":
                now += c.int("later", 1, 3000)
                c.set_now(now * 10**6)
            if i and how == "same":
                info["u1"] = {"sub": "u1", "email": "new@x"}
            given = {k: dict(v) for k, v in info.items()}
            resp = c.run(w.provider.token(coming[i]))
            c.check(c.eq(info, given), "the users' data are left as they were")
        body = body_of(resp)
        at = [x for x in w.of("access") if x[1] == body["access_token"]]
        c.check(resp.status_code == 200 and len(at) == 1 and at[0][2] is clients[who] and at[0][3].id == user, "redeemed for its own client and user")
        c.check(("id_token" in body) == ("openid" in scopes), "an ID token exactly when openid was granted")
        if "id_token" in body:
            head, claims = verify(c, body["id_token"], alg)
            want = {"iss": ISSUER, "aud": ids[who], "iat": now, "exp": now + 36000, "at_hash": half(c, alg, body["access_token"]), **info[user]}
            if nonce is not None:
                want["nonce"] = nonce
            c.check(c.eq(head, {"alg": alg, "typ": "JWT", "kid": kid}) and c.eq(claims, want), "about its own request alone")
            c.cover("ID token")
    for i, (who, user, nonce, scopes) in enumerate(plan):
        if "openid" in scopes:
            c.check(len([x for x in w.of("userinfo") if x[1].id == user and x[2] == scopes]) > 0, "the user's claims, for the scopes granted")
    c.check(len(w.of("userinfo")) == len([p for p in plan if "openid" in p[3]]), "asked for once each")


def nonce_kept(c, strange=False):
    """the nonce of the authorization request ends up in the ID token"""
    from psion.oauth2.grants import AuthorizationCodeGrant
    from psion.oidc import AuthorizationCodeFlow
    client = Client("m", None, "none", uris=[U1], scopes=["openid", "a"], grants=["authorization_code"])
    w = World(c, clients=[client], users=[User("u")], scopes=["openid", "a"], hooks=[(AuthorizationCodeGrant, AuthorizationCodeFlow)], key={"key": jwk("HS256", kid="k1"), "alg": "HS256"})
    w.code_lifetime = lambda: LATER
    nonce = odd(c, "nonce") if strange else c.str("nonce", c.q(1, 2))
    sent = c.form("q", [("nonce", nonce)])
    f = [("response_type", "code"), ("client_id", "m"), ("redirect_uri", U1), ("scope", "openid"), ("state", "s"), ("code_challenge", "v" * 43), ("code_challenge_method", "plain")]
    c.run(w.provider.authorize(request(c, "GET", query=c.form_all(f) + sent, user=User("u"))))
    c.check(len(w.of("save")) == 1, "a code is issued")
    data = w.of("save")[0][2]
    given = c.and_(c.has(sent, "nonce"), c.not_(c.eq(nonce, "")))
    c.check(c.iff("nonce" in data, given), "the nonce is kept when there is one")
    f = [("grant_type", "authorization_code"), ("client_id", "m"), ("code", w.of("save")[0][1]), ("redirect_uri", U1), ("code_verifier", "v" * 43)]
    resp = c.run(w.provider.token(request(c, form=c.form_all(f))))
    _, claims = verify(c, body_of(resp)["id_token"], "HS256")
    c.check(c.iff("nonce" in claims, given), "and is in the ID token")
    if "nonce" in claims:
        c.check(c.eq(claims["nonce"], nonce), "unchanged")
        c.cover("nonce")
    else:
        c.cover("no nonce")


def relying(c, kind, close=False):
    """the relying party's side: nonce and auth_time of an ID token"""
    from psion.jose.exceptions import InvalidJWTClaim
    from psion.oidc import IDToken
    claims = {"iss": "i", "sub": "s"}
    n = c.choice("claim", [None, "text"]) and c.str("claim.text", 2)
    if kind.startswith("nonce"):
        if n is not None:
            claims["nonce"] = n
        want = c.str("want", 2, 1)
        if close:
            want = "nonce-1"
            claims["nonce"] = n = near(c, "nonce", want)
        opt = {"nonce": want if kind == "nonce" else {"value": want}}
        v, err = c.attempt(IDToken, claims, opt)
        c.check(c.iff(err is None, c.and_(n is not None, c.eq(n if n is not None else "", want))), "accepted exactly with the nonce expected")
    else:
        t = c.choice("auth_time", ["absent", "int", "text", "float", "bool"])
        if t != "absent":
            claims["auth_time"] = {"int": lambda: c.int("at", 1, 1 << 33), "text": lambda: c.str("at", 1), "float": lambda: 1.5, "bool": lambda: True}[t]()
        if kind == "max_age":
            claims["max_age"] = c.int("max_age", 1, 1 << 20)
        v, err = c.attempt(IDToken, claims)
        c.check((err is None) == (t == "int" or (t == "absent" and kind != "max_age")), "auth_time is a time, and there when it has to be")
    if err is None:
        c.check(c.eq(dict(v), claims), "unchanged")
        c.cover("accepted")
    else:
        c.check(isinstance(err, InvalidJWTClaim), "refused as an invalid claim")
        c.cover("refused")


def c27(tier):
    t = tier == "thorough"
    out = []
    for a in SIGNERS:
        out.append(dict(name=f"claims-{a}", fn="issue", params={"alg": a, "vary": ["sub"] if a == "HS256" or t else []}, covers=["ID token"]))
    out += [
        dict(name="scopes", fn="issue", params={"alg": "HS256", "vary": ["scopes"]}, covers=["ID token", "no ID token"]),
        dict(name="long", fn="issue", params={"alg": "HS256", "vary": ["long"]}, covers=["ID token"]),
        dict(name="nonce", fn="issue", params={"alg": "HS256", "vary": ["nonce"]}, covers=["ID token"]),
        dict(name="odd", fn="issue", params={"alg": "HS256", "vary": ["odd"]}, covers=["ID token", "no ID token"]),
        dict(name="nonce-odd", fn="nonce_kept", params={"strange": True}, covers=["nonce"]),
        dict(name="rp-near", fn="relying", params={"kind": "nonce", "close": True}, covers=["refused"]),
        dict(name="time", fn="issue", params={"alg": "ES256", "vary": ["time"]}, covers=["ID token"]),
        dict(name="lifespan", fn="issue", params={"alg": "HS384", "vary": ["time"], "lifespan": 77}, covers=["ID token"]),
        dict(name="nonce-kept", fn="nonce_kept", covers=["nonce", "no nonce"]),
    ]
    for k in ("plain", "key", "clock", "same", "thrice", "elsewhere", "overlap"):
        out.append(dict(name="several-" + k, fn="issue_several", params={"how": k}, covers=["ID token"]))
    for k in ("nonce", "nonce-option", "auth_time", "max_age"):
        out.append(dict(name=f"rp-{k}", fn="relying", params={"kind": k}, covers=["accepted", "refused"]))
    return out


# ------------------------------------------------------------------ C26
POINTS = ["authorization_request", "authorization_response", "token_request", "token_response"]


def hook_class(name, defines, calls, mark):
    class Hook:
        def __init__(self, adapter, config):
            self.adapter, self.config = adapter, config
    for p in defines:
        def go(self, *a, _p=p, **k):
            async def run():
                calls.append((name, _p, self.adapter, self.config))
                return {f"x_{name}_{_p}": mark} if _p in ("authorization_response", "token_response") else None
            return run()
        setattr(Hook, p, go)
    return Hook


def ask(c, w, scope="a"):
    f = [("response_type", "code"), ("client_id", "m"), ("redirect_uri", U1), ("scope", scope), ("state", "s"), ("code_challenge", "v" * 43), ("code_challenge_method", "plain")]
    return c.run(w.provider.authorize(request(c, "GET", query=c.form_all(f), user=User("u"))))


def redeem(c, w):
    f = [("grant_type", "authorization_code"), ("client_id", "m"), ("client_secret", "s"), ("code", "code"), ("redirect_uri", U1), ("code_verifier", "v" * 43)]
    return c.run(w.provider.token(request(c, form=c.form_all(f))))


def hooked_world(c, grants=None):
    client = Client("m", "s", "client_secret_post", uris=[U1], scopes=["a"], grants=["authorization_code", "client_credentials", "refresh_token"])
    return World(c, clients=[client], users=[User("u")], codes=[Code("code", "m", "u", U1, ["a"], "v" * 43, "plain", LATER)], scopes=["a"], fixed=True, grants=grants)


def answers(c, w, calls, names, points, mark):
    """both answers, the hooks of these names having been added"""
    n = len(calls)
    r = ask(c, w)
    for p in POINTS[:2]:
        c.check(sorted(x[0] for x in calls[n:] if x[1] == p) == (sorted(names) if p in points else []), "its checkpoints of an authorization, once each")
    c.check(all(x[1] in POINTS[:2] for x in calls[n:]), "and no others")
    want = {"code": w.of("save")[-1][1], "state": "s"}
    want.update({f"x_{h}_authorization_response": mark for h in names if "authorization_response" in points})
    got = query_of(r.headers["Location"])
    c.check(len(got) == len(want) and c.eq(dict(got), want), "the answer with the additions")
    c.check(c.eq(sorted(w.of("save")[-1][2]), ["code_challenge", "code_challenge_method", "redirect_uri", "scopes", "state"]), "what is stored stays the same")
    n = len(calls)
    r = redeem(c, w)
    for p in POINTS[2:]:
        c.check(sorted(x[0] for x in calls[n:] if x[1] == p) == (sorted(names) if p in points else []), "its checkpoints of a token request, once each")
    c.check(all(x[1] in POINTS[2:] for x in calls[n:]), "and no others")
    want = {"access_token": "at", "refresh_token": "rt", "token_type": "Bearer", "expires_in": 3600, "scope": "a"}
    want.update({f"x_{h}_token_response": mark for h in names if "token_response" in points})
    c.check(r.status_code == 200 and c.eq(body_of(r), want), "the answer with the additions")
    n = len(calls)
    r = c.run(w.provider.token(request(c, form=c.form_all([("grant_type", "client_credentials"), ("client_id", "m"), ("client_secret", "s")]))))
    c.check(r.status_code == 200 and len(calls) == n and "x_" not in str(sorted(body_of(r))), "not for another grant")


def hooks(c, points):
    """a hook runs for the grant and provider it was added to, for its
    checkpoints, with that provider's adapter -- and nowhere else"""
    from psion.oauth2.grants import AuthorizationCodeGrant, ClientCredentialsGrant, RefreshTokenGrant
    calls = []
    mark = c.str("mark", 1, 1, ranges=WORD)
    worlds = [hooked_world(c), hooked_world(c)]
    at = c.choice("provider", [0, 1])
    when = c.choice("when", ["before", "between"])
    on = c.choice("grant", [AuthorizationCodeGrant, ClientCredentialsGrant, RefreshTokenGrant])
    hook = hook_class("h", points, calls, mark)
    if when == "before":
        worlds[at].provider.add_hook(on, hook)
    else:
        # a provider made after the hook was added is not affected either
        worlds[0].provider.add_hook(on, hook)
        at = 0
        worlds[1] = hooked_world(c)
    for i in (0, 1):
        answers(c, worlds[i], calls, ["h"] if i == at and on is AuthorizationCodeGrant else [], points, mark)
    c.check(all(x[2] is worlds[at].provider.adapter and x[3] is worlds[at].provider.config for x in calls), "with its own provider's adapter and settings")
    c.cover("called" if calls else "not called")


def several(c, points):
    """several hooks, grants in any order, derived grants"""
    from psion.oauth2.grants import AuthorizationCodeGrant, ClientCredentialsGrant, RefreshTokenGrant

    class Derived(AuthorizationCodeGrant):
        pass
    calls = []
    mark = c.str("mark", 1, 1, ranges=WORD)
    code = c.choice("code grant", [AuthorizationCodeGrant, Derived])
    rest = [ClientCredentialsGrant, RefreshTokenGrant]
    at = c.choice("order", [0, 1, 2])
    w = hooked_world(c, rest[:at] + [code] + rest[at:])
    on = c.choice("added to", [AuthorizationCodeGrant, code])
    names = ["f", "g", "h"][: c.choice("count", [1, 2, 3])]
    for h in names:
        w.provider.add_hook(on, hook_class(h, points, calls, mark))
    again = c.choice("twice", [False, True])
    answers(c, w, calls, names, points, mark)
    if again:
        w.codes.append(Code("code", "m", "u", U1, ["a"], "v" * 43, "plain", LATER))
        answers(c, w, calls, names, points, mark)
    c.cover("called")


def late(c):
    """a hook added to a provider that has served requests; a checkpoint that
    adds nothing; a request that fails"""
    from psion.oauth2.grants import AuthorizationCodeGrant
    calls = []
    mark = c.str("mark", 1, 1, ranges=WORD)
    w = hooked_world(c)
    added = lambda r: [n for n, _ in query_of(r.headers["Location"]) if n.startswith("x_")]
    c.check(added(ask(c, w)) == [], "nothing before it is added")
    first = hook_class("f", POINTS, calls, mark)
    w.provider.add_hook(AuthorizationCodeGrant, first)
    r = ask(c, w, "zz")
    c.check(added(r) == [] and "error=invalid_scope" in r.headers["Location"] and not [x for x in calls if x[1] != "authorization_request"], "an error has no additions")
    quiet = c.choice("quiet", [None, {}])

    class Quiet:
        def __init__(self, adapter, config):
            pass

        async def authorization_response(self, *a):
            calls.append(("q", "authorization_response", w.provider.adapter, w.provider.config))
            return quiet

        async def token_response(self, *a):
            calls.append(("q", "token_response", w.provider.adapter, w.provider.config))
            return quiet
    w.provider.add_hook(AuthorizationCodeGrant, Quiet)
    n = len(calls)
    got = dict(query_of(ask(c, w).headers["Location"]))
    c.check(c.eq(got, {"code": w.of("save")[-1][1], "state": "s", "x_f_authorization_response": mark}), "one adds, the other does not")
    body = body_of(redeem(c, w))
    c.check(c.eq({k: v for k, v in body.items() if k.startswith("x_")}, {"x_f_token_response": mark}) and body["access_token"] == "at", "and so with tokens")
    c.check(sorted((x[0], x[1]) for x in calls[n:]) == [("f", p) for p in sorted(POINTS)] + [("q", "authorization_response"), ("q", "token_response")], "each at its checkpoints")
    c.cover("called")


def own(c, how):
    """each request gets the additions made for it, before, after or next to another"""
    from harness.world import Step
    from psion.oauth2.grants import AuthorizationCodeGrant
    ids = ["m", "o"]
    clients = [Client(i, None, "none", uris=[U1 + i], scopes=["a"], grants=["authorization_code"]) for i in ids]
    mark = [c.str(f"mark{i}", 1, 1, ranges=WORD) if how != "overlap" else f"s{i}" for i in (0, 1)]
    seen = []

    class Hook:
        def __init__(self, adapter, config):
            pass

        async def authorization_request(self, data):
            seen.append(("ar", data["state"]))
            return {"x_mark": data["state"]}

        async def authorization_response(self, code, data, client, user):
            seen.append(("as", code, client.id, user.id))
            if how == "overlap":
                await Step("hook")
            return {"x_a": data["state"] + client.id, "x_u": user.id} if data["state"] else None

        async def token_request(self, data):
            seen.append(("tr", data["code"]))

        async def token_response(self, token, data, client, user):
            seen.append(("ts", token["access_token"], data["code"], client.id, user.id))
            if how == "overlap":
                await Step("hook")
            return {"x_t": data["code"] + client.id, "x_u": user.id}

    class Second:
        def __init__(self, adapter, config):
            pass

        async def authorization_response(self, code, data, client, user):
            return {"x_2": client.id + user.id + data["state"]}

        async def token_response(self, token, data, client, user):
            return {"x_2": client.id + user.id + data["code"]}
    w = World(c, clients=clients, users=[User("u0"), User("u1")], codes=[Code(f"code{i}", ids[i], f"u{i}", U1 + ids[i], ["a"], "v" * 43, "plain", LATER) for i in (0, 1)],
              hooks=[(AuthorizationCodeGrant, Hook), (AuthorizationCodeGrant, Second)], suspend=how == "overlap" and ["save_authorization_code", "get_authorization_code", "create_access_token"])

    def ask(kind, i):
        if kind == "authorize":
            f = [("response_type", "code"), ("client_id", ids[i]), ("redirect_uri", U1 + ids[i]), ("scope", "a"), ("state", mark[i]), ("code_challenge", "v" * 43), ("code_challenge_method", "plain")]
            return w.provider.authorize(request(c, "GET", query=c.form_all(f), user=w.users[i]))
        f = [("grant_type", "authorization_code"), ("client_id", ids[i]), ("code", f"code{i}"), ("redirect_uri", U1 + ids[i]), ("code_verifier", "v" * 43)]
        return w.provider.token(request(c, form=c.form_all(f)))
    kinds = [c.choice(f"kind{i}", ["authorize", "token"]) for i in (0, 1)]
    coming = [ask(k, i) for i, k in enumerate(kinds)]
    got = drive_two(c, coming) if how == "overlap" else [c.run(x) for x in coming]
    for i, r in enumerate(got):
        if kinds[i] == "authorize":
            saved = [x for x in w.of("save") if x[3] is clients[i]]
            c.check(len(saved) == 1 and c.eq(saved[0][2].get("x_mark"), mark[i]), "kept with its own code")
            want = {"code": saved[0][1], "state": mark[i], "x_a": mark[i] + ids[i], "x_u": f"u{i}", "x_2": ids[i] + f"u{i}" + mark[i]}
            c.check(c.eq(dict(query_of(r.headers["Location"])), want), "its own additions alone")
        else:
            body = body_of(r)
            c.check({k: v for k, v in body.items() if k.startswith("x_")} == {"x_t": f"code{i}" + ids[i], "x_u": f"u{i}", "x_2": ids[i] + f"u{i}code{i}"}, "its own additions alone")
            c.check([x[1:] for x in seen if x[0] == "ts" and x[2] == f"code{i}"] == [(body["access_token"], f"code{i}", ids[i], f"u{i}")], "shown its own request")
            c.check(len([x for x in seen if x[0] == "tr" and x[1] == f"code{i}"]) == 1, "once")
    c.check(len(seen) == 4, "each checkpoint once a request")
    c.cover("called")


def c26(tier):
    sets = [POINTS, POINTS[:1], POINTS[3:], POINTS[1:3]] if tier == "quick" else [[p for i, p in enumerate(POINTS) if m >> i & 1] for m in range(1, 16)]
    return [dict(name="hooks-" + "".join(str(POINTS.index(p)) for p in s), fn="hooks", params={"points": s}, covers=["called", "not called"]) for s in sets] + [
        dict(name="several", fn="several", params={"points": POINTS}, covers=["called"]), dict(name="several-some", fn="several", params={"points": POINTS[1:4:2]}, covers=["called"]),
        dict(name="late", fn="late", covers=["called"]), dict(name="own", fn="own", params={"how": "turns"}, covers=["called"]), dict(name="own-overlap", fn="own", params={"how": "overlap"}, covers=["called"])]


GOALS = {"C33": c33, "C27": c27, "C26": c26}
