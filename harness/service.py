"""The server as a whole: it always answers, request by request, and reads
requests the way they were sent."""
from harness.authz import BASE, NEARS, SAFE, known_target, make, present, query_of
from harness.tokens import LATER, U1, U2, WORD, drive_two, scope_set
from harness.world import ERROR_URL, Client, Code, Refresh, User, World, basic, body_of, company, in_company, location, strays, long, near, odd, request  # noqa: F401 - company is a goal

GRANTS = ["authorization_code", "refresh_token", "client_credentials"]
V43 = "v" * 43


# ------------------------------------------------------------------ C24
def store(c, fixed=False, hooks=()):
    """a server with clients of every kind, live and dangling records"""
    cls = [
        Client("a", "s", "client_secret_basic", uris=[U1], scopes=["a", "b"], grants=GRANTS),
        Client("b", "s", "client_secret_post", uris=[U1], scopes=["a"], grants=GRANTS),
        Client("c", None, "none", uris=[U1, U2], scopes=["a"], grants=GRANTS[:2]),
    ]
    codes = [Code("c1", "c", "u", U1, ["a"], V43, "plain", LATER), Code("c2", "c", "gone", U1, ["a"], V43, "S256", LATER), Code("c3", "a", "u", U1, ["a"], V43, "other", LATER)]
    rts = [Refresh("r1", "c", "u", ["a"], LATER), Refresh("r2", "c", "gone", ["a"], LATER), Refresh("r3", "a", "u", ["a", "b"], LATER)]
    return World(c, clients=cls, users=[User("u")], codes=codes, refresh=rts, scopes=["a", "b"], hooks=hooks, fixed=fixed)


def text(c, name, options=(), ranges=None):
    """one of the options, or any single character, or nothing"""
    v = c.choice(name, list(options) + ["?"])
    return c.str(name + ".text", 1, ranges=ranges) if v == "?" else v


def auth_header(c, wild):
    kind = c.choice("auth", ["none", "good", "text", "wrong scheme", "not base64"] if wild else ["none", "good"])
    if kind == "none":
        return {}
    if kind == "good":
        return {"Authorization": basic(c, "a", "s")}
    if kind == "text":
        return {"Authorization": c.str("header", c.q(2, 3))}
    if kind == "not base64":
        return {"Authorization": "Basic " + c.str("header", c.q(2, 4))}
    return {"Authorization": c.choice("scheme", ["Bearer x", "Digest x", "basic", "Basic", "Basic  ", "Bearer"])}


def answered(c, resp, statuses):
    c.check(resp.status_code in statuses, "an answer of the kind the endpoint gives")
    for k, v in resp.headers.items():
        c.check(isinstance(k, str) and isinstance(v, str), "with proper headers")
    c.check(isinstance(resp.body, bytes), "and a body")


def token_answers(c, which):
    w = store(c)
    if which == "header":
        f = [("grant_type", "client_credentials"), ("client_id", "a")]
        entries = c.form("q", f)
        h = auth_header(c, True)
    else:
        cred = c.choice("cred", [[("client_id", "c")], [("client_id", "b"), ("client_secret", "s")], [("client_secret", "s")], []])
        f = [("grant_type", which)]
        if which == "authorization_code":
            f += [("code", text(c, "code", ["c1", "c2", "c3"])), ("redirect_uri", text(c, "redirect_uri", [U1])), ("code_verifier", text(c, "code_verifier", [V43]))]
        elif which == "refresh_token":
            f += [("refresh_token", text(c, "refresh_token", ["r1", "r2", "r3"])), ("scope", text(c, "scope", ["a", "a b", " "]))]
        elif which == "client_credentials":
            f += [("scope", text(c, "scope", ["a", "a b", " "]))]
        else:
            f = [("grant_type", c.str("grant", c.q(1, 2)))]
        entries = c.form_all(cred) + c.form("q", f)
        h = auth_header(c, False)
    where = c.choice("where", ["body", "query"])
    resp = c.run(w.provider.token(request(c, form=entries if where == "body" else None, query=entries if where == "query" else None, headers=h)))
    answered(c, resp, (200, 400))
    c.check(isinstance(body_of(resp), dict), "a JSON object")
    c.cover("tokens" if resp.status_code == 200 else "error")


def revoke_answers(c, which):
    w = store(c)
    f = [("token", c.str("token", 1)), ("token_type_hint", text(c, "hint", ["access_token"]))]
    cred = c.choice("cred", [[("client_id", "c")], [("client_id", "b"), ("client_secret", "s")], []])
    entries = c.form_all(cred) + c.form("q", f)
    h = auth_header(c, which == "header")
    resp = c.run(w.provider.revoke(request(c, form=entries, headers=h)))
    answered(c, resp, (200, 400, 401))
    body_of(resp)
    c.cover("done" if resp.status_code == 200 else "error")


def authorize_answers(c, entry, wild):
    w = store(c)
    f = {"response_type": "code", "client_id": "c", "redirect_uri": U1, "scope": "a", "state": "s", "code_challenge": V43, "code_challenge_method": "plain"}
    for k in wild:
        f[k] = c.str(k, c.q(1, 2))
    entries = c.form("q", list(f.items()))
    user = c.choice("user", [User("u"), None])
    ep = w.provider.authorize
    req = request(c, "GET", query=entries, user=user)
    resp = c.run(ep(req) if entry == "authorize" else ep.get_consent_data(req))
    if isinstance(resp, dict):
        c.check(sorted(resp) == ["client", "scopes"], "consent data")
        c.cover("answer")
        return
    answered(c, resp, (302, 303))
    c.check("Location" in resp.headers, "a redirection")
    c.cover("error" if "error=" in location(resp) else "answer")


def bare(c):
    """requests with no body, no query, no header"""
    from psion.oauth2.models import Request
    w = store(c)
    method = c.choice("method", ["GET", "POST", "get", "Post"])
    ep = c.choice("endpoint", ["authorize", "token", "revoke", "consent"])
    req = Request(method, "https://as.example/x", {}, c.choice("body", [None, b"", b"&", b"=", b"a", b"%"]), c.choice("user", [User("u"), None]))
    call = w.provider.authorize.get_consent_data if ep == "consent" else getattr(w.provider, ep)
    resp = c.run(call(req))
    answered(c, resp, {"authorize": (303,), "consent": (303,), "token": (400,), "revoke": (401,)}[ep])
    c.cover("done")


def any_octets(c, where, size):
    """whatever octets the body has, or characters the query"""
    from psion.oauth2.models import Request
    w = store(c)
    ep = c.choice("endpoint", ["token", "revoke", "authorize", "consent"])
    head = c.choice("head", [b"client_id=c&grant_type=refresh_token&refresh_token=", b"client_id=c&token=", b""])
    if where == "body":
        req = Request("POST", "https://as.example/x", {}, head + c.bytes("octets", size), c.choice("user", [User("u"), None]))
    else:
        req = Request("GET", "https://as.example/x?" + head.decode() + c.str("octets", size, ranges=((0, 34), (36, 0x7FF))), {}, None, None)
    call = w.provider.authorize.get_consent_data if ep == "consent" else getattr(w.provider, ep)
    resp = c.run(call(req))
    answered(c, resp, {"authorize": (303,), "consent": (303,), "token": (400, 200), "revoke": (400, 401, 200)}[ep])
    c.cover("done")


def c24(tier):
    t = tier == "thorough"
    out = [dict(name=f"token-{g}", fn="token_answers", params={"which": g}, covers=["tokens", "error"] if g != "unknown" else ["error"]) for g in GRANTS + ["unknown", "header"]]
    out += [dict(name=f"revoke-{k}", fn="revoke_answers", params={"which": k}, covers=["done", "error"]) for k in ("form", "header")]
    sets = [["response_type", "client_id"], ["redirect_uri"], ["scope"], ["state"], ["code_challenge", "code_challenge_method"]]
    if t:
        sets += [["scope", "state"], ["response_type", "code_challenge_method"]]
    for s in sets:
        for e in ("authorize", "consent"):
            out.append(dict(name=f"{e}-{s[0]}-{len(s)}", fn="authorize_answers", params={"entry": e, "wild": s}, covers=["error"]))
    out.append(dict(name="bare", fn="bare", covers=["done"]))
    out += strays(KINDS)
    for w in ("body", "query"):
        out.append(dict(name=f"octets-{w}", fn="any_octets", params={"where": w, "size": 3 if t else 2}, covers=["done"]))
    return out


# ------------------------------------------------------------------ C28
U3 = "https://d.example/cb"
V2 = "w" * 43
KINDS = ["authorize", "authorize-error", "redeem", "redeem-error", "refresh", "refresh-error", "client", "client-all", "client-error", "revoke", "revoke-plain", "revoke-error", "anonymous", "junk", "consent", "authorize-plain"]
# the two parties that ask: ids, target, scope, verifier, code, refresh token, secret, user
PARTIES = [("c", U1, "a", V43, "c1", "r1", "a", "b", "s", "u"), ("d", U3, "b", V2, "c4", "r4", "e", "f", "t", "v")]


def asks(c, name, k, who):
    """some request, described: (endpoint, fields, headers, kind, user)"""
    me, uri, scope, ver, code, rt, basically, posting, secret, user = PARTIES[who]
    a = [("response_type", "code"), ("client_id", me), ("redirect_uri", uri), ("scope", scope), ("state", "s-" + name), ("code_challenge", ver), ("code_challenge_method", "plain")]
    tok = lambda g, *f: [("grant_type", g), ("client_id", me), *f]
    return {
        "authorize": ("authorize", a, {}),
        "authorize-plain": ("authorize", [x for x in a if x[0] != "state"], {}),
        "consent": ("consent", a, {}),
        "authorize-error": ("authorize", [(x, "zz" if x == "scope" else y) for x, y in a], {}),
        "redeem": ("token", tok("authorization_code", ("code", code), ("redirect_uri", uri), ("code_verifier", ver)), {}),
        "redeem-error": ("token", tok("authorization_code", ("code", "nope"), ("redirect_uri", U2), ("code_verifier", ver)), {}),
        "refresh": ("token", tok("refresh_token", ("refresh_token", rt)), {}),
        "refresh-error": ("token", tok("refresh_token", ("refresh_token", rt), ("scope", "ab"[scope == "a"])), {}),
        "client": ("token", [("grant_type", "client_credentials"), ("scope", scope)], {"Authorization": basic(c, basically, secret)}),
        "client-all": ("token", [("grant_type", "client_credentials")], {"Authorization": basic(c, basically, secret)}),
        "client-error": ("token", [("grant_type", "client_credentials")], {"Authorization": basic(c, basically, "wrong")}),
        "revoke": ("revoke", [("client_id", posting), ("client_secret", secret), ("token", "t-" + name), ("token_type_hint", "refresh_token")], {}),
        "revoke-plain": ("revoke", [("client_id", posting), ("client_secret", secret), ("token", "t-" + name)], {}),
        "revoke-error": ("revoke", [("client_id", posting), ("client_secret", secret), ("token", "t"), ("token_type_hint", "x")], {}),
        "anonymous": ("token", [("grant_type", "refresh_token"), ("refresh_token", rt)], {}),
        "junk": ("token", [("grant_type", "nope"), ("client_id", me)], {}),
    }[k] + (k, user)


def kinds(c, name, some=KINDS, parties=(0, 1)):
    return asks(c, name, c.choice(name, list(some)), c.choice(name + ".who", list(parties)))


def pair_store(c, suspend=False, hooks=()):
    if hooks == "oidc":
        from psion.oauth2.grants import AuthorizationCodeGrant
        from psion.oidc.flows import AuthorizationCodeFlow
        hooks = [(AuthorizationCodeGrant, AuthorizationCodeFlow)]
    cls = []
    for me, uri, scope, ver, code, rt, basically, posting, secret, user in PARTIES:
        cls += [Client(basically, secret, "client_secret_basic", uris=[uri], scopes=["a", "b"], grants=GRANTS),
                Client(posting, secret, "client_secret_post", uris=[uri], scopes=[scope], grants=GRANTS),
                Client(me, None, "none", uris=[uri, U2], scopes=[scope], grants=GRANTS[:2])]
    codes = [Code(p[4], p[0], p[9], p[1], [p[2]], p[3], "plain", LATER) for p in PARTIES]
    rts = [Refresh(p[5], p[0], p[9], [p[2]], LATER) for p in PARTIES]
    return World(c, clients=cls, users=[User("u"), User("v")], codes=codes, refresh=rts, scopes=["a", "b"], hooks=hooks, fixed=True, suspend=suspend)


def coming(c, w, what, query=None, form=None, more=()):
    """the request described, with further parameters and headers"""
    ep, fields, headers, _, user = what
    get = ep in ("authorize", "consent")
    query, form = query or c.form_all([]), form or c.form_all([])
    own = c.form_all(fields)
    req = request(c, "GET" if get else "POST", query=query + own if get else query, form=form if get else form + own, headers={**dict(more), **headers}, user=User(user))
    return w.provider.authorize.get_consent_data(req) if ep == "consent" else getattr(w.provider, ep)(req)


def send(c, w, what):
    return c.run(coming(c, w, what))


def answer_of(resp):
    """what an answer looks like, apart from the random code"""
    if isinstance(resp, dict):
        return [resp["client"].id, list(resp["scopes"])]
    out = [resp.status_code, resp.body]
    head = dict(resp.headers)
    loc = head.pop("Location", None)
    out.append(sorted(head.items()))
    if loc is not None:
        out.append(sorted((k, "?" if k == "code" else v) for k, v in query_of(loc)))
        out.append(loc.partition("?")[0])
    return out


def effects_of(c, w, n=0):
    log = []
    for x in w.log[n:]:
        for y in x:
            c.check(not isinstance(y, Client) or [z for z in w.clients if z is y], "with the client as it is registered here")
        log.append([y.id if isinstance(y, (Client, User)) else y for y in x])
    for x in log:
        if x[0] == "save":
            x[1] = "?"
    return log


def seen(c, w, resp, n):
    return [answer_of(resp), effects_of(c, w, n)]


def unless_used(c, last, past):
    # a code used up before is the one legitimate memory
    if last[3] == "redeem":
        c.assume(all(p[3] != "redeem" or p[4] != last[4] for p in past))


def alone(c, what, changed=None, hooks=()):
    """answer and effects of a request, with nothing before it"""
    def fn():
        w = pair_store(c, hooks=hooks)
        if changed:
            change(w, changed)
        return [answer_of(send(c, w, what)), effects_of(c, w)]
    return c.aside(str((what, changed, hooks)), fn)


CHARS = ((32, 0xD7FF),)
COMMON = ["prompt", "max_age", "display", "ui_locales", "id_token_hint", "login_hint", "acr_values", "claims", "request", "request_uri", "registration", "response_mode", "resource", "audience",
          "username", "password", "client_assertion", "client_assertion_type", "assertion", "access_token", "id_token", "user", "user_id", "sub", "iss", "expires_in", "debug", "test", "admin", "x"]
HEADERS = ["x-client-id", "x-client-secret", "x-user", "x-forwarded-for", "x-forwarded-host", "x-forwarded-proto", "x-http-method-override", "content-type", "content-length", "accept", "cookie", "host",
           "origin", "referer", "user-agent", "proxy-authorization", "x-authorization", "dpop", "x-debug"]
MATTERS = {"authorize": {"response_type", "client_id", "redirect_uri", "scope", "state", "code_challenge", "code_challenge_method", "nonce"},
           "revoke": {"client_id", "client_secret", "token", "token_type_hint"}, "token": {"grant_type", "client_id", "client_secret"}, "redeem": {"code", "redirect_uri", "code_verifier"},
           "refresh": {"refresh_token", "scope"}, "client": {"scope"}}


def words():
    """every word the source of the server speaks of"""
    import ast
    import os
    import re
    root = os.path.join(os.environ.get("PSYM_REPO_SRC", "/repo/src"), "psion")
    out = set(COMMON + HEADERS).union(*MATTERS.values())
    for at, _, files in os.walk(root):
        for f in files:
            if f.endswith(".py"):
                with open(os.path.join(at, f)) as fh:
                    tree = ast.parse(fh.read())
                out |= {n.value for n in ast.walk(tree) if isinstance(n, ast.Constant) and isinstance(n.value, str) and re.fullmatch(r"[A-Za-z][A-Za-z0-9_.-]{0,40}", n.value)}
    return sorted(out)


def stray(c, lasts, where, hooks=()):
    """parameters and headers the protocol gives no meaning in this request
    change nothing"""
    what = kinds(c, "what", lasts, (0,))
    ep, kind = what[0], what[3].split("-")[0]
    two = alone(c, what, hooks=hooks)
    matter = MATTERS["authorize" if ep == "consent" else ep] | (MATTERS.get(kind, set()) if ep == "token" else set())
    w = pair_store(c, hooks=hooks)
    names = words()
    if where == "headers":
        by = {n.lower(): n for n in names if n.lower() != "authorization"}
        more = {n: c.str("value of " + n, 8, ranges=CHARS) for n in by.values()}
        resp = c.run(coming(c, w, what, more=more))
    else:
        entries = c.form("stray", [(n, c.str("value of " + n, 8, ranges=CHARS)) for n in names if n not in matter])
        resp = c.run(coming(c, w, what, **{where: entries}))
    c.check(c.eq(seen(c, w, resp, 0), two), "the same answer and the same effects")
    c.cover("done")


def stored(things):
    return [(x, {k: list(v) if isinstance(v, list) else v for k, v in vars(x).items()}) for x in things]


def isolated(c, before, lasts, times=1):
    """an answer does not depend on unrelated requests served before"""
    past = [kinds(c, f"past{i}") for i in range(before)]
    last = kinds(c, "last", lasts, (0,))
    unless_used(c, last, past)
    two = alone(c, last)
    used = pair_store(c)
    had = stored(used.clients + used.users + used.codes + used.refresh)
    for what in past * times:
        send(c, used, what)
    n = len(used.log)
    one = seen(c, used, send(c, used, last), n)
    c.check(c.eq(one, two), "the same answer and the same effects")
    c.check(all(now == then for (_, then), (_, now) in zip(had, stored([x for x, _ in had]))), "the application's records are left as they were")
    c.cover("done")


def change(w, what):
    """something an application may do to the stored data"""
    def client(i):
        return next(x for x in w.clients if x.id == i)
    if what == "secret":
        client("a").secret = client("b").secret = "rotated"
    elif what == "clients":
        w.clients = [x for x in w.clients if x.id not in "abc"]
    elif what == "scopes":
        for i in "abc":
            client(i).scopes = ["b"]
    elif what == "uris":
        client("c").uris = [U2]
    elif what == "grants":
        for i in "ac":
            client(i).grants = []
    elif what == "responses":
        client("c").responses = ["token"]
    elif what == "users":
        w.users = [x for x in w.users if x.id != "u"]
    elif what == "tokens":
        w.codes, w.refresh = [], []
    elif what == "method":
        client("a").method, client("b").method, client("c").method, client("c").secret = "client_secret_post", "client_secret_basic", "client_secret_post", "s"
    elif what == "replaced":
        # other objects in the place of the stored ones
        w.clients = [Client(x.id, x.secret, x.method, x.uris, x.scopes, x.grants, x.responses) for x in w.clients]


CHANGES = ["secret", "clients", "scopes", "uris", "grants", "responses", "users", "tokens", "method", "replaced"]


def changed(c, what, where, lasts=KINDS, pasts=None):
    """an answer depends on the stored data as they are now, and here"""
    past, last = kinds(c, "past", pasts or KINDS, parties=(0,)), kinds(c, "last", lasts, parties=(0,))
    unless_used(c, last, [past] if where == "here" else [])
    two = alone(c, last, what)
    used = pair_store(c)
    if where == "here":
        send(c, used, past)
    else:
        # another server of the same process
        send(c, pair_store(c), past)
    change(used, what)
    n = len(used.log)
    one = seen(c, used, send(c, used, last), n)
    c.check(c.eq(one, two), "the answer that the data call for")
    c.cover("done")


def overlap(c, firsts, seconds, parties=(1,)):
    """two requests served at the same time, under every schedule of their
    adapter calls, get what they get alone"""
    first, second = kinds(c, "first", firsts, (0,)), kinds(c, "second", seconds, parties)
    unless_used(c, first, [second])
    apart = [alone(c, what) for what in (first, second)]
    logs = [x for a in apart for x in a[1]]
    w = pair_store(c, suspend=True)
    got = drive_two(c, [coming(c, w, first), coming(c, w, second)])
    for one, (two, _) in zip(got, apart):
        c.check(not isinstance(one, Exception), "both are answered")
        c.check(c.eq(answer_of(one), two), "each with its own answer")
    log = effects_of(c, w)
    key = lambda x: str([str(sorted(y.items())) if isinstance(y, dict) else y for y in x])
    c.check(sorted(map(key, log)) == sorted(map(key, logs)), "and its own effects")
    c.cover("done")


def credentials_do_not_stick(c):
    """who one request was from says nothing about the next"""
    w = store(c, fixed=True)
    first = c.choice("first", [{"Authorization": basic(c, "a", "s")}, {}])
    r1 = c.run(w.provider.token(request(c, form=c.form_all([("grant_type", "client_credentials"), ("scope", c.str("scope", 1, ranges=((97, 98),)))]), headers=first)))
    h = {"Authorization": basic(c, "a", c.str("secret", 1, ranges=((114, 116),)))} if c.choice("second", [True, False]) else {}
    n = len(w.log)
    r2 = c.run(w.provider.token(request(c, form=c.form_all([("grant_type", "client_credentials")]), headers=h)))
    good = False if not h else c.eq(h["Authorization"], basic(c, "a", "s"))
    c.check(c.iff(r2.status_code == 200, good), "each request proves itself")
    c.check((len(w.log) > n) == (r2.status_code == 200), "or gets nothing")
    if r2.status_code == 200:
        c.check(sorted(w.log[n][4]) == ["a", "b"], "and asks for itself")
    c.cover("served" if r2.status_code == 200 else "refused")


def identity_does_not_stick(c):
    """naming a client that proved itself before proves nothing"""
    w = store(c, fixed=True)
    forms = {
        "a": ({"Authorization": basic(c, "a", "s")}, []), "a+id": ({"Authorization": basic(c, "a", "s")}, [("client_id", "a")]),
        "b": ({}, [("client_id", "b"), ("client_secret", "s")]), "c": ({}, [("client_id", "c")]),
        "a bare": ({}, [("client_id", "a")]), "b bare": ({}, [("client_id", "b")]), "nobody": ({}, []),
        "a post": ({}, [("client_id", "a"), ("client_secret", "s")]),
        "a wrong": ({"Authorization": basic(c, "a", "x")}, []), "b wrong": ({}, [("client_id", "b"), ("client_secret", "x")]),
    }
    good = {"a": "a", "a+id": "a", "b": "b", "c": "c"}

    def act(who, ep):
        h, f = forms[who]
        if ep == "revoke":
            return w.provider.revoke(request(c, form=c.form_all(f + [("token", "t")]), headers=h))
        return w.provider.token(request(c, form=c.form_all(f + [("grant_type", "refresh_token"), ("refresh_token", "r3")]), headers=h))
    for i in range(c.q(1, 2)):
        c.run(act(c.choice(f"before{i}", ["a", "a+id", "b", "c", "a wrong"]), c.choice(f"at{i}", ["revoke", "token"])))
    who, ep = c.choice("who", sorted(forms)), c.choice("endpoint", ["revoke", "token"])
    n = len(w.log)
    resp = c.run(act(who, ep))
    if ep == "revoke":
        c.check((resp.status_code == 200) == (who in good), "each request proves itself")
        c.check([x[1].id for x in w.log[n:]] == [good[who]] if who in good else len(w.log) == n, "and acts for itself")
    else:
        c.check((resp.status_code == 200) == (good.get(who) == "a"), "each request proves itself")
        c.check((len(w.log) > n) == (good.get(who) == "a"), "or gets nothing")
    c.cover("served" if resp.status_code == 200 else "refused")


def c28(tier):
    t = tier == "thorough"
    out = [dict(name="identity", fn="identity_does_not_stick", covers=["served", "refused"]), dict(name="credentials", fn="credentials_do_not_stick", covers=["served", "refused"])]
    for k in KINDS:
        out.append(dict(name="pair-" + k, fn="isolated", params={"before": 1, "lasts": [k]}, covers=["done"]))
        out.append(dict(name="often-" + k, fn="isolated", params={"before": 1, "lasts": [k], "times": 40 if t else 12}, covers=["done"]))
        for who in (0, 1):
            out.append(dict(name=f"overlap-{k}-{who}", fn="overlap", params={"firsts": [k], "seconds": KINDS[KINDS.index(k):], "parties": [who]}, covers=["done"]))
        if t:
            out.append(dict(name="triple-" + k, fn="isolated", params={"before": 2, "lasts": [k]}, covers=["done"]))
    for w in CHANGES:
        out.append(dict(name="changed-" + w, fn="changed", params={"what": w, "where": "here"}, covers=["done"]))
        out.append(dict(name="elsewhere-" + w, fn="changed", params={"what": w, "where": "elsewhere"}, covers=["done"]))
    return out


# ------------------------------------------------------------------ C31
def parameters(c, wide):
    """parameters arrive as sent: the body over the query, the last of
    several, blank ones left out"""
    r = None if wide else WORD
    q = [("k", c.str("q0", 1, ranges=r)), ("only_query", c.str("q1", 1, ranges=r))]
    f = [("k", c.str("f0", 1, ranges=r)), ("k", c.str("f1", 1, ranges=r))] if not wide else [("k", c.str("f0", 1, ranges=r))]
    qe, fe = c.form("q", q), c.form("f", f)
    req = request(c, "POST", query=qe, form=fe)
    nq, nf = len(q), len(f)
    there = [c.and_(p, c.not_(c.eq(v, ""))) for p, v in zip(presences(c, qe, q), [v for _, v in q])]
    theref = [c.and_(p, c.not_(c.eq(v, ""))) for p, v in zip(presences(c, fe, f), [v for _, v in f])]
    got = req.data.get("k")
    order = [(theref[i], f[i][1]) for i in reversed(range(nf))] + [(there[0], q[0][1])]
    if got is None:
        c.check(c.not_(c.or_(*[p for p, _ in order])), "left out only when nowhere given")
        c.cover("absent")
    else:
        earlier = []
        alts = []
        for p, v in order:
            alts.append(c.and_(p, *[c.not_(x) for x in earlier], c.eq(got, v)))
            earlier.append(p)
        c.check(c.or_(*alts), "the body's last value, else the query's")
        c.cover("present")
    one = req.data.get("only_query")
    c.check(c.iff(one is not None, there[1]), "from the query alone")
    if one is not None:
        c.check(c.eq(one, q[1][1]), "unchanged")
    form = req.form().get("k")
    c.check(c.iff(form is not None, c.or_(*theref)), "the form is the body's alone")
    c.check("only_query" not in req.form(), "without the query")
    c.check("only_query" in req.query if one is not None else "only_query" not in req.query, "and the query the query's")


RAW = "a=&+%;4#?"


def reference_form(c, text):
    """application/x-www-form-urlencoded, read by the book; the last value of
    a name counts, blank values and fields without = are left out"""
    fields, out = [""], []
    for ch in text:
        if ch == "&":
            fields.append("")
        else:
            fields[-1] = fields[-1] + ch
    for f in fields:
        name, value, seen = [], [], False
        i = 0
        while i < len(f):
            ch = f[i]
            i += 1
            if ch == "=" and not seen:
                seen = True
                continue
            if ch == "+":
                ch = " "
            elif ch == "%" and i + 1 < len(f) and f[i] in "4a" and f[i + 1] in "4a":
                ch = {"44": "D", "4a": "J", "a4": "\ufffd", "aa": "\ufffd"}[("4" if f[i] == "4" else "a") + ("4" if f[i + 1] == "4" else "a")]
                i += 2
            (value if seen else name).append(ch)
        if seen and value:
            out = [p for p in out if p[0] != "".join(name)] + [("".join(name), "".join(value))]
    return dict(out)


def raw_text(c, where, size):
    """any text over the significant characters is read by the book"""
    from psion.oauth2.models import Request
    text = c.str("text", size, ranges=tuple((ord(x), ord(x)) for x in sorted(RAW if where == "body" else RAW.replace("#", ""))))
    text = c.choice("before", ["", "a=4&"]) + text
    if where == "body":
        req = Request("POST", "https://as.example/p", {}, text.encode("ascii"), None)
    else:
        req = Request("GET", "https://as.example/p?" + text, {}, None, None)
    want = reference_form(c, text)
    got = req.form() if where == "body" else req.query
    c.check(c.eq(dict(got), want), "read by the book")
    c.check(c.eq(dict(req.data), want), "and offered as such")
    c.cover("done")


def many(c, n):
    """every one of many parameters arrives, and long ones in full"""
    size = c.choice("size", [300, 5000])
    value = long(c, "value", size, SAFE)
    req = request(c, "POST", query=c.form_all([("q", value)]), form=c.form_all([("f", value), ("n" * 80, "x")]), headers={"X-Long": value})
    c.check(c.eq(req.data, {"q": value, "f": value, "n" * 80: "x"}) and c.eq(req.headers["x-long"], value), "in full")
    vals = [c.str(f"v{i}", 1, 1, ranges=WORD) for i in range(4)]
    fields = [(f"parameter-number-{i}", vals[i % 4]) for i in range(n)]
    req = request(c, "POST", query=c.form_all(fields[: n // 2]), form=c.form_all(fields[n // 2:]))
    c.check(c.eq(dict(req.data), dict(fields)), "all there")
    c.cover("done")


def presences(c, entries, fields):
    if c.symbolic:
        from psym import values as V
        return [V.mkbool(e[0]) for e in entries]
    out, rest = [], list(entries)
    for k, v in fields:
        hit = bool(rest) and rest[0] == (k, v)
        if hit:
            rest.pop(0)
        out.append(hit)
    return out


def odd_text(c, where):
    """names and values mean themselves, and no more"""
    if where == "header":
        v = odd_header(c)
        req = request(c, "GET", headers={"X-V": v})
        c.check(c.eq(req.headers, {"x-v": v}), "as sent")
        c.cover("done")
        return
    k, v = near(c, "name", "scope"), odd(c, "value")
    fields = c.form_all([("scope", v), (k, "own")])
    req = request(c, "POST", query=fields if where == "query" else None, form=fields if where == "body" else None)
    want = {"scope": v}
    want[k] = "own"
    for view in [req.data, req.query if where == "query" else req.form()]:
        c.check(c.eq(view, want), "as sent")
    c.check(c.eq(req.form() if where == "query" else req.query, {}), "and only there")
    c.cover("done")


def odd_header(c):
    return c.choice("header", ["a,b", '"a"', "a%41", "a+b", "  a ", "", "a;b=c", "None", "A", "\u00e9"])


def header_names(c):
    """header names in any case"""
    name = c.choice("name", ["Authorization", "authorization", "AUTHORIZATION", "aUTHORIZATION"])
    value = c.str("value", 2)
    from psion.oauth2.models import Request
    req = Request(c.choice("method", ["GET", "post", "Post"]), "https://as.example/p/q?x=1#f=2", {name: value, "X-Other": "o"}, b"", None)
    c.check(c.eq(req.headers.get("authorization"), value), "found by its lower case name")
    c.check(req.headers.get("x-other") == "o" and len(req.headers) == 2, "next to the others")
    c.check(req.path == "/p/q" and req.query == {"x": "1"} and req.data == {"x": "1"} and req.client is None and req.user is None, "and the rest as sent")
    c.cover("done")


def methods(c):
    """only GET and POST requests"""
    from psion.oauth2.models import Request
    m = c.str("method", c.choice("n", [3, 4]), 3, ranges=((65, 90), (97, 122)))
    req, err = c.attempt(Request, m, "https://as.example/x", {}, b"", None)
    up = c.or_(*[c.and_(len(m) == len(w), *[c.or_(c.eq(x, y), c.eq(x, y.lower())) for x, y in zip(m, w)]) for w in ("GET", "POST")])
    c.check(c.iff(err is None, up), "GET and POST, in any case")
    c.cover("ok" if err is None else "refused")


def untouched(c):
    """parsing or serving one view of a request leaves the other alone"""
    v = c.str("v", 1, 1, ranges=WORD)
    req = request(c, "POST", query=c.form_all([("a", v)]), form=c.form_all([("b", v)]))
    req.data["a"] = "changed"
    req.data.pop("b")
    c.check(c.eq(req.query, {"a": v}) and c.eq(req.form(), {"b": v}), "the query and form stay as sent")
    # nor does one request show in another of the same text
    for view in (req.query, req.form(), req.headers):
        view.clear()
    req = request(c, "POST", query=c.form_all([("a", v)]), form=c.form_all([("b", v)]))
    c.check(c.eq(req.data, {"a": v, "b": v}) and c.eq(req.query, {"a": v}) and c.eq(req.form(), {"b": v}), "each request on its own")
    c.cover("done")


def requests_apart(c):
    """several requests at hand, each keeps what it was sent"""
    vals = [c.str(f"v{i}", 1, 1, ranges=WORD) for i in range(3)]
    same = c.choice("same", [True, False])
    reqs, wants = [], []
    for i, v in enumerate(vals):
        names = ("q", "f") if same else (f"q{i}", f"f{i}")
        part = c.choice(f"part{i}", ["both", "query", "form"])
        q = [(names[0], v)] if part != "form" else []
        f = [(names[1], v + "x")] if part != "query" else []
        reqs.append(request(c, "POST", query=c.form_all(q), form=c.form_all(f), headers={"X-V": v, f"H{i}": "1"}, user=User(f"u{i}")))
        wants.append((dict(q), dict(f), {"x-v": v, f"h{i}": "1"}, f"u{i}"))
    for r, (q, f, h, u) in zip(reqs, wants):
        c.check(c.eq(r.query, q) and c.eq(r.form(), f) and c.eq(r.data, {**q, **f}) and c.eq(r.headers, h) and r.user.id == u and r.client is None, "its own")
    reqs[0].data["k"] = reqs[0].query["k"] = reqs[0].headers["k"] = "late"
    reqs[0].client = "client"
    for r, (q, f, h, u) in list(zip(reqs, wants))[1:]:
        c.check(c.eq(r.query, q) and c.eq(r.form(), f) and c.eq(r.data, {**q, **f}) and c.eq(r.headers, h) and r.client is None, "and still")
    c.cover("done")


def starlette(c):
    """the Starlette provider passes requests and responses on unchanged"""
    from psion.oauth2.models import JSONResponse, RedirectResponse
    from psion.oauth2.providers import StarletteProvider
    v = c.str("v", 1, 1, ranges=WORD)
    user = c.choice("user", [User("u"), None])
    method = c.choice("method", ["GET", "POST"])

    class Incoming:
        headers = {"authorization": "Basic " + v, "host": "as.example"}
        url = "https://as.example/token?q=1"

        async def body(self):
            return c.body(c.form_all([("k", v)]))
    inc = Incoming()
    inc.user, inc.method = user, method
    w = World(c, provider=StarletteProvider)
    req = c.run(w.provider.create_request(inc))
    c.check(req.method == method and req.user is user and c.eq(req.data, {"q": "1", "k": v}) and c.eq(req.headers, Incoming.headers), "the request as received")
    out = c.choice("out", [JSONResponse(400, {"Cache-Control": "no-store"}, {"error": "x"}), RedirectResponse("https://c.example/?a=b"), JSONResponse()])
    resp = c.run(w.provider.create_response(out))
    sent = {k.decode("latin-1"): x.decode("latin-1") for k, x in resp.raw_headers}
    c.check(resp.status_code == out.status_code and resp.body == out.body, "the answer as made")
    c.check(all(sent.get(k.lower()) == x for k, x in out.headers.items()), "with its headers")
    c.cover("done")


def c31(tier):
    return [
        dict(name="starlette", fn="starlette", covers=["done"]),
        dict(name="parameters", fn="parameters", params={"wide": False}, covers=["absent", "present"]),
        dict(name="wide", fn="parameters", params={"wide": True}, covers=["absent", "present"]),
        dict(name="raw-query", fn="raw_text", params={"where": "query", "size": 6 if tier == "thorough" else 4}, covers=["done"]),
        dict(name="raw-body", fn="raw_text", params={"where": "body", "size": 6 if tier == "thorough" else 4}, covers=["done"]),
        dict(name="many", fn="many", params={"n": 300}, covers=["done"]),
        *[dict(name="odd-" + w, fn="odd_text", params={"where": w}, covers=["done"]) for w in ("query", "body", "header")],
        dict(name="headers", fn="header_names", covers=["done"]),
        dict(name="methods", fn="methods", covers=["ok", "refused"]),
        dict(name="views", fn="untouched", covers=["done"]),
        dict(name="apart", fn="requests_apart", covers=["done"]),
    ]


# ------------------------------------------------------------------ C32
def consent(c, scopes, **shape):
    """consent shows the client that asks and just the scopes it may have"""
    k = make(c, scopes=scopes, **shape)
    got = c.run(k.world.provider.authorize.get_consent_data(k.req))
    can = c.and_(known_target(c, k), k.has("scope"), c.or_(*[
        c.and_(c.eq(k.v["client_id"], cl.id), c.isin(k.v["redirect_uri"], cl.uris), c.isin(k.v["response_type"], cl.responses)) for cl in (k.client, k.other)]))
    c.check(c.iff(isinstance(got, dict), can), "shown exactly for a proper request")
    c.check(not k.world.log, "and nothing is issued")
    if not isinstance(got, dict):
        c.cover("refused")
        return
    cl = got["client"]
    c.check(cl is k.client or cl is k.other, "a registered client")
    c.check(c.eq(cl.id, k.v["client_id"]), "the one asking")
    shown = [str(x) if not c.symbolic else x for x in got["scopes"]]
    c.check(c.and_(*[c.and_(c.isin(s, k.toks), c.isin(s, cl.scopes)) for s in shown]), "only scopes asked for that the client may have")
    c.check(c.and_(*[c.or_(c.not_(c.isin(t, cl.scopes)), c.isin(t, shown)) for t in k.toks]), "and all of them")
    c.cover("shown")


def c32(tier):
    t = tier == "thorough"
    both = ["shown", "refused"]
    return [
        dict(name="scopes", fn="consent", params={"scopes": 3 if t else 2, "want": ["scopes"], "where": "query"}, covers=["shown"]),
        dict(name="presence", fn="consent", params={"scopes": 1, "want": ["presence"], "where": "query"}, covers=both),
        dict(name="client", fn="consent", params={"scopes": 1, "want": ["client_id", "redirect_uri", "scopes"], "where": "query"}, covers=both),
        dict(name="long", fn="consent", params={"scopes": 1, "want": ["long"], "where": "query"}, covers=both),
        dict(name="responses", fn="consent", params={"scopes": 1, "want": ["responses", "response_type"], "where": "body", "user": "any"}, covers=both),
        *[dict(name="near-" + n, fn="consent", params={"scopes": 1, "want": ["near-" + n], "where": "query"}, covers=["shown" if n in ("offered", "scope", "allowed") else "refused"]) for n in NEARS if n != "code_challenge_method"],
        dict(name="after", fn="consent", params={"scopes": 1, "want": ["after", "client_id", "scopes"], "where": "query"}, covers=both),
    ] + in_company(["consent", "authorize", "authorize-error"], ["scopes", "uris", "clients", "responses", "replaced"], t)


GOALS = {"C24": c24, "C28": c28, "C31": c31, "C32": c32}
