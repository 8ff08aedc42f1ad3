"""Client authentication and the headers it reads."""
import base64

from harness.tokens import stranger
from harness.world import Client, User, World, basic, body_of, company, in_company, long, near, odd, request  # noqa: F401 - company is a goal

ASCII = ((33, 126),)
TEXT = ((9, 13), (32, 126))
METHODS = ["client_secret_basic", "client_secret_post", "none"]


# ------------------------------------------------------------------ C14
def registered(c, n=2):
    """two registered clients with symbolic identifiers and secrets"""
    out = []
    if c.params.get("long"):
        a, b, s = long(c, "id0", 90, TEXT), long(c, "id1", 90, TEXT), long(c, "secret0", 200, TEXT)
        c.assume(c.not_(c.eq(a, b)))
        return [Client(a, s, c.choice("method0", METHODS[:2]), scopes=["a"], grants=["client_credentials"]), Client(b, "other", "client_secret_post", scopes=["a"], grants=["client_credentials"])]
    for i in range(n):
        m = c.choice(f"method{i}", METHODS)
        # (a client may be registered for a secret it was never given)
        sec = None if m == "none" or c.choice(f"bare{i}", [False, True]) else c.str(f"secret{i}", 2, 1, ranges=TEXT)
        out.append(Client(c.str(f"id{i}", 2, 1, ranges=TEXT), sec, m, scopes=["a"], grants=["client_credentials"]))
    for i in range(n):
        for j in range(i):
            c.assume(c.not_(c.eq(out[i].id, out[j].id)))
    return out


def sent(c, name, with_secret=True):
    """credentials as sent: identifier and perhaps a secret"""
    if c.params.get("long"):
        return long(c, name + ".id", 90, TEXT), long(c, name + ".secret", 200, TEXT)
    return c.str(name + ".id", 2, 1, ranges=TEXT), c.str(name + ".secret", 2, 1, ranges=TEXT)


def credentials(c, use_basic, use_form):
    """-> headers, form entries, (basic id, secret) or None, (form id, secret or None) or None"""
    headers, fields, b, f = {}, [], None, None
    if use_basic:
        b = sent(c, "basic")
        c.assume(c.not_(contains(c, b[0], ":")))
        headers["Authorization"] = basic(c, *b)
    if use_form == "post":
        f = sent(c, "form")
        fields = [("client_id", f[0]), ("client_secret", f[1])]
    elif use_form == "none":
        f = (sent(c, "form")[0], None)
        fields = [("client_id", f[0])]
    elif use_form == "secret-only":
        fields = [("client_secret", c.str("form.secret", 2, 1, ranges=ASCII))]
    return headers, fields, b, f


def contains(c, text, ch):
    return c.or_(*[c.eq(x, ch) for x in text])


def proves(c, client, method, cid, secret):
    """these credentials are this client's, by its registered method"""
    if client.method != method:
        return False
    if method == "none":
        return c.eq(client.id, cid)
    return client.secret is not None and c.and_(c.eq(client.id, cid), c.eq(client.secret, secret))


def verdict(c, clients, methods, b, f):
    """[(client, condition under which it is the authenticated one)]"""
    allow = methods or METHODS
    use_b = b is not None and METHODS[0] in allow
    use_p = f is not None and f[1] is not None and METHODS[1] in allow
    use_n = f is not None and f[1] is None and METHODS[2] in allow
    out = []
    for cl in clients:
        if use_b and use_p:
            ok = False  # more than one method
        elif use_b:
            ok = proves(c, cl, METHODS[0], *b)
        elif use_p:
            ok = proves(c, cl, METHODS[1], *f)
        elif use_n:
            ok = proves(c, cl, METHODS[2], f[0], None)
        else:
            ok = False
        out.append((cl, ok))
    return out


def authenticate(c, use_basic, use_form, methods):
    """a request is some client's exactly when it proves to be"""
    from psion.oauth2.authentication import ClientAuthentication
    from psion.oauth2.exceptions import InvalidClient
    clients = registered(c)
    headers, fields, b, f = credentials(c, use_basic, use_form)
    asked = []

    async def find(cid):
        asked.append(cid)
        for x in clients:
            if x.id == cid:
                return x
        return None
    req = request(c, form=c.form_all(fields), headers=headers)
    got, err = c.attempt_run(ClientAuthentication(find)(req, methods) if methods else ClientAuthentication(find)(req))
    want = verdict(c, clients, methods, b, f)
    c.check(c.iff(err is None, c.or_(*[ok for _, ok in want])), "authenticated exactly when the credentials prove it")
    if err is None:
        for cl, ok in want:
            if got is cl:
                c.check(ok, "as the client whose credentials were presented")
        c.check(any(got is cl for cl in clients), "as a registered client")
        c.check(req.client is got, "and the request knows it")
        c.cover("authenticated")
    else:
        c.check(isinstance(err, InvalidClient), "refused as invalid client")
        c.check(req.client is None, "and the request has no client")
        c.cover("refused")


def via_endpoint(c, endpoint, use_basic, use_form, extra=False, long=False):
    """the endpoints act for nobody but the authenticated client"""
    clients = registered(c)
    headers, fields, b, f = credentials(c, use_basic, use_form)
    w = World(c, clients=clients)
    if extra:
        fields = fields + [stranger(c, ["client_id", "client_secret", "grant_type", "scope", "token"])]
    if endpoint == "token":
        fields = fields + [("grant_type", "client_credentials")]
        methods = METHODS[:2]
        resp = c.run(w.provider.token(request(c, form=c.form_all(fields), headers=headers)))
        acts, who = w.of("access"), 2
    else:
        fields = fields + [("token", "t")]
        methods = None
        resp = c.run(w.provider.revoke(request(c, form=c.form_all(fields), headers=headers)))
        acts, who = w.of("revoke"), 1
    want = verdict(c, clients, methods, b, f)
    c.check(c.iff(len(acts) == 1, c.or_(*[ok for _, ok in want])), "acts exactly when authenticated")
    c.check(len(acts) <= 1, "once")
    c.check((resp.status_code == 200) == (len(acts) == 1), "and says so")
    if acts:
        for cl, ok in want:
            if acts[0][who] is cl:
                c.check(ok, "for the client whose credentials were presented")
        c.check(any(acts[0][who] is cl for cl in clients), "for a registered client")
        c.cover("authenticated")
    else:
        c.check(body_of(resp)["error"] == "invalid_client", "reported as invalid_client")
        c.check(resp.status_code == (400 if endpoint == "token" else 401), "with its status")
        c.cover("refused")


def nearly(c, endpoint, what, via):
    """credentials that are nearly a client's, or a registration nearly a method's"""
    cid, secret, method = "client", "secret", {"basic": METHODS[0], "post": METHODS[1], "none": METHODS[2]}[via]
    me = Client(cid, None if via == "none" else secret, method, scopes=["a"], grants=["client_credentials"])
    if what == "id":
        cid = near(c, "id", cid)
    elif what == "secret":
        secret = near(c, "secret", secret)
    elif what == "registered id":
        me.id = near(c, "registered", cid)
    elif what == "registered secret":
        me.secret = near(c, "registered", secret)
    elif what == "method":
        me.method = near(c, "method", c.choice("of", METHODS))
    elif what == "odd":
        if via == "none" or c.choice("which", [True, False]):
            me.id = cid = odd(c, "id")
        else:
            me.secret = secret = odd(c, "secret")
    if via == "basic":
        c.assume(c.not_(contains(c, cid, ":")))
    w = World(c, clients=[me, Client("other", "other", "client_secret_post", scopes=["a"], grants=["client_credentials"])])
    headers = {"Authorization": basic(c, cid, secret)} if via == "basic" else {}
    fields = {"basic": [], "post": [("client_id", cid), ("client_secret", secret)], "none": [("client_id", cid)]}[via]
    if endpoint == "token":
        resp = c.run(w.provider.token(request(c, form=c.form_all(fields + [("grant_type", "client_credentials")]), headers=headers)))
        acts, who = w.of("access"), 2
    else:
        resp = c.run(w.provider.revoke(request(c, form=c.form_all(fields + [("token", "t")]), headers=headers)))
        acts, who = w.of("revoke"), 1
    ok = c.and_(c.eq(me.method, {"basic": METHODS[0], "post": METHODS[1], "none": METHODS[2]}[via]), c.eq(cid, me.id), via == "none" or c.eq(secret, me.secret))
    c.check(c.iff(len(acts) == 1, ok), "acts exactly when authenticated")
    c.check((resp.status_code == 200) == (len(acts) == 1), "and says so")
    if acts:
        c.check(acts[0][who] is me, "for the client whose credentials were presented")
        c.cover("authenticated")
    else:
        c.check(body_of(resp)["error"] == "invalid_client", "reported as invalid_client")
        c.cover("refused")


def query_credentials(c):
    """credentials in the query are no credentials"""
    w = World(c, clients=[Client("a", "s", "client_secret_post", scopes=["a"], grants=["client_credentials"]), Client("p", None, "none", scopes=["a"], grants=["client_credentials"])])
    who = c.choice("who", ["a", "p"])
    q = [("client_id", who)] + ([("client_secret", "s")] if who == "a" else [])
    if c.choice("endpoint", ["token", "revoke"]) == "token":
        resp = c.run(w.provider.token(request(c, query=c.form_all(q), form=c.form_all([("grant_type", "client_credentials")]))))
    else:
        resp = c.run(w.provider.revoke(request(c, query=c.form_all(q), form=c.form_all([("token", "t")]))))
    c.check(not w.log and body_of(resp)["error"] == "invalid_client", "refused")
    c.cover("refused")


def remembered(c):
    """proofs are not remembered from one request to the next"""
    from harness.service import identity_does_not_stick
    identity_does_not_stick(c)


def c14(tier):
    out = [dict(name="octets", fn="octets_prove", params={"size": 3 if tier == "thorough" else 2}, covers=["refused"])]
    sub = [None, METHODS[:2], [METHODS[0]], [METHODS[1]], [METHODS[2]]] if tier == "thorough" else [None, METHODS[:2], [METHODS[2]]]
    for ub in (False, True):
        for uf in ("", "post", "none", "secret-only"):
            for i, m in enumerate(sub):
                allow = m or METHODS
                n = int(ub and METHODS[0] in allow) + int(uf == "post" and METHODS[1] in allow)
                can = n == 1 or (n == 0 and uf == "none" and METHODS[2] in allow)
                out.append(dict(name=f"direct-{'basic' if ub else ''}-{uf}-{i}", fn="authenticate", params={"use_basic": ub, "use_form": uf, "methods": m}, covers=["refused"] + (["authenticated"] if can else [])))
            for ep in ("token", "revoke"):
                n = int(ub) + int(uf == "post")
                can = n == 1 or (n == 0 and uf == "none" and ep == "revoke")
                out.append(dict(name=f"{ep}-{'basic' if ub else ''}-{uf}", fn="via_endpoint", params={"endpoint": ep, "use_basic": ub, "use_form": uf}, covers=["refused"] + (["authenticated"] if can else [])))
    out.append(dict(name="remembered", fn="remembered", covers=["served", "refused"]))
    for ep in ("token", "revoke"):
        out.append(dict(name=f"{ep}-long-basic", fn="via_endpoint", params={"endpoint": ep, "use_basic": True, "use_form": "", "long": True}, covers=["authenticated", "refused"]))
        out.append(dict(name=f"{ep}-long-post", fn="via_endpoint", params={"endpoint": ep, "use_basic": False, "use_form": "post", "long": True}, covers=["authenticated", "refused"]))
        for uf in ("post", "none"):
            out.append(dict(name=f"{ep}-extra-{uf}", fn="via_endpoint", params={"endpoint": ep, "use_basic": False, "use_form": uf, "extra": True}, covers=["refused"] + (["authenticated"] if uf == "post" or ep == "revoke" else [])))
    for ep in ("token", "revoke"):
        for via in ("basic", "post") + (("none",) if ep == "revoke" else ()):
            for what in ("id", "secret", "registered id", "registered secret", "method", "odd"):
                if via != "none" or "secret" not in what:
                    out.append(dict(name=f"{ep}-near-{via}-{what.replace(' ', '-')}", fn="nearly", params={"endpoint": ep, "what": what, "via": via}, covers=["authenticated" if what == "odd" else "refused"]))
    out.append(dict(name="query", fn="query_credentials", covers=["refused"]))
    return out + in_company(["client", "client-error", "revoke", "anonymous"], ["secret", "clients", "method", "replaced"], tier == "thorough")


# ------------------------------------------------------------------ C15
def header_name(c):
    return c.choice("name", ["authorization", "Authorization"])


def parse_basic(c, size):
    """well-formed credentials are read back exactly"""
    from psion.webtools import get_basic_authorization
    cid, sec = (long(c, "id", size, ASCII), long(c, "secret", 2 * size, ASCII)) if size > 20 else (c.str("id", size, ranges=((0, 0x2FF),)), c.str("secret", size, ranges=((0, 0x2FF),)))
    c.assume(c.not_(contains(c, cid, ":")))
    scheme = mixed_case(c, "basic")
    gap = c.choice("gap", [" ", "  "])
    got = get_basic_authorization({header_name(c): scheme + gap + base64.b64encode((cid + ":" + sec).encode("utf-8")).decode("ascii")})
    c.check(c.eq(tuple(got), (cid, sec)), "read back exactly")
    c.cover("read")


def parse_odd(c):
    """whatever they look like"""
    from psion.webtools import get_basic_authorization, get_bearer_authorization
    cid, sec = (odd(c, "id"), "s:") if c.choice("which", [True, False]) else ("i", odd(c, "secret"))
    c.assume(c.not_(contains(c, cid, ":")))
    got = get_basic_authorization({"authorization": "Basic " + base64.b64encode((cid + ":" + sec).encode("utf-8")).decode("ascii")})
    c.check(c.eq(tuple(got), (cid, sec)), "read back exactly")
    tok = c.choice("token", ["a+b/c==", "a%41", "%2B", "a.b-c_d~", "None", "a,b", '"a"', "Bearer", "basic"])
    c.check(get_bearer_authorization({"authorization": "Bearer " + tok}) == tok, "tokens too")
    c.cover("read")


def parse_octets(c, size):
    """octets that are not text are not taken for other text"""
    from psion.webtools import get_basic_authorization
    raw = c.bytes("octets", size)
    if c.choice("colon", [True, False]):
        raw = b"i" + raw + c.choice("rest", [b":s", b":", b"s:"]) + c.bytes("more", 1)
    got, err = c.attempt(get_basic_authorization, {"authorization": "Basic " + base64.b64encode(raw).decode("ascii")})
    c.check(err is None and isinstance(got, tuple) and len(got) == 2, "never fails")
    if got[0] is None or got[1] is None:
        c.check(got == (None, None), "both or neither")
        c.cover("nothing")
        return
    back, err = c.attempt((got[0] + ":" + got[1]).encode, "utf-8")
    # either encoding the header may be in
    same = [c.eq(back, raw)] if err is None else []
    if c.only(got[0] + got[1], ((0, 255),)):
        same.append(c.eq((got[0] + ":" + got[1]).encode("latin-1"), raw))
    c.check(c.or_(*same), "what was sent, nothing left out or made up")
    c.cover("read")


def octets_prove(c, size):
    """octets that are not the client's are not taken for the client's"""
    w = World(c, clients=[Client("id", "se", "client_secret_basic", scopes=["a"], grants=["client_credentials"])])
    x = c.bytes("octets", size, 1)
    raw = c.choice("where", [x + b"id:se", b"i" + x + b"d:se", b"id" + x + b":se", b"id:" + x + b"se", b"id:s" + x + b"e", b"id:se" + x])
    resp = c.run(w.provider.token(request(c, form=c.form_all([("grant_type", "client_credentials")]), headers={"authorization": "Basic " + base64.b64encode(raw).decode("ascii")})))
    c.check(resp.status_code == 400 and len(w.of("access")) == 0, "not the client")
    c.cover("refused")


def mixed_case(c, word):
    if c.choice("case", [False, True]):
        return word[0].upper() + word[1:] if c.choice("cap", [False, True]) else word.upper()
    out = ""
    for i, ch in enumerate(word):
        out += ch.upper() if i in (1, 3) else ch
    return out


def parse_any(c, size, ranges):
    """any header value: credentials or nothing, never a failure"""
    from psion.webtools import get_basic_authorization, get_bearer_authorization
    kind = c.choice("kind", ["free", "basic", "bearer"])
    if kind == "free":
        h = c.str("value", size, ranges=ranges)
    else:
        h = {"basic": "Basic ", "bearer": "Bearer "}[kind] + c.str("value", size, ranges=ranges)
    v, e1 = c.attempt(get_basic_authorization, {header_name(c): h})
    t, e2 = c.attempt(get_bearer_authorization, {header_name(c): h})
    c.check(e1 is None and e2 is None, "never fails")
    c.check(isinstance(v, tuple) and len(v) == 2, "always a pair")
    if v[0] is None or v[1] is None:
        c.check(v[0] is None and v[1] is None, "both or neither")
    else:
        c.check(kind == "basic", "credentials only from the Basic scheme")
        c.check(c.not_(contains(c, v[0], ":")), "the identifier ends at the first colon")
        c.cover("basic")
    if t is not None:
        c.check(kind == "bearer", "a token only from the Bearer scheme")
        c.cover("bearer")
    c.cover("nothing", v[0] is None and t is None)


def parse_bearer(c, size):
    from psion.webtools import get_bearer_authorization
    tok = c.str("token", size, 1, ranges=ASCII) if size < 20 else long(c, "token", size, ASCII)
    got = get_bearer_authorization({header_name(c): mixed_case(c, "bearer") + c.choice("gap", [" ", "  "]) + tok})
    c.check(c.eq(got, tok), "read back exactly")
    c.cover("read")


def parse_scheme(c, word):
    """only the very scheme, in any case, counts"""
    from psion.webtools import get_basic_authorization, get_bearer_authorization
    n = len(word)
    shape = c.choice("shape", ["same", "longer", "prefixed", "shorter", "free"])
    letter = ((45, 45), (65, 90), (97, 122))
    if shape == "same":
        k = c.choice("at", list(range(n)))
        scheme = word[:k] + c.str("letter", 1, 1, ranges=letter) + word[k + 1:]
    elif shape == "longer":
        scheme = word + c.str("more", 2, 1, ranges=letter)
    elif shape == "prefixed":
        scheme = c.str("more", 2, 1, ranges=letter) + word
    elif shape == "shorter":
        k = c.choice("at", list(range(n)))
        scheme = word[:k] + word[k + 1:]
    else:
        scheme = c.str("scheme", 3, 1, ranges=letter)
    right = c.and_(len(scheme) == n, *[c.or_(c.eq(x, y), c.eq(x, y.upper())) for x, y in zip(scheme, word)])
    value = scheme + c.choice("gap", [" ", "\t ", "   "]) + "YTpi"
    got = get_basic_authorization({header_name(c): value})
    tok = get_bearer_authorization({header_name(c): value})
    if word == "basic":
        c.check(c.iff(got != (None, None), right), "read exactly from the Basic scheme")
        c.check(tok is None, "which is not the Bearer scheme")
        if got[0] is not None:
            c.check(tuple(got) == ("a", "b"), "as sent")
    else:
        c.check(c.iff(tok is not None, right), "read exactly from the Bearer scheme")
        c.check(tuple(got) == (None, None), "which is not the Basic scheme")
        if tok is not None:
            c.check(c.eq(tok, "YTpi"), "as sent")
    c.cover("read" if got[0] is not None or tok is not None else "ignored")


def parse_again(c):
    """each header by itself"""
    from psion.webtools import get_basic_authorization, get_bearer_authorization
    def basic_(a, b):
        return "Basic " + base64.b64encode((a + ":" + b).encode("utf-8")).decode("ascii")
    a, b = c.str("a", 1, 1, ranges=((97, 122),)), c.str("b", 1, 1, ranges=((97, 122),))
    kinds = [("basic", {"authorization": basic_(a, b)}, (a, b), None), ("other", {"Authorization": basic_(b, a)}, (b, a), None), ("bearer", {"authorization": "Bearer " + a}, (None, None), a),
             ("bearer2", {"authorization": "bearer " + b + a}, (None, None), b + a), ("none", {}, (None, None), None), ("junk", {"authorization": "Basic !"}, (None, None), None)]
    for i in range(3):
        _, h, want, tok = kinds[c.choice(f"kind{i}", list(range(len(kinds))))]
        c.check(c.eq(tuple(get_basic_authorization(h)), want), "its own credentials")
        c.check(c.eq(get_bearer_authorization(h), tok), "its own token")
    c.cover("done")


def parse_absent(c):
    from psion.webtools import get_basic_authorization, get_bearer_authorization
    h = c.choice("headers", [{}, {"authorization": ""}, {"authorization": None}, {"authorization": 5}, {"x": "Basic YTpi"}, {"authorization": "Basic"}, {"authorization": "Basic "}, {"authorization": " "}, {"authorization": "Digest YTpi"}, {"authorization": "BasicYTpi"}])
    c.check(get_basic_authorization(h) == (None, None), "no credentials")
    c.check(get_bearer_authorization(h) is None, "no token")
    c.cover("nothing")


def through_request(c, size):
    """header names are matched whatever their case, end to end"""
    name = c.choice("name", ["authorization", "Authorization", "AUTHORIZATION", "AuThOrIzAtIoN"])
    cid, sec = c.str("id", size, 1, ranges=ASCII), c.str("secret", size, 1, ranges=ASCII)
    c.assume(c.not_(contains(c, cid, ":")))
    w = World(c, clients=[Client(cid, sec, "client_secret_basic", scopes=["a"], grants=["client_credentials"])])
    resp = c.run(w.provider.token(request(c, form=c.form_all([("grant_type", "client_credentials")]), headers={name: basic(c, cid, sec)})))
    c.check(resp.status_code == 200 and len(w.of("access")) == 1, "authenticated")
    c.cover("authenticated")


def c15(tier):
    t = tier == "thorough"
    return [
        dict(name="basic", fn="parse_basic", params={"size": 3 if t else 1}, covers=["read"]),
        dict(name="any-ascii", fn="parse_any", params={"size": 6 if t else 4, "ranges": [[0, 127]]}, covers=["basic", "bearer", "nothing"]),
        dict(name="any-text", fn="parse_any", params={"size": 3 if t else 2, "ranges": None}, covers=["bearer", "nothing"]),
        dict(name="bearer", fn="parse_bearer", params={"size": 6 if t else 4}, covers=["read"]),
        dict(name="basic-long", fn="parse_basic", params={"size": 301}, covers=["read"]), dict(name="basic-very-long", fn="parse_basic", params={"size": 1700}, covers=["read"]),
        dict(name="bearer-long", fn="parse_bearer", params={"size": 5000}, covers=["read"]),
        dict(name="odd", fn="parse_odd", covers=["read"]),
        dict(name="octets", fn="parse_octets", params={"size": 3 if t else 2}, covers=["read", "nothing"]),
        dict(name="again", fn="parse_again", covers=["done"]),
        dict(name="absent", fn="parse_absent", covers=["nothing"]),
        dict(name="scheme-basic", fn="parse_scheme", params={"word": "basic"}, covers=["read", "ignored"]),
        dict(name="scheme-bearer", fn="parse_scheme", params={"word": "bearer"}, covers=["read", "ignored"]),
        dict(name="request", fn="through_request", params={"size": 3 if t else 2}, covers=["authenticated"]),
    ]


GOALS = {"C14": c14, "C15": c15}
