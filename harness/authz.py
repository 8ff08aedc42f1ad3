"""The authorization endpoint: who gets a code, and where answers go."""
from urllib.parse import parse_qsl, urlsplit

from harness.world import ERROR_URL, HEX, Client, User, World, company, in_company, location, long, near, odd, request  # noqa: F401 - company is a goal

TOKEN = ((97, 99),)
WORD = ((48, 57), (65, 90), (97, 122))
URI = ((47, 47), (63, 63), (65, 90), (97, 122))
BASE = "https://c.example/"


def query_of(url):
    return parse_qsl(urlsplit(url).query, keep_blank_values=True)


def present(c, entries, key, value):
    """a parameter counts when it is there and not blank"""
    return c.and_(c.has(entries, key), c.not_(c.eq(value, "")))


def scope_text(c, n, size=1, ranges=TOKEN):
    """-> text of n scope tokens, and the tokens"""
    toks = [c.str(f"scope{i}", size, 1, ranges=ranges) for i in range(n)]
    gap = c.choice("gap", [" ", "  "]) if n > 1 else " "
    return gap.join(toks), toks


class Case:
    """one authorization request and the conditions it has to meet"""


def make(c, want, where=None, scopes=1, lengths=(43,), uris=1, redirect=None, state_ranges=TOKEN, hooks=(), user=True, present_all=False, responses=None):
    k = Case()
    close = "odd" in want or any(w.startswith("near-") for w in want)
    # some allowed but not offered, some offered but not allowed, overlapping
    k.offered = ["ab", "b", "Cd"] if "names" in want else ["a", "b", "c"]
    k.client = Client(c.str("id", 1, 1, ranges=TOKEN), None, "none",
                      uris=[BASE + c.str(f"uri{i}", 1, ranges=URI) for i in range(uris)] if redirect is None else redirect,
                      scopes=["a", "ab", "b", "abc", "Cd", "cd"] if "names" in want else ["a", "b"] if "scopes" in want else ["a", "b", "c"], grants=["authorization_code"],
                      responses=c.choice("responses", [["code"], [], ["token"], ["token", "code"]]) if "responses" in want else ["code"])
    k.other = Client("x", None, "none", uris=["https://other.example/"], scopes=["a", "b", "c"], grants=["authorization_code"])
    k.user = User("u") if user is True else c.choice("user", [User("u"), None])
    k.v = {
        "response_type": c.choice("response_type", ["code", "token", "text"]) if "response_type" in want else "code",
        "client_id": c.str("client_id", 1, ranges=((97, 99), (120, 120))) if "client_id" in want else k.client.id,
        "redirect_uri": (c.choice("target", ["own", "free", "foreign"]) if "redirect_uri" in want else "own"),
        "state": "s" if close else c.str("state", 1, ranges=state_ranges),
        "code_challenge_method": c.choice("method", ["plain", "S256", "text"]) if "method" in want else "S256" if close else c.choice("method", ["plain", "S256"]),
    }
    if "long" in want:
        # long values, many registrations: what is compared is all of it
        k.offered = [f"scope:{i:02d}/read-and-write-anything" for i in range(64)]
        k.client.id, k.client.scopes = long(c, "id", 90, TOKEN), k.offered[:60]
        k.client.uris = [BASE + f"callback/{i}" for i in range(40)] + [BASE + "cb?app=1&x=" + long(c, "uri", 600, TOKEN)]
        k.client.responses = ["id_token", "token", "id_token token", "code"]
        k.v.update(client_id=long(c, "client_id", 90, TOKEN), redirect_uri="long", state=long(c, "state", 700, state_ranges))
    if k.v["response_type"] == "text":
        k.v["response_type"] = c.str("response_type.text", 4, 1, ranges=WORD)
    if k.v["code_challenge_method"] == "text":
        k.v["code_challenge_method"] = c.str("method.text", c.choice("method.len", [4, 5]), 4, ranges=WORD)
    if k.v["redirect_uri"] == "own":
        k.v["redirect_uri"] = c.choice("which", k.client.uris)
    elif k.v["redirect_uri"] == "long":
        k.v["redirect_uri"] = c.choice("which", [k.client.uris[39], BASE + "cb?app=1&x=" + long(c, "redirect", 600, TOKEN)])
    elif k.v["redirect_uri"] == "foreign":
        k.v["redirect_uri"] = "https://other.example/"
    else:
        k.v["redirect_uri"] = BASE + c.str("redirect", 2, ranges=URI)
    n = c.choice("length", list(lengths))
    k.v["code_challenge"] = c.str("challenge", n, n, ranges=((33, 126),))
    k.v["scope"], k.toks = scope_text(c, scopes, 2 if "names" in want else 1, ((67, 67), (97, 100)) if "names" in want else ((97, 100),) if "scopes" in want else TOKEN)
    if "long" in want:
        k.toks = k.offered[3:55] + [k.offered[0][:-1] + c.str("scope", 1, 1, ranges=((102, 104),)), c.choice("last", k.offered[58:62])]
        k.v["scope"] = " ".join(k.toks)
    for w in want:
        if w.startswith("near-"):
            almost(c, k, w[5:])
    if "odd" in want:
        k.v["state"] = odd(c, "state")
    names = ["response_type", "client_id", "redirect_uri", "scope", "state", "code_challenge", "code_challenge_method"]
    fields = [(m, k.v[m]) for m in names]
    if "extra" in want:
        # a parameter nobody asked for
        extra = c.str("extra", 6, 1, ranges=((95, 95), (97, 122)))
        c.assume(c.not_(c.isin(extra, names)))
        fields.append((extra, c.str("extra.value", 4, ranges=WORD)))
    k.entries = c.form("q", fields) if "presence" in want else c.form_all(fields)
    k.world = World(c, clients=[k.client, k.other], users=[User("u")], scopes=k.offered, hooks=hooks)
    if "after" in want:
        earlier(c, k)
    where = where or c.choice("where", ["query", "body"])
    k.req = request(c, "GET" if where == "query" else "POST", query=k.entries if where == "query" else None, form=k.entries if where == "body" else None, user=k.user)
    k.has = lambda m: present(c, k.entries, m, k.v[m])
    return k


def almost(c, k, what):
    """one thing that is nearly what it should be, in the request or in what the
    client is registered for"""
    cl = k.client
    cl.id, cl.uris, cl.scopes, k.offered = "client", [BASE + "cb"], ["read", "write"], ["read", "write", "admin"]
    k.other.id = "other"
    k.toks = ["read", c.choice("second", ["write", "admin"])] if what in ("scope", "allowed", "offered") else ["read"]
    k.v.update(client_id=cl.id, redirect_uri=cl.uris[0], scope=" ".join(k.toks))
    if what == "scope":
        k.toks[0] = near(c, what, "read", NOT_SPACE)
        k.v["scope"] = " ".join(k.toks)
    elif what == "redirect_uri":
        k.v[what] = near(c, what, c.choice("of", cl.uris + [BASE, k.other.uris[0]]))
    elif what in k.v:
        k.v[what] = near(c, what, c.choice("of", ["plain", "S256"]) if what == "code_challenge_method" else k.v[what])
    elif what == "uris":
        cl.uris = [near(c, what, BASE + "cb")]
    elif what == "id":
        cl.id = near(c, what, "client")
    elif what == "allowed":
        cl.scopes[0] = near(c, what, "read", NOT_SPACE)
    elif what == "offered":
        k.offered[0] = near(c, what, "read", NOT_SPACE)
    elif what == "responses":
        cl.responses = [near(c, what, "code")]


NOT_SPACE = ((33, 126), (0xC0, 0xFF), (0x3A0, 0x3FF), (0x1F600, 0x1F64F))
NEARS = ["client_id", "id", "redirect_uri", "uris", "response_type", "responses", "code_challenge_method", "scope", "allowed", "offered"]


def earlier(c, k):
    """requests served before, some under a registration since narrowed"""
    what = c.choice("earlier", ["own", "wider", "refused", "other", "consent", "anonymous", "thrice"])
    cl = k.other if what == "other" else k.client
    was = cl.uris, cl.scopes, cl.responses
    if what == "wider":
        cl.uris, cl.scopes, cl.responses = cl.uris + ["https://other.example/"], list(k.offered), ["code", "token"]
    f = [("response_type", "code"), ("client_id", cl.id), ("redirect_uri", cl.uris[-1]), ("scope", "zz" if what == "refused" else k.offered[0]), ("state", "old"), ("code_challenge", "o" * 43), ("code_challenge_method", "plain")]
    if what == "wider":
        f[3] = ("scope", " ".join(k.offered))
    req = request(c, "GET", query=c.form_all(f), user=None if what == "anonymous" else User("old"))
    ep = k.world.provider.authorize
    for _ in range(3 if what == "thrice" else 1):
        c.run(ep.get_consent_data(req) if what == "consent" else ep(req))
    cl.uris, cl.scopes, cl.responses = was
    k.world.log.clear()


def known_target(c, k):
    """the request names a registered client and one of its redirect URIs"""
    return c.and_(k.has("client_id"), k.has("redirect_uri"), k.has("response_type"), c.or_(*[
        c.and_(c.eq(k.v["client_id"], cl.id), c.isin(k.v["redirect_uri"], cl.uris)) for cl in (k.client, k.other)]))


def requester(c, k):
    """conditions under which each client is the one asking"""
    return [(cl, c.and_(c.eq(k.v["client_id"], cl.id), c.isin(k.v["redirect_uri"], cl.uris))) for cl in (k.client, k.other)]


def authorized(c, k):
    """every condition for issuing a code"""
    n = len(k.v["code_challenge"])
    who = []
    for cl, cond in requester(c, k):
        who.append(c.and_(cond, c.isin("code", cl.responses), *[c.isin(t, cl.scopes) for t in k.toks]))
    return c.and_(
        known_target(c, k), k.user is not None, c.eq(k.v["response_type"], "code"),
        k.has("code_challenge"), 43 <= n <= 128, k.has("code_challenge_method"), c.isin(k.v["code_challenge_method"], ["plain", "S256"]),
        k.has("scope"), *[c.isin(t, k.offered) for t in k.toks], c.or_(*who))


# ------------------------------------------------------------------ C16
def issue(c, **shape):
    """a code is issued exactly for a valid request, and bound to it exactly"""
    k = make(c, **shape)
    resp = c.run(k.world.provider.authorize(k.req))
    saves = k.world.of("save")
    c.check(c.iff(len(saves) > 0, authorized(c, k)), "a code is issued exactly for a valid request")
    if not saves:
        c.check(not [1 for n, v in query_of(location(resp)) if n == "code"], "no code in an error answer")
        c.cover("refused")
        return
    c.check(len(saves) == 1, "one code")
    _, code, data, client, user = saves[0]
    c.check(c.or_(*[c.and_(client is cl, cond) for cl, cond in requester(c, k)]), "bound to the client")
    c.check(user is k.user, "bound to the user")
    c.check(c.eq(data.get("redirect_uri"), k.v["redirect_uri"]), "bound to the redirect URI")
    c.check(c.eq(data.get("code_challenge"), k.v["code_challenge"]), "bound to the challenge")
    c.check(c.eq(data.get("code_challenge_method"), k.v["code_challenge_method"]), "bound to the challenge method")
    c.check(c.eq(list(data.get("scopes")), list(k.toks)), "bound to the scopes")
    got = [v for n, v in query_of(location(resp)) if n == "code"]
    c.check(len(got) == 1 and c.eq(got[0], code), "the code handed out is the code saved")
    c.cover("issued")


def c16(tier):
    t = tier == "thorough"
    both = ["issued", "refused"]
    return [
        dict(name="presence", fn="issue", params={"want": ["presence"], "where": "query"}, covers=both),
        dict(name="presence-body", fn="issue", params={"want": ["presence", "method"], "where": "body"}, covers=both),
        dict(name="client", fn="issue", params={"want": ["client_id", "redirect_uri"], "uris": 2 if t else 1}, covers=both),
        dict(name="responses", fn="issue", params={"want": ["responses", "response_type"]}, covers=both),
        dict(name="user", fn="issue", params={"want": [], "user": "any"}, covers=both),
        dict(name="long", fn="issue", params={"want": ["long"]}, covers=both),
        dict(name="extra", fn="issue", params={"want": ["extra"], "user": "any"}, covers=both),
        dict(name="after", fn="issue", params={"want": ["after", "presence"], "where": "query", "user": "any"}, covers=both),
        dict(name="after-target", fn="issue", params={"want": ["after", "redirect_uri", "scopes"], "where": "query", "user": "any"}, covers=both),
        dict(name="scopes", fn="issue", params={"want": ["scopes"], "scopes": 3 if t else 2}, covers=both),
        dict(name="names", fn="issue", params={"want": ["names"], "scopes": 2, "where": "query"}, covers=both),
        dict(name="challenge", fn="issue", params={"want": ["method"], "lengths": [1, 2, 22, 42, 43, 44, 64, 86, 127, 128, 129, 130, 200] if t else [1, 42, 43, 128, 129]}, covers=both),
        dict(name="all", fn="issue", params={"want": ["client_id", "redirect_uri", "responses", "scopes", "method"], "where": "query"}, covers=both),
        *[dict(name="near-" + n, fn="issue", params={"want": ["near-" + n], "where": "query"}, covers=["refused"]) for n in NEARS],
    ] + in_company(["authorize", "authorize-plain", "authorize-error"], ["clients", "scopes", "uris", "responses", "replaced"], t)


# ------------------------------------------------------------------ C17
def target_of(c, loc, base):
    """does loc go to base?  (base itself, or base with parameters added)"""
    return c.or_(c.eq(loc, base), starts(c, loc, base + "?"), starts(c, loc, base + "&"))


def starts(c, text, head):
    n = len(head)
    if len(text) < n:
        return False
    return c.eq(text[:n], head)


def no_open_redirect(c, entry="authorize", **shape):
    """answers go to a registered redirect URI of the named client, or else to
    the server's own error page"""
    k = make(c, **shape)
    ep = k.world.provider.authorize
    resp = c.run(ep(k.req) if entry == "authorize" else ep.get_consent_data(k.req))
    if isinstance(resp, dict):
        c.check(known_target(c, k), "consent only for a registered client and redirect URI")
        c.cover("consent")
        return
    loc = location(resp)
    known = known_target(c, k)
    own = target_of(c, loc, ERROR_URL)
    theirs = target_of(c, loc, k.v["redirect_uri"])
    c.check(c.or_(c.and_(known, theirs), c.and_(c.not_(known), own)), "to the registered redirect URI, or to the error page")
    c.cover("redirected", known)
    c.cover("error page", c.not_(known))


def c17(tier):
    t = tier == "thorough"
    out = []
    for entry in ("authorize", "consent"):
        full = ["redirected", "error page"] + (["consent"] if entry == "consent" else [])
        out += [
            dict(name=f"{entry}-presence", fn="no_open_redirect", params={"entry": entry, "want": ["presence"], "user": "any"}, covers=full),
            dict(name=f"{entry}-target", fn="no_open_redirect", params={"entry": entry, "want": ["client_id", "redirect_uri", "response_type"], "uris": 2 if t else 1, "user": "any"}, covers=full),
            dict(name=f"{entry}-extra", fn="no_open_redirect", params={"entry": entry, "want": ["extra", "redirect_uri", "method"], "user": "any"}, covers=["redirected", "error page"] if entry == "authorize" else full[1:]),
            dict(name=f"{entry}-after", fn="no_open_redirect", params={"entry": entry, "want": ["after", "redirect_uri", "scopes"], "where": "query", "user": "any"}, covers=full if entry == "authorize" else full[1:]),
            dict(name=f"{entry}-long", fn="no_open_redirect", params={"entry": entry, "want": ["long"], "user": "any"}, covers=full[-2:] if entry == "consent" else full),
            dict(name=f"{entry}-both", fn="no_open_redirect", params={"entry": entry, "want": ["presence", "redirect_uri", "responses", "scopes"], "where": "query"}, covers=full),
            dict(name=f"{entry}-invalid", fn="no_open_redirect", params={"entry": entry, "want": ["client_id", "redirect_uri", "method", "scopes"], "lengths": [42, 43], "where": "body"}, covers=["redirected", "error page"] if entry == "authorize" else ["consent", "error page"]),
            *[dict(name=f"{entry}-near-{n}", fn="no_open_redirect", params={"entry": entry, "want": ["near-" + n], "where": "query"}, covers=["error page"]) for n in NEARS[:4]],
        ]
    return out + in_company(["authorize", "authorize-error", "consent"], ["clients", "uris"], t)


# ------------------------------------------------------------------ C18
SAFE = ((33, 126),)


def reason(c, k):
    """{error: condition under which it is the reason}, for a known target"""
    n = len(k.v["code_challenge"])
    code = c.eq(k.v["response_type"], "code")
    may = c.or_(*[c.and_(cond, c.isin("code", cl.responses)) for cl, cond in requester(c, k)])
    proper = c.and_(k.has("code_challenge"), 43 <= n <= 128, k.has("code_challenge_method"), c.isin(k.v["code_challenge_method"], ["plain", "S256"]), k.has("scope"))
    if k.user is None:
        return {"access_denied": True}
    return {"unsupported_response_type": c.not_(code), "unauthorized_client": c.and_(code, c.not_(may)), "invalid_request": c.and_(code, may, c.not_(proper)), "invalid_scope": c.and_(code, may, proper)}


def faithful(c, entry="authorize", uri=None, **shape):
    """every answer carries the state it was asked with, the code or one error,
    keeps what the redirect URI already had, and is a safe header"""
    if uri is not None:
        # (registered redirect URIs have no fragment: RFC 6749, 3.1.2)
        c_uri = BASE + c.str("path", 1, ranges=((0, 34), (36, 0xD7FF), (0xE000, 0x10FFFF)) if uri == "text" else ((97, 122),)) + {"plain": "", "query": "?x=1&y=", "text": "", "percent": ""}[uri]
        if uri == "percent":
            c_uri += "%" + c.str("hex", 2, 2, ranges=HEX) + "+;=/?x=1&y=" + c.choice("y", ["%2fz%3D+%26", "a%20b", "%%41", "&=&z"])
        shape["redirect"] = [c_uri]
    k = make(c, **shape)
    if uri is not None:
        c.assume(c.not_(c.isin(k.client.id, ["x"])))
    ep = k.world.provider.authorize
    resp = c.run(ep(k.req) if entry == "authorize" else ep.get_consent_data(k.req))
    if isinstance(resp, dict):
        c.cover("consent")
        return
    loc = location(resp)
    c.check(c.only(loc, SAFE), "the Location header is printable ASCII without spaces")
    c.check(resp.status_code in (302, 303), "a redirection")
    q = query_of(loc)
    known = known_target(c, k)
    codes = [v for n, v in q if n == "code"]
    errors = [v for n, v in q if n == "error"]
    c.check(len(codes) + len(errors) == 1, "a code or one error, never both")
    states = [v for n, v in q if n == "state"]
    c.check(len(states) <= 1, "at most one state")
    sent = k.has("state")
    if states:
        c.check(c.implies(known, c.and_(sent, c.eq(states[0], k.v["state"]))), "the state is the one sent")
        c.cover("state")
    else:
        c.check(c.not_(c.and_(known, sent)), "a state sent comes back")
        c.cover("no state")
    if "long" in shape.get("want", ()):
        c.check(c.implies(known, c.eq(loc[:len(k.v["redirect_uri"])], k.v["redirect_uri"])), "the redirect URI is kept")
    if uri in ("query", "percent"):
        if not starts(c, loc, ERROR_URL):
            c.check(len([1 for n, v in q if n == "x" and v == "1"]) == 1 and q[0][0] == "x", "the redirect URI keeps its parameters")
            c.check(c.eq(loc.partition("?")[0], c_uri.partition("?")[0]), "and its address")
            if uri == "percent":
                c.check([x for x in q if x[0] not in ("state", "code", "error", "error_description")] == query_of(c_uri), "all of them")
            c.check("?" not in loc.partition("?")[2], "with one query")
    if codes:
        c.check(c.eq(codes[0], k.world.of("save")[0][1]), "the code issued")
        c.cover("code")
    else:
        c.check(errors[0] in ERRORS, "a registered error code")
        if entry == "authorize":
            c.check(c.implies(known, reason(c, k).get(errors[0], False)), "the error is the one for the reason")
        else:
            c.check(c.implies(known, c.ite(k.has("scope"), errors[0] == "unauthorized_client", errors[0] in ("unauthorized_client", "invalid_request"))), "the error is the one for the reason")
        c.cover("error")


ERRORS = ["invalid_request", "unauthorized_client", "access_denied", "unsupported_response_type", "invalid_scope", "server_error", "temporarily_unavailable"]


def c18(tier):
    t = tier == "thorough"
    out = [
        dict(name="presence", fn="faithful", params={"want": ["presence", "response_type"], "user": "any", "where": "query"}, covers=["state", "no state", "code", "error"]),
        dict(name="consent", fn="faithful", params={"entry": "consent", "want": ["presence", "responses"], "user": "any", "where": "query"}, covers=["state", "no state", "consent", "error"]),
        dict(name="after", fn="faithful", params={"want": ["after", "presence", "scopes"], "user": "any", "where": "query"}, covers=["state", "no state", "error", "code"]),
        dict(name="extra", fn="faithful", params={"want": ["extra", "method", "scopes"], "user": "any"}, covers=["state", "error", "code"]),
        dict(name="long", fn="faithful", params={"want": ["long"], "where": "query", "state_ranges": SAFE}, covers=["state", "error", "code"]),
        dict(name="errors", fn="faithful", params={"want": ["redirect_uri", "responses", "scopes", "method"], "lengths": [42, 43], "where": "query"}, covers=["state", "error", "code"]),
        dict(name="state", fn="faithful", params={"want": ["method"], "state_ranges": None, "where": "query"}, covers=["state", "error", "code"]),
    ]
    out.append(dict(name="state-odd", fn="faithful", params={"want": ["odd"], "where": "query", "user": "any"}, covers=["state", "error", "code"]))
    out.append(dict(name="state-odd-consent", fn="faithful", params={"entry": "consent", "want": ["odd", "responses"], "where": "query"}, covers=["state", "error", "consent"]))
    out.append(dict(name="state-odd-body", fn="faithful", params={"want": ["odd"], "where": "body"}, covers=["state", "code"]))
    out += [dict(name="near-" + n, fn="faithful", params={"want": ["near-" + n], "where": "query"}, covers=["state", "error"]) for n in NEARS[4:]]
    for u in ("plain", "query", "text", "percent"):
        out.append(dict(name=f"uri-{u}", fn="faithful", params={"want": ["method", "scopes"], "uri": u, "where": "query"}, covers=["state", "error", "code"]))
    return out + in_company(["authorize", "authorize-plain", "authorize-error"], ["scopes", "responses"], t)


GOALS = {"C16": c16, "C17": c17, "C18": c18}
