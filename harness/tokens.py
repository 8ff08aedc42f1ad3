"""The token endpoint: what each grant gives, to whom, and when."""
import base64
import datetime as dt

from harness.world import ERROR_URL, ISSUER, Client, Code, Refresh, Step, User, World, basic, body_of, company, in_company, long, near, odd, request  # noqa: F401 - company is a goal

AB = ((97, 98),)
NOT_SPACE = ((33, 126), (0xC0, 0xFF), (0x3A0, 0x3FF), (0x1F600, 0x1F64F))
ABC = ((97, 99),)
SPACED = ((9, 13), (32, 32), (97, 98))
WORD = ((48, 57), (65, 90), (97, 122))
UNRESERVED = ((45, 46), (48, 57), (65, 90), (95, 95), (97, 122), (126, 126))
U1, U2 = "https://c.example/1", "https://c.example/2"
T0, T1 = 1600000000, 1700000000
NOW = 1609459200
LATER = dt.datetime(2021, 1, 1, 1)
EARLIER = dt.datetime(2020, 12, 31)
NO_STORE = {"Cache-Control": "no-store", "Pragma": "no-cache", "Content-Type": "application/json"}


def s256(c, verifier):
    return base64.urlsafe_b64encode(c.sha("sha256", verifier.encode("ascii"))).rstrip(b"=").decode("ascii")


def headers_ok(c, resp):
    return all(resp.headers.get(k) == v for k, v in NO_STORE.items())


def scope_set(c, got, want):
    """the same scopes, in any order"""
    got, want = list(got), list(want)
    return c.and_(*[c.isin(x, want) for x in got], *[c.isin(x, got) for x in want])


def moment(c, us):
    """naive UTC datetime of an instant"""
    return dt.datetime(1970, 1, 1) + dt.timedelta(microseconds=us)


def stranger(c, names):
    """a parameter nobody asked for"""
    name = c.str("extra", 6, 1, ranges=((95, 95), (97, 122)))
    c.assume(c.not_(c.isin(name, names)))
    return name, c.str("extra.value", 4, ranges=WORD)


def earlier(c, w, cl, now=NOW * 10**6):
    """requests served before, some under a registration or at a time since past"""
    what = c.choice("earlier", ["redeemed", "failed", "refreshed", "narrowed", "client", "other", "thrice", "long ago"])
    who = w.clients[1] if what == "other" else cl
    was, kept = (who.scopes, who.grants), (w.codes, w.refresh, w.users)
    who.grants = GRANTS
    if what == "narrowed":
        who.scopes = list(w.offered)
    old = User("old")
    w.users = [*w.users, old]
    w.codes = [Code("old", who.id, "old", U2, list(who.scopes), "o" * 43, "plain", dt.datetime(2060, 1, 1))]
    w.refresh = [Refresh("old", who.id, "old", list(who.scopes), dt.datetime(2060, 1, 1))]
    c.set_now(NOW * 10**6)
    if what == "long ago":
        c.set_now((T0 - 10**8) * 10**6)
    for i in range(3 if what == "thrice" else 1):
        if what in ("refreshed", "narrowed", "thrice"):
            f = [("grant_type", "refresh_token"), ("refresh_token", "old")]
        elif what == "client":
            f = [("grant_type", "client_credentials")]
        else:
            f = [("grant_type", "authorization_code"), ("code", "old"), ("redirect_uri", U2), ("code_verifier", ("x" if what == "failed" else "o") * 43)]
        f.append(("client_id", who.id))
        h = {}
        if who.method == "client_secret_post":
            f.append(("client_secret", who.secret))
        elif who.method == "client_secret_basic":
            f.pop()
            h = {"Authorization": basic(c, who.id, who.secret)}
        c.run(w.provider.token(request(c, form=c.form_all(f), headers=h, user=old)))
    (who.scopes, who.grants), (w.codes, w.refresh, w.users) = was, kept
    c.set_now(now)
    w.log.clear()


# ------------------------------------------------------------------ C19
def redeem(c, vary, lifespan=3600):
    """a code is worth tokens exactly to the client it was issued to, with its
    redirect URI, its verifier, in time -- and then to its user and scopes"""
    me, other = Client("m", None, "none", uris=[U1, U2], scopes=["a", "b"], grants=["authorization_code"]), Client("o", None, "none", uris=[U1, U2], scopes=["a", "b"], grants=["authorization_code"])
    if "refresh" in vary:
        me.grants.extend(c.choice("refresh", [["refresh_token"], [], ["no_refresh_token", "refresh_tokens"]]))
    users = [User("u1"), User("u2")]
    method = c.choice("method", ["plain", "S256"] + (["s256", "other", None] if "pkce" in vary else []))
    n = c.choice("length", [43, 128]) if "long" in vary else 43
    if method != "S256":
        challenge = c.str("challenge", n, n, ranges=WORD)
    else:
        challenge = s256(c, "v" * n)
        if "pkce" in vary:
            stored = c.choice("stored", ["hashed", "free"])
            if stored == "free":
                m = c.choice("stored.len", [42, 43, 44])
                challenge = c.str("challenge", m, m, ranges=UNRESERVED + ((61, 61),))
            else:
                challenge = s256(c, c.str("original", n, n, ranges=WORD))
    verifier = "v" * n
    if "pkce" in vary:
        kind = c.choice("verifier", ["same", "free", "challenge", "other length", "wide", "spaced"])
        if kind == "challenge":
            verifier = challenge
        elif kind == "free":
            verifier = c.str("verifier", n, n, ranges=WORD)
        elif kind == "other length":
            n = c.choice("verifier.len", [1, 42, 44, 64])
            verifier = c.str("verifier", n, n, ranges=WORD)
        elif kind == "spaced":
            # (as sent, white space included)
            verifier = c.str("verifier", 2, 1, ranges=SPACED) + "v" * (n - 3) + c.str("verifier.end", 2, 1, ranges=SPACED)
        elif kind == "wide":
            verifier = "v" * 42 + c.str("verifier", 1, 1, ranges=((128, 0x10FF),))
        elif method != "S256":
            verifier = challenge
    elif "long" in vary:
        verifier = long(c, "verifier", n, WORD)
        challenge = long(c, "original", n, WORD)
        challenge = challenge if method == "plain" else s256(c, challenge)
    elif method == "plain":
        challenge = verifier
    if "time" in vary:
        c.set_tz(c.choice("tz", [0, 330, -300]))
        now, exp = c.instant("now", T0, T1), c.instant("expires", T0, T1)
    else:
        now, exp = NOW * 10**6, (NOW + 60) * 10**6
    c.set_now(now)
    issued_to = c.choice("issued_to", [me, other]) if "client" in vary else me
    where = c.choice("bound", [U1, U2]) if "redirect" in vary else U1
    if "long" in vary:
        where = "https://c.example/" + long(c, "bound", 300, WORD)
        me.uris = [f"https://c.example/{i}" for i in range(12)] + [where]
    scopes = c.choice("granted", [["a"], ["a", "b"], ["b"]] + ([[]] if "after" not in vary else [])) if "scopes" in vary else ["a"]
    uid = c.choice("user", ["u1", "u2", "gone"]) if "user" in vary else "u1"
    text = c.str("code", 2, 2, ranges=AB) if "code" in vary else long(c, "code", 200, WORD) if "long" in vary else "aa"
    close = [v[5:] for v in vary if v.startswith("near-")]
    holder = issued_to.id
    if close:
        me.id = holder = "client"
        text, where, scopes = "code-1", U1 + "/cb", ["read", "write"]
        if method == "plain":
            challenge = "Challenge-of-some_43.characters~0123456789A"
            verifier = challenge
    if "holder" in close:
        holder = near(c, "holder", "client")
    if "method" in close:
        method = near(c, "method", c.choice("of", ["plain", "S256"]))
    codes = [Code(text, holder, uid, where, scopes, challenge, method, moment(c, exp)),
             Code("zz", "o", "u2", U2, ["b"], "w" * 43, "plain", LATER)]
    if "long" in vary:
        scopes = ["a"] + [f"scope:{i}/read-and-write" for i in range(60)]
        codes[0].scopes, me.scopes = scopes, list(scopes)
    w = World(c, clients=[me, other], users=users, codes=codes, lifespan=lifespan)
    sent = {"code": c.str("sent", 2, 2, ranges=AB) if "code" in vary else text,
            "redirect_uri": c.choice("target", [U1, U2, "https://c.example/", "text"]) if "redirect" in vary else where, "code_verifier": verifier}
    if "long" in vary:
        sent["code"] = long(c, "sent", 200, WORD)
        sent["redirect_uri"] = c.choice("target", [where, "https://c.example/11", "https://c.example/" + long(c, "target", 300, WORD)])
        me.uris.append(sent["redirect_uri"])
    for m in close:
        if m in sent:
            sent[m] = near(c, m, sent[m])
    if close:
        me.uris = [where, sent["redirect_uri"]]
    verifier = sent["code_verifier"]
    if sent["redirect_uri"] == "text":
        sent["redirect_uri"] = "https://c.example/" + c.str("redirect", 1, ranges=((48, 57),))
        c.assume(c.not_(c.eq(sent["redirect_uri"], "https://c.example/")))
    fields = [("grant_type", "authorization_code"), ("client_id", me.id)]
    if "extra" in vary:
        fields.append(stranger(c, list(sent) + ["grant_type", "client_id", "client_secret"]))
    extra = [(k, v) for k, v in sent.items()]
    entries = c.form_all(fields) + (c.form("q", extra) if "presence" in vary else c.form_all(extra))
    if "after" in vary:
        earlier(c, w, me, now)
    resp = c.run(w.provider.token(request(c, form=entries)))
    pkce = c.and_(c.eq(method, "plain"), c.eq(verifier, challenge))
    if not not_ascii(c, verifier):
        pkce = c.or_(pkce, c.and_(c.eq(method, "S256"), c.eq(s256(c, verifier), challenge)))
    ok = c.and_(*[c.has(entries, k) for k in sent], c.eq(sent["code"], text), c.eq(holder, me.id),
                c.eq(sent["redirect_uri"], where), pkce, now < exp, uid != "gone")
    got, rts = w.of("access"), w.of("refresh")
    c.check(c.iff(resp.status_code == 200, ok), "tokens exactly when every condition holds")
    c.check(headers_ok(c, resp), "never cached")
    body = body_of(resp)
    if resp.status_code == 200:
        user = users[0] if uid == "u1" else users[1]
        c.check(len(got) == 1 and got[0][2] is me and got[0][3] is user and got[0][4] == scopes, "one access token, for the code's client, user and scopes")
        if "refresh_token" in me.grants:
            c.check(len(rts) == 1 and rts[0][2] is me and rts[0][3] is user and rts[0][4] == scopes, "one refresh token, for the same")
            c.cover("refresh token")
        else:
            c.check(not rts and "refresh_token" not in body, "no refresh token")
        want = {"access_token": got[0][1], "token_type": "Bearer", "expires_in": lifespan, "scope": " ".join(scopes)}
        if rts:
            want["refresh_token"] = rts[0][1]
        if not scopes:
            body.setdefault("scope", "")
        c.check(c.eq(body, want), "the answer says what was given")
        c.cover("tokens")
    else:
        c.check(not got and not rts, "nothing given")
        c.check(resp.status_code == 400 and body.get("error") in ("invalid_grant", "invalid_request"), "refused as invalid")
        c.check("access_token" not in body and "refresh_token" not in body, "no token in a refusal")
        c.cover("refused")


def not_ascii(c, text):
    return not c.only(text, ((0, 127),))


def end_to_end(c, lifespan=3600):
    """the code handed out by the authorization endpoint redeems for what was authorized"""
    me = Client("m", None, "none", uris=[U1, U2], scopes=["a", "b"], grants=["authorization_code"])
    u1, u2 = User("u1"), User("u2")
    w = World(c, clients=[me], users=[u1, u2])
    w.code_lifetime = lambda: LATER
    user = c.choice("user", [u1, u2])
    method = c.choice("method", ["plain", "S256"])
    verifier = c.str("verifier", 43, 43, ranges=WORD)
    challenge = verifier if method == "plain" else s256(c, verifier)
    uri = c.choice("uri", [U1, U2])
    scopes = c.choice("scopes", [["a"], ["a", "b"], ["b", "a"]])
    first = [("response_type", "code"), ("client_id", "m"), ("redirect_uri", uri), ("scope", " ".join(scopes)), ("state", "s"), ("code_challenge", challenge), ("code_challenge_method", method)]
    c.run(w.provider.authorize(request(c, "GET", query=c.form_all(first), user=user)))
    c.check(len(w.of("save")) == 1, "a code is issued")
    code = w.of("save")[0][1]
    tried = c.str("tried", 43, 43, ranges=WORD)
    target = c.choice("target", [U1, U2])
    second = [("grant_type", "authorization_code"), ("client_id", "m"), ("code", code), ("redirect_uri", target), ("code_verifier", tried)]
    resp = c.run(w.provider.token(request(c, form=c.form_all(second))))
    good = c.eq(tried, verifier) if method == "plain" else c.eq(s256(c, tried), challenge)
    c.check(c.iff(resp.status_code == 200, c.and_(good, target == uri)), "redeemed exactly with the verifier and redirect URI it was asked with")
    if resp.status_code == 200:
        got = w.of("access")
        c.check(len(got) == 1 and got[0][2] is me and got[0][3] is user and got[0][4] == scopes, "for the user who agreed, and the scopes agreed to")
        c.cover("tokens")
    else:
        c.cover("refused")


def c19(tier):
    t = tier == "thorough"
    both = ["tokens", "refused"]
    out = [dict(name=k, fn="redeem", params={"vary": v}, covers=both + (["refresh token"] if "refresh" in v else [])) for k, v in {
        "presence": ["presence"], "pkce": ["pkce"], "time": ["time"], "binding": ["client", "redirect"], "owner": ["user", "scopes", "refresh"], "code": ["code"], "long": ["long", "refresh"], "extra": ["extra", "client", "redirect"],
        **({"all": ["presence", "time", "client", "redirect", "user", "code"], "pkce-time": ["pkce", "time", "refresh", "scopes"]} if t else {"mix": ["time", "client", "redirect", "user"]})}.items()]
    out.append(dict(name="end-to-end", fn="end_to_end", covers=both))
    out += [dict(name="near-" + n, fn="redeem", params={"vary": ["near-" + n]}, covers=["refused"]) for n in ("code", "redirect_uri", "code_verifier", "holder", "method")]
    out.append(dict(name="lifespan", fn="redeem", params={"vary": ["scopes", "refresh"], "lifespan": 17}, covers=["tokens"]))
    out.append(dict(name="after", fn="redeem", params={"vary": ["after", "time", "user"]}, covers=both))
    out.append(dict(name="after-owner", fn="redeem", params={"vary": ["after", "user", "scopes", "refresh", "redirect"]}, covers=both))
    return out + in_company(["redeem", "redeem-error", "refresh"], ["users", "tokens", "replaced"], t)


# ------------------------------------------------------------------ C20
def attempt_form(c, i, code, also=()):
    """one attempt at a code: right, or wrong in one way"""
    kind = c.choice(f"attempt{i}", ["right", "verifier", "redirect", "client", "no verifier", "no redirect", "other code", *also])
    who = "o" if kind == "client" else "m"
    f = [("grant_type", "authorization_code"), ("client_id", who), ("code", "zz" if kind == "other code" else code)]
    if kind != "no redirect":
        f.append(("redirect_uri", U2 if kind == "redirect" else U1))
    if kind != "no verifier":
        f.append(("code_verifier", "x" * 43 if kind == "verifier" else "v" * 43))
    return kind, f


def once(c, steps, issue=False):
    """over any history of requests a code gives tokens once at most, and not
    after any failed attempt to use it"""
    cls = [Client(i, None, "none", uris=[U1, U2], scopes=["a"], grants=["authorization_code", "refresh_token"]) for i in ("m", "o")]
    w = World(c, clients=cls, users=[User("u")], codes=[Code("code", "m", "u", U1, ["a"], "v" * 43, "plain", LATER)])
    spent, wins = False, 0
    for i in range(steps):
        kind, f = attempt_form(c, i, "code")
        resp = c.run(w.provider.token(request(c, form=c.form_all(f))))
        if resp.status_code == 200:
            wins += 1
        c.check((resp.status_code == 200) == (kind == "right" and not spent), "only the first use of a code counts")
        if kind != "other code":
            spent = True
            c.check(not [x for x in w.codes if x.code == "code"], "the code is gone")
        c.check(len(w.of("access")) == wins and len(w.of("refresh")) == wins, "tokens only with a success")
    c.check(wins <= 1, "once")
    if wins:
        c.cover("redeemed")
    else:
        c.cover("burnt")


CALLS = ["get_authorization_code", "find_user", "create_access_token", "create_refresh_token", "token_request", "token_response"]


def burnt(c, steps):
    """whatever becomes of the request: a code that cannot be redeemed, a
    parameter nobody asked for, an adapter or hook that fails"""
    from psion.oauth2.grants import AuthorizationCodeGrant
    cls = [Client(i, None, "none", uris=[U1, U2], scopes=["a"], grants=["authorization_code", "refresh_token"]) for i in ("m", "o")]
    text = c.str("code", 2, 1, ranges=SPACED)
    state = c.choice("state", ["live", "expired", "user gone", "method"])
    failing = [None]

    class Failing:
        def __init__(self, adapter, config):
            pass

        async def token_request(self, *a):
            fail("token_request")

        async def token_response(self, *a):
            fail("token_response")

    def fail(name):
        if failing[0] == name:
            raise ConnectionError(name)
    w = World(c, clients=cls, users=[User("u")], codes=[Code(text, "m", "gone" if state == "user gone" else "u", U1, ["a"], "v" * 43, "none" if state == "method" else "plain", EARLIER if state == "expired" else LATER)], hooks=[(AuthorizationCodeGrant, Failing)])
    w.fail = fail
    spent = False
    for i in range(steps):
        kind, f = attempt_form(c, i, text, ["failure", "extra"])
        if kind == "failure":
            failing[0] = c.choice(f"failing{i}", CALLS)
        else:
            failing[0] = None
        if kind == "extra":
            f.append(stranger(c, ["grant_type", "client_id", "client_secret", "code", "redirect_uri", "code_verifier"]))
        resp, err = c.attempt_run(w.provider.token(request(c, form=c.form_all(f))))
        won = err is None and resp.status_code == 200
        if kind == "other code":
            c.check(not won, "no such code")
            continue
        may = state == "live" and not spent and kind in ("right", "extra")
        c.check(not won if not may else won, "tokens once, for a live code")
        spent = True
        c.check(not [x for x in w.codes if x.code == text], "the code is gone")
        c.cover("redeemed" if won else "burnt")


def separate(c):
    """using one code leaves the others alone"""
    cl = Client("m", None, "none", uris=[U1], scopes=["a", "b"], grants=["authorization_code"])
    t1, t2 = c.str("one", 2, 1, ranges=AB), c.str("two", 2, 1, ranges=AB)
    c.assume(c.not_(c.eq(t1, t2)))
    u1, u2 = User("u1"), User("u2")
    w = World(c, clients=[cl], users=[u1, u2], codes=[Code(t1, "m", "u1", U1, ["a"], "v" * 43, "plain", LATER), Code(t2, "m", "u2", U1, ["b"], "w" * 43, "plain", LATER)])
    for i, (t, v, u, s) in enumerate(((t1, "v", u1, ["a"]), (t2, "w", u2, ["b"]))):
        wrong = c.bool(f"wrong{i}")
        f = [("grant_type", "authorization_code"), ("client_id", "m"), ("code", t), ("redirect_uri", U1), ("code_verifier", "x" * 43 if wrong else v * 43)]
        n = len(w.of("access"))
        resp = c.run(w.provider.token(request(c, form=c.form_all(f))))
        if wrong:
            c.check(resp.status_code == 400 and len(w.of("access")) == n, "refused")
        else:
            c.check(resp.status_code == 200 and w.of("access")[-1][3] is u and w.of("access")[-1][4] == s, "each redeems on its own")
            c.cover("redeemed")


def drive_two(c, coros):
    """run two requests under every schedule of their adapter calls"""
    live, done, i = [[k, x] for k, x in enumerate(coros)], {}, 0
    while live:
        pick = 0 if len(live) == 1 else c.choice(f"turn{i}", [0, 1])
        i += 1
        k, x = live[pick]
        try:
            x.send(None)
        except StopIteration as e:
            done[k] = e.value
            live.pop(pick)
        except Exception as e:  # noqa: BLE001 - the answer is the failure
            done[k] = e
            live.pop(pick)
    return [done[k] for k in range(len(coros))]


def race(c, second):
    """two overlapping redemptions of one code"""
    cls = [Client(i, None, "none", uris=[U1, U2], scopes=["a"], grants=["authorization_code"]) for i in ("m", "o")]
    w = World(c, clients=cls, users=[User("u")], codes=[Code("code", "m", "u", U1, ["a"], "v" * 43, "plain", LATER)], suspend=True)
    good = [("grant_type", "authorization_code"), ("client_id", "m"), ("code", "code"), ("redirect_uri", U1), ("code_verifier", "v" * 43)]
    bad = [(k, "x" * 43 if k == "code_verifier" else v) for k, v in good]
    r = drive_two(c, [w.provider.token(request(c, form=c.form_all(f))) for f in (good, good if second == "good" else bad)])
    wins = sum(1 for x in r if getattr(x, "status_code", 0) == 200)
    c.check(not [x for x in w.codes if x.code == "code"], "the code is gone")
    c.check(len(w.of("access")) == wins, "tokens only with a success")
    if second == "bad":
        c.check(getattr(r[1], "status_code", 0) == 400, "the wrong attempt is refused")
        c.cover("bad")
    else:
        c.check(wins >= 1, "one succeeds")
        c.check(wins <= 1, "one code, one redemption, under every schedule", known="concurrent-redemption")
        c.cover("raced")


def c20(tier):
    t = tier == "thorough"
    return [
        dict(name="history", fn="once", params={"steps": 3 if t else 2}, covers=["redeemed", "burnt"]),
        dict(name="burnt", fn="burnt", params={"steps": 2}, covers=["redeemed", "burnt"]),
        dict(name="separate", fn="separate", covers=["redeemed"]),
        dict(name="race", fn="race", params={"second": "good"}, covers=["raced"]),
        dict(name="race-bad", fn="race", params={"second": "bad"}, covers=["bad"]),
    ] + ([dict(name="history4", fn="once", params={"steps": 4}, covers=["redeemed", "burnt"])] if t else [])


# ------------------------------------------------------------------ C21
def toks(c, name, n, ranges=ABC, size=1):
    return [c.str(f"{name}{i}", size, 1, ranges=ranges) for i in range(n)]


# scope names that overlap, some carried or allowed but no longer offered
NAMES = {"offered": ["ab", "b", "cd"], "allowed": [["ab", "b", "a"], ["ab", "cd", "abc"]], "carried": [["ab", "a"], ["ab", "cd", "d"]]}


def refresh(c, vary, asked=1, lifespan=3600, names=False):
    """a refresh token serves its own client, in time, and never gives more
    than it carries and the client may have"""
    me = Client("m", None, "none", scopes=["a", "b"], grants=["refresh_token"])
    other = Client("o", None, "none", scopes=["a", "b", "c"], grants=["refresh_token"])
    users = [User("u1"), User("u2")]
    offered = NAMES["offered"] if names else ["a", "b", "c"]
    if names:
        me.scopes = c.choice("allowed", NAMES["allowed"])
    elif "allowed" in vary:
        me.scopes = c.choice("allowed", [["a", "b", "c"], ["a"], ["b", "c"], []])
    if "time" in vary:
        c.set_tz(c.choice("tz", [0, 330, -300]))
        now, exp = c.instant("now", T0, T1), c.instant("expires", T0, T1)
    else:
        now, exp = NOW * 10**6, (NOW + 60) * 10**6
    c.set_now(now)
    issued_to = c.choice("issued_to", [me, other]) if "client" in vary else me
    uid = c.choice("user", ["u1", "u2", "gone"]) if "user" in vary else "u1"
    carried = c.choice("carried", NAMES["carried"] if names else [["a"], ["a", "b"], ["b", "c"], []]) if "scopes" in vary else ["a", "b"]
    text = c.str("token", 2, 2, ranges=AB) if "token" in vary else "aa"
    if "long" in vary:
        text = long(c, "token", 300, WORD)
        offered = [f"scope:{i:02d}/read-and-write" for i in range(64)]
        carried, me.scopes = offered[:62], offered[:60] + offered[62:]
    close = [v[5:] for v in vary if v.startswith("near-")]
    holder, goal = issued_to.id, "read"
    if close:
        me.id = holder = "client"
        text, carried, me.scopes, offered = "token-1", ["read", "write"], ["read", "write"], ["read", "write", "admin"]
    if "holder" in close:
        holder = near(c, "holder", "client")
    if "carried" in close:
        carried[0] = near(c, "carried", "read", NOT_SPACE)
    if "allowed" in close:
        me.scopes[0] = near(c, "allowed", "read", NOT_SPACE)
    if "offered" in close:
        offered[0] = near(c, "offered", "read", NOT_SPACE)
    if "scope" in close:
        goal = near(c, "scope", "read", NOT_SPACE)
    w = World(c, clients=[me, other], users=users, refresh=[Refresh(text, holder, uid, carried, moment(c, exp)), Refresh("zz", "o", "u2", ["c"], LATER)], scopes=offered, lifespan=lifespan)
    sent = {"refresh_token": c.str("sent", 2, 2, ranges=AB) if "token" in vary else text}
    want_scopes = toks(c, "asked", asked, ((97, 100),), 2 if names else 1) if asked else []
    if asked:
        sent["scope"] = (c.choice("gap", [" ", "  "]) if asked > 1 else " ").join(want_scopes)
    if "long" in vary:
        sent["refresh_token"] = long(c, "sent", 300, WORD)
        want_scopes = [*carried[3:58], c.choice("last", [carried[58], *offered[61:63], "a"])]
        sent["scope"] = " ".join(want_scopes)
    if close and asked:
        want_scopes = [goal, c.choice("last", ["write", "admin"])]
        sent["scope"] = " ".join(want_scopes)
    if "token" in close:
        sent["refresh_token"] = near(c, "sent", text)
    extra = list(sent.items())
    fields = [("grant_type", "refresh_token"), ("client_id", me.id)] + ([stranger(c, ["grant_type", "client_id", "client_secret", "scope", "refresh_token"])] if "extra" in vary else [])
    entries = c.form_all(fields) + (c.form("q", extra) if "presence" in vary else c.form_all(extra))
    if "after" in vary:
        earlier(c, w, me, now)
    resp = c.run(w.provider.token(request(c, form=entries)))
    has_scope = c.has(entries, "scope") if asked else False
    fits = c.and_(*[c.and_(c.isin(x, carried), c.isin(x, me.scopes), c.isin(x, offered)) for x in want_scopes])
    ok = c.and_(c.has(entries, "refresh_token"), c.eq(sent["refresh_token"], text), c.eq(holder, me.id), now < exp, uid != "gone", c.or_(c.not_(has_scope), fits))
    got, rts = w.of("access"), w.of("refresh")
    body = body_of(resp)
    c.check(c.iff(resp.status_code == 200, ok), "tokens exactly when every condition holds")
    c.check(headers_ok(c, resp), "never cached")
    if resp.status_code != 200:
        c.check(not got and not rts, "nothing given")
        c.check(resp.status_code == 400 and body.get("error") in ("invalid_grant", "invalid_request", "invalid_scope", "invalid_client"), "refused as invalid")
        c.cover("refused")
        return
    user = users[0] if uid == "u1" else users[1]
    c.check(len(got) == 1 and got[0][2] is me and got[0][3] is user, "one access token, for the token's client and user")
    c.check(len(rts) == 1 and rts[0][2] is me and rts[0][3] is user, "one refresh token, for the same")
    for s in (got[0][4], rts[0][4]):
        c.check(c.and_(*[c.and_(c.isin(x, carried), c.isin(x, me.scopes)) for x in s]), "never more than the token carries and the client may have")
        c.check(c.or_(c.not_(has_scope), scope_set(c, s, want_scopes)), "the scopes asked for")
        c.check(c.or_(has_scope, scope_set(c, s, [x for x in carried if x in me.scopes])), "or all that are left")
    c.check(body["access_token"] == got[0][1] and body["refresh_token"] == rts[0][1] and body["token_type"] == "Bearer" and body["expires_in"] == lifespan, "the answer says what was given")
    if "scope" in body:
        c.check(scope_set(c, body["scope"].split(" "), got[0][4]), "and its scopes")
    else:
        c.check(scope_set(c, got[0][4], carried) if got[0][4] else True, "scopes left out only when unchanged")
    c.cover("tokens")


def refresh_grant_gone(c):
    """no refresh token is made for a client that may not use one"""
    me = Client("m", None, "none", uris=[U1], scopes=["a"], grants=c.choice("grants", [["authorization_code"], ["authorization_code", "refresh_token"], ["refresh_token"], []]))
    w = World(c, clients=[me], users=[User("u")], codes=[Code("code", "m", "u", U1, ["a"], "v" * 43, "plain", LATER)], refresh=[Refresh("rt", "m", "u", ["a"], LATER)])
    use = c.choice("use", ["authorization_code", "refresh_token"])
    f = [("grant_type", use), ("client_id", "m"), ("code", "code"), ("redirect_uri", U1), ("code_verifier", "v" * 43), ("refresh_token", "rt")]
    resp = c.run(w.provider.token(request(c, form=c.form_all(f))))
    c.check((resp.status_code == 200) == (use in me.grants), "a grant serves the clients registered for it")
    c.check(len(w.of("refresh")) == (1 if use in me.grants and "refresh_token" in me.grants else 0), "refresh tokens only for clients registered for them")
    c.check(len(w.of("access")) == (1 if use in me.grants else 0), "access tokens only with a success")
    c.cover("tokens" if use in me.grants else "refused")


def c21(tier):
    t = tier == "thorough"
    both = ["tokens", "refused"]
    out = [dict(name=k, fn="refresh", params={"vary": v, "asked": n}, covers=both if k != "all-left" else ["tokens"]) for k, v, n in [
        ("presence", ["presence"], 1), ("time", ["time"], 0), ("client", ["client", "user"], 0), ("token", ["token"], 0),
        ("scopes", ["scopes"], 3 if t else 2), ("allowed", ["scopes", "allowed"], 2 if t else 1), ("all-left", ["scopes", "allowed"], 0),
        ("long", ["long"], 1), ("extra", ["extra", "client", "user", "scopes"], 1),
    ] + ([("mix", ["time", "client", "user", "token", "scopes"], 2)] if t else [])]
    out.append(dict(name="lifespan", fn="refresh", params={"vary": [], "asked": 1, "lifespan": 17}, covers=["tokens"]))
    out.append(dict(name="names", fn="refresh", params={"vary": ["scopes"], "asked": 2, "names": True}, covers=both))
    out.append(dict(name="registered", fn="refresh_grant_gone", covers=both))
    out += [dict(name="near-" + n, fn="refresh", params={"vary": ["near-" + n], "asked": int(n not in ("token", "holder"))}, covers=["refused"]) for n in ("token", "holder", "scope", "carried", "allowed", "offered")]
    out += [dict(name=f"near-{n}-left", fn="refresh", params={"vary": ["near-" + n], "asked": 0}, covers=["tokens"]) for n in ("carried", "allowed")]
    out.append(dict(name="after", fn="refresh", params={"vary": ["after", "time", "user"], "asked": 0}, covers=both))
    out.append(dict(name="after-scopes", fn="refresh", params={"vary": ["after", "client", "scopes", "allowed"], "asked": 1}, covers=both))
    return out + in_company(["refresh", "refresh-error", "redeem"], ["users", "scopes", "tokens", "replaced"], t)


# ------------------------------------------------------------------ C22
def client_credentials(c, asked, vary=(), lifespan=3600, names=False):
    """a client acts for itself: scopes it asks for and may have, nobody else's
    identity, no refresh token"""
    me = Client("m", None if "public" in vary else "s", "none" if "public" in vary else "client_secret_basic", scopes=[] if any(v.startswith("near-") for v in vary) else c.choice("allowed", NAMES["allowed"] if names else [["a", "b"], ["a"], ["c", "a"], []]), grants=["client_credentials", "refresh_token"])
    offered = list(NAMES["offered"]) if names else ["a", "b", "c"]
    w = World(c, clients=[me, Client("o", "t", "client_secret_basic", scopes=["a", "b", "c"], grants=["client_credentials"])], users=[User("m")], scopes=[f"scope:{i:02d}/read-and-write" for i in range(64)] if "long" in vary else offered, lifespan=lifespan)
    want = toks(c, "asked", asked, ((97, 100),), 2 if names else 1)
    if "long" in vary:
        offered[:] = [f"scope:{i:02d}/read-and-write" for i in range(64)]
        me.scopes = offered[:60]
        want = [*offered[3:55], c.choice("last", [offered[58], offered[61], "a"])] if asked else []
    close = [v[5:] for v in vary if v.startswith("near-")]
    if close:
        me.scopes, offered[:], want = ["read", "write"], ["read", "write", "admin"], ["read", c.choice("last", ["write", "admin"])]
        of = {"scope": want, "allowed": me.scopes, "offered": offered}[close[0]]
        of[0] = near(c, close[0], "read", NOT_SPACE)
        w = World(c, clients=w.clients, users=[User("m")], scopes=offered, lifespan=lifespan)
    fields = [("scope", (c.choice("gap", [" ", "  "]) if asked > 1 else " ").join(want))] if asked else []
    if "extra" in vary:
        fields.append(stranger(c, ["grant_type", "client_id", "client_secret", "scope"]))
    if "public" in vary:
        # a client that can keep no secret has nothing of its own
        resp = c.run(w.provider.token(request(c, form=c.form_all([("grant_type", "client_credentials"), ("client_id", "m")] + fields), user=User("m"))))
        c.check(resp.status_code == 400 and not w.log, "nothing for a public client")
        c.cover("refused")
        return
    entries = c.form_all([("grant_type", "client_credentials")]) + (c.form("q", fields) if "presence" in vary else c.form_all(fields))
    if "after" in vary:
        earlier(c, w, me)
    resp = c.run(w.provider.token(request(c, form=entries, headers={"Authorization": basic(c, "m", "s")}, user=User("someone"))))
    has = c.has(entries, "scope") if asked else False
    fits = c.and_(*[c.and_(c.isin(x, me.scopes), c.isin(x, offered)) for x in want])
    got = w.of("access")
    body = body_of(resp)
    c.check(c.iff(resp.status_code == 200, c.or_(c.not_(has), fits)), "a token exactly for scopes the client may have")
    c.check(headers_ok(c, resp), "never cached")
    c.check(not w.of("refresh") and "refresh_token" not in body and "id_token" not in body, "no refresh token")
    if resp.status_code != 200:
        c.check(not got and resp.status_code == 400 and body.get("error") == "invalid_scope", "refused for its scope")
        c.cover("refused")
        return
    c.check(len(got) == 1 and got[0][2] is me and got[0][3] is me, "one access token, to and for the client itself")
    c.check(c.or_(c.not_(has), scope_set(c, got[0][4], want)), "the scopes asked for")
    c.check(c.or_(has, scope_set(c, got[0][4], me.scopes)), "or all the client has")
    c.check(body["access_token"] == got[0][1] and body["token_type"] == "Bearer" and body["expires_in"] == lifespan, "the answer says what was given")
    if "scope" in body:
        c.check(scope_set(c, body["scope"].split(" "), got[0][4]), "and its scopes")
    else:
        c.check(c.or_(c.and_(has, scope_set(c, got[0][4], want)), not got[0][4]), "scopes left out only when as asked")
    c.cover("token")


def c22(tier):
    t = tier == "thorough"
    return [
        dict(name="scopes", fn="client_credentials", params={"asked": 3 if t else 2}, covers=["token", "refused"]),
        dict(name="presence", fn="client_credentials", params={"asked": 1, "vary": ["presence"], "lifespan": 17}, covers=["token", "refused"]),
        dict(name="public", fn="client_credentials", params={"asked": 1, "vary": ["public"]}, covers=["refused"]),
        dict(name="extra", fn="client_credentials", params={"asked": 1, "vary": ["extra"]}, covers=["token", "refused"]),
        dict(name="long", fn="client_credentials", params={"asked": 1, "vary": ["long"]}, covers=["token", "refused"]),
        dict(name="long-all", fn="client_credentials", params={"asked": 0, "vary": ["long"]}, covers=["token"]),
        dict(name="no-scope", fn="client_credentials", params={"asked": 0}, covers=["token"]),
        dict(name="names", fn="client_credentials", params={"asked": 2, "names": True}, covers=["token", "refused"]),
        *[dict(name="near-" + n, fn="client_credentials", params={"asked": 1, "vary": ["near-" + n]}, covers=["refused"]) for n in ("scope", "allowed", "offered")],
        dict(name="after", fn="client_credentials", params={"asked": 1, "vary": ["after", "presence"]}, covers=["token", "refused"]),
    ] + in_company(["client", "client-all", "client-error", "refresh"], ["scopes", "grants", "replaced"], t)


# ------------------------------------------------------------------ C23
GRANTS = ["authorization_code", "refresh_token", "client_credentials"]


def gate(c, vary):
    """the token endpoint serves grants the server offers, to authenticated
    clients registered for them, and every answer is uncacheable JSON"""
    from psion.oauth2.grants import AuthorizationCodeGrant, ClientCredentialsGrant, RefreshTokenGrant
    classes = {"authorization_code": AuthorizationCodeGrant, "refresh_token": RefreshTokenGrant, "client_credentials": ClientCredentialsGrant}
    offered = c.choice("offered", [GRANTS, GRANTS[:1], GRANTS[1:], [GRANTS[2], GRANTS[0]]]) if "offered" in vary else GRANTS
    mine = c.choice("mine", [GRANTS, GRANTS[:1], GRANTS[1:2], GRANTS[2:], []]) if "mine" in vary else GRANTS
    if "near-mine" in vary:
        mine = [near(c, "mine", c.choice("of", GRANTS), NOT_SPACE)]
    if "joined" in vary:
        mine = [c.choice("join", ["", " ", ",", "_"]).join(["x", c.choice("of", GRANTS), "y"])]
    public = "public" in vary and c.choice("public", [True, False])
    me = Client("m", None if public else "s", "none" if public else "client_secret_post", uris=[U1], scopes=["a"], grants=mine)
    w = World(c, clients=[me], users=[User("u")], grants=[classes[g] for g in offered], codes=[Code("code", "m", "u", U1, ["a"], "v" * 43, "plain", LATER)], refresh=[Refresh("rt", "m", "u", ["a"], LATER)])
    g = c.choice("grant", GRANTS + ["text"])
    if "near" in vary:
        g = near(c, "grant", c.choice("of", GRANTS))
    if g == "text":
        g = c.str("grant.text", c.choice("grant.len", [8, 13, 18]), 1, ranges=((95, 95), (97, 122))) if "text" in vary else "implicit"
    secret = c.choice("secret", ["s", "x"]) if "secret" in vary else "s"
    fields = [("grant_type", g), ("client_id", "m"), ("client_secret", secret), ("code", "code"), ("redirect_uri", U1), ("code_verifier", "v" * 43), ("refresh_token", "rt")]
    if public:
        fields = [x for x in fields if x[0] != "client_secret"]
    if "extra" in vary:
        fields.append(stranger(c, [x[0] for x in fields] + ["client_secret", "scope"]))
    entries = c.form("q", fields[:3]) + c.form_all(fields[3:]) if "presence" in vary else c.form_all(fields)
    if "after" in vary:
        w.clients.append(Client("p", None, "none", uris=[U1], scopes=["a"]))
        earlier(c, w, me)
    resp = c.run(w.provider.token(request(c, form=entries)))
    known = c.and_(c.has(entries, "grant_type"), c.isin(g, offered))
    auth = c.and_(c.has(entries, "client_id"), c.has(entries, "client_secret"), secret == "s") if not public else c.not_(c.eq(g, "client_credentials"))
    ok = c.and_(known, auth, c.isin(g, mine))
    c.check(c.iff(resp.status_code == 200, ok), "served exactly when offered, authenticated and registered")
    c.check(headers_ok(c, resp), "uncacheable JSON")
    body = body_of(resp)
    if resp.status_code == 200:
        c.check(isinstance(body, dict) and "access_token" in body and "error" not in body, "a token")
        c.check(len(w.of("access")) == 1, "made once")
        c.cover("served")
    else:
        c.check(resp.status_code == 400 and isinstance(body, dict), "refused")
        c.check(not w.of("access") and not w.of("refresh") and "access_token" not in body, "with no token made")
        err = body.get("error")
        c.check(c.implies(c.not_(c.has(entries, "grant_type")), err == "invalid_request"), "no grant type: invalid_request")
        c.check(c.implies(c.and_(c.has(entries, "grant_type"), c.not_(known)), err == "unsupported_grant_type"), "unknown grant type: unsupported_grant_type")
        c.check(c.implies(c.and_(known, c.not_(auth)), err == "invalid_client"), "not authenticated: invalid_client")
        c.check(c.implies(c.and_(known, auth), err == "unauthorized_client"), "not registered: unauthorized_client")
        c.check(c.implies(c.not_(auth), len(w.codes) == 1), "the unauthenticated change nothing")
        c.cover("refused")


def c23(tier):
    both = ["served", "refused"]
    return [
        dict(name="offered", fn="gate", params={"vary": ["offered", "mine"]}, covers=both),
        dict(name="presence", fn="gate", params={"vary": ["presence", "secret"]}, covers=both),
        dict(name="public", fn="gate", params={"vary": ["public", "mine"]}, covers=both),
        dict(name="extra", fn="gate", params={"vary": ["extra", "secret", "mine"]}, covers=both),
        dict(name="text", fn="gate", params={"vary": ["text", "mine"]}, covers=both),
        dict(name="near", fn="gate", params={"vary": ["near"]}, covers=["refused"]),
        dict(name="near-mine", fn="gate", params={"vary": ["near-mine"]}, covers=["refused"]),
        dict(name="joined", fn="gate", params={"vary": ["joined"]}, covers=["refused"]),
        dict(name="after", fn="gate", params={"vary": ["after", "mine", "secret"]}, covers=both),
    ] + in_company(["redeem", "refresh", "client", "client-error", "junk", "anonymous"], ["grants", "clients", "secret"], tier == "thorough", ["refresh", "client", "junk"]) + ([dict(name="all", fn="gate", params={"vary": ["offered", "mine", "presence", "secret", "text"]}, covers=both)] if tier == "thorough" else [])


# ------------------------------------------------------------------ C25
def revoke(c, vary):
    """revocation acts once, for the authenticated client, on exactly the token
    named, and reports everything else"""
    clients = [Client("m", "s", "client_secret_post"), Client("o", "t", "client_secret_post"), Client("p", None, "none")]
    w = World(c, clients=clients)
    tok = c.str("token", 2, 1 if "blank" not in vary else 0, ranges=None if "wide" in vary else WORD)
    hint = c.choice("hint", ["access_token", "refresh_token", "text"])
    if hint == "text":
        hint = c.str("hint.text", 12 if "text" in vary else 1, 12 if "text" in vary else 0, ranges=((95, 95), (97, 122)))
    if "near-hint" in vary:
        hint = near(c, "hint", c.choice("of", ["access_token", "refresh_token"]))
    if "odd" in vary:
        tok, hint = odd(c, "token"), "access_token"
    if "long" in vary:
        tok = long(c, "token", 1500, WORD)
    who, secret = c.choice("who", [("m", "s"), ("o", "t"), ("m", "t"), ("x", "s"), ("p", None), ("m", None)]) if "client" in vary else ("m", "s")
    fields = [("token", tok), ("token_type_hint", hint)]
    if "extra" in vary:
        fields.append(stranger(c, ["client_id", "client_secret", "token", "token_type_hint"]))
    entries = c.form_all([("client_id", who)] + ([("client_secret", secret)] if secret else [])) + (c.form("q", fields) if "presence" in vary else c.form_all(fields))
    resp = c.run(w.provider.revoke(request(c, form=entries)))
    auth = (who, secret) in (("m", "s"), ("o", "t"), ("p", None))
    has_tok = c.and_(c.has(entries, "token"), c.not_(c.eq(tok, "")))
    has_hint = c.and_(c.has(entries, "token_type_hint"), c.not_(c.eq(hint, "")))
    good_hint = c.or_(c.not_(has_hint), c.isin(hint, ["access_token", "refresh_token"]))
    acts = w.of("revoke")
    c.check(c.iff(len(acts) > 0, c.and_(auth, has_tok, good_hint)), "revoked exactly when asked properly")
    c.check((resp.status_code == 200) == (len(acts) == 1), "and says so")
    c.check(len(w.log) == len(acts) <= 1, "nothing else happens")
    if acts:
        c.check(acts[0][1] is [x for x in clients if x.id == who][0], "for the authenticated client")
        c.check(c.eq(acts[0][2], tok), "the token named")
        if acts[0][3] is None:
            c.check(c.not_(has_hint), "with the hint given")
        else:
            c.check(c.and_(has_hint, c.eq(acts[0][3], hint)), "with the hint given")
        c.cover("revoked")
    else:
        err = body_of(resp).get("error")
        c.check(err == "invalid_client" if not auth else c.ite(has_tok, err == "unsupported_token_type", err == "invalid_request"), "the reason is given")
        c.check(resp.status_code == (400 if auth else 401), "with its status")
        c.cover("refused")


def revoke_query(c):
    """a token in the query is not one the request names"""
    w = World(c, clients=[Client("m", "s", "client_secret_post")])
    q = [("token", c.str("token", 2, 1, ranges=WORD)), ("token_type_hint", c.choice("hint", ["access_token", "refresh_token", "x"]))]
    f = [("client_id", "m"), ("client_secret", "s")]
    named = c.choice("named", [True, False])
    resp = c.run(w.provider.revoke(request(c, query=c.form_all(q), form=c.form_all(f + ([("token", "t")] if named else [])))))
    c.check([x[2:] for x in w.log] == ([("t", None)] if named else []), "what the form names is revoked")
    c.check(resp.status_code == (200 if named else 400), "and reported")
    c.cover("revoked" if named else "refused")


def c25(tier):
    both = ["revoked", "refused"]
    return [
        dict(name="client", fn="revoke", params={"vary": ["client"]}, covers=both),
        dict(name="presence", fn="revoke", params={"vary": ["presence", "blank"]}, covers=both),
        dict(name="hint", fn="revoke", params={"vary": ["text", "presence"]}, covers=both),
        dict(name="token", fn="revoke", params={"vary": ["wide"]}, covers=["revoked"]),
        dict(name="odd", fn="revoke", params={"vary": ["odd"]}, covers=["revoked"]),
        dict(name="near-hint", fn="revoke", params={"vary": ["near-hint"]}, covers=["refused"]),
        dict(name="long", fn="revoke", params={"vary": ["long", "client"]}, covers=both),
        dict(name="extra", fn="revoke", params={"vary": ["extra", "client"]}, covers=both),
        dict(name="query", fn="revoke_query", covers=both),
    ] + in_company(["revoke", "revoke-plain", "revoke-error", "client"], ["secret", "clients", "replaced"], tier == "thorough")


GOALS = {"C19": c19, "C20": c20, "C21": c21, "C22": c22, "C23": c23, "C25": c25}
