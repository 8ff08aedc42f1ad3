"""A whole authorization server around an in-memory adapter that records what
it is asked to do.  Values may be symbolic; the adapter compares them as any
adapter would, and hands out the very lists it keeps."""

ERROR_URL = "https://as.example/error"
ISSUER = "https://as.example"


def long(c, name, size, ranges, fill="q"):
    """text of the given length, free at its ends and in its middle"""
    free = c.str(name, 3, 3, ranges=ranges)
    n = size - 3
    return free[0] + fill * (n // 2) + free[1] + fill * (n - n // 2) + free[2]


HEX = ((48, 57), (65, 70), (97, 102))
CHAR = ((0, 0xD7FF), (0xE000, 0x10FFFF))


def near(c, name, word, ranges=CHAR):
    """text that looks like word -- more, less or other than it by a character,
    in another case, or word itself written in an encoding"""
    x = c.str(name + ".x", 1, 1, ranges=ranges)
    m = len(word) // 2
    kinds = {"after": word + x, "before": x + word, "cut": word[:-1], "tail": word[1:], "first": x + word[1:], "middle": word[:m] + x + word[m + 1:], "last": word[:-1] + x,
             "inserted": word[:m] + x + word[m:], "twice": word + word, "listed": word + "," + word, "case": word.swapcase(), "quoted": '"' + word + '"', "half": word[:m] + word[m:].swapcase(),
             "percent": word[:-1] + f"%{ord(word[-1]):02x}", "entity": f"&#{ord(word[0])};" + word[1:], "escape": f"\\u{ord(word[0]):04x}" + word[1:], "wide": chr(ord(word[0]) + 0xFEE0) + word[1:], "accent": word + "\u0301"}
    return kinds[c.choice(name + ".near", list(kinds))]


def odd(c, name):
    """text that something on the way might take to mean something else"""
    kinds = {"percent": lambda: "a%" + c.str(name + ".hex", 2, 2, ranges=HEX) + "b", "double": lambda: "%25" + c.str(name + ".hex", 2, 2, ranges=HEX), "plus": lambda: "a+b", "space": lambda: "a b",
             "around": lambda: c.str(name + ".x", 1, 1, ranges=((9, 13), (28, 32), (133, 133), (160, 160))) + "a" + c.str(name + ".y", 1, 1, ranges=((9, 13), (28, 32))), "escape": lambda: "\\u00" + c.str(name + ".hex", 2, 2, ranges=HEX),
             "quoted": lambda: '"' + c.str(name + ".x", 1, 1, ranges=CHAR) + '"', "entity": lambda: c.choice(name + ".entity", ["&amp;", "&lt;a&gt;", "&#97;"]), "pairs": lambda: "a=1&b=2;c=3#d?e", "list": lambda: "a,b;c|d",
             "word": lambda: c.choice(name + ".word", ["None", "null", "true", "False", "0", "[]", "{}", "undefined", "NaN", "01", "1e3"]), "padded": lambda: "ab" + "=" * c.choice(name + ".pad", [1, 2]), "path": lambda: "a/../b//c/./", "slash": lambda: "a\\nb\\'",
             "case": lambda: "aB\u0130\u00df\u017f\u03a3", "composed": lambda: "e\u0301\u00e9\ufb01\u212a", "wide": lambda: "a" + c.str(name + ".x", 1, 1, ranges=((0x10000, 0x10FFFF),)) + "b", "control": lambda: "a" + c.str(name + ".x", 1, 1, ranges=((0, 31), (127, 159))) + "b"}
    return kinds[c.choice(name + ".odd", list(kinds))]()


def company(c, how, **params):
    """the requests of a property next to, or after, any other"""
    from harness import service
    getattr(service, how)(c, **params)


def strays(kinds):
    return [dict(name=f"stray-{at}", fn="company", params={"how": "stray", "lasts": kinds, "where": at, "hooks": "oidc"}, covers=["done"]) for at in ("query", "form", "headers")]


def in_company(kinds, changes, thorough, first=None):
    out = [
        dict(name="often", fn="company", params={"how": "isolated", "before": 1, "lasts": kinds, "times": 12}, covers=["done"]),
        dict(name="overlap-other", fn="company", params={"how": "overlap", "firsts": kinds, "seconds": kinds if thorough else first or kinds, "parties": [1]}, covers=["done"]),
        dict(name="overlap-own", fn="company", params={"how": "overlap", "firsts": kinds, "seconds": kinds if thorough else first or kinds, "parties": [0]}, covers=["done"]),
    ]
    return out + strays(kinds) + [dict(name="changed-" + w, fn="company", params={"how": "changed", "what": w, "where": "here", "lasts": kinds, "pasts": None if thorough else first or kinds}, covers=["done"]) for w in changes]


class Client:
    def __init__(self, id, secret=None, method="none", uris=(), scopes=(), grants=(), responses=("code",)):
        self.id, self.secret, self.method = id, secret, method
        self.uris, self.scopes, self.grants, self.responses = list(uris), list(scopes), list(grants), list(responses)

    def get_client_id(self):
        return self.id

    def get_client_secret(self):
        return self.secret

    def get_token_endpoint_auth_method(self):
        return self.method

    def get_redirect_uris(self):
        return self.uris

    def get_allowed_scopes(self, scopes):
        if scopes is None:
            return self.scopes
        return [s for s in scopes if s in self.scopes]

    def get_grant_types(self):
        return self.grants

    def get_response_types(self):
        return self.responses


class User:
    def __init__(self, id):
        self.id = id

    def get_user_id(self):
        return self.id


class Code:
    def __init__(self, code, client_id, user_id, redirect_uri, scopes, challenge, method, expiration, nonce=None, auth_time=None):
        self.code, self.client_id, self.user_id, self.redirect_uri = code, client_id, user_id, redirect_uri
        self.scopes, self.challenge, self.method, self.expiration = list(scopes), challenge, method, expiration
        self.nonce, self.auth_time = nonce, auth_time

    def get_client_id(self):
        return self.client_id

    def get_user_id(self):
        return self.user_id

    def get_redirect_uri(self):
        return self.redirect_uri

    def get_scopes(self):
        return self.scopes

    def get_code_challenge(self):
        return self.challenge

    def get_code_challenge_method(self):
        return self.method

    def get_nonce(self):
        return self.nonce

    def get_auth_time(self):
        return self.auth_time

    def get_expiration(self):
        return self.expiration


class Refresh:
    def __init__(self, token, client_id, user_id, scopes, expiration):
        self.token, self.client_id, self.user_id, self.scopes, self.expiration = token, client_id, user_id, list(scopes), expiration

    def get_refresh_token(self):
        return self.token

    def get_client_id(self):
        return self.client_id

    def get_user_id(self):
        return self.user_id

    def get_scopes(self):
        return self.scopes

    def get_expiration(self):
        return self.expiration


class Step:
    """an await that really suspends (for schedules)"""

    def __init__(self, what):
        self.what = what

    def __await__(self):
        yield self.what


class World:
    def __init__(self, c, clients=(), users=(), codes=(), refresh=(), scopes=("a", "b", "openid"), grants=None, hooks=(), key=None, userinfo=None, suspend=False, fixed=False, lifespan=3600, id_lifespan=36000, provider=None):
        from psion.oauth2.adapter import BaseAdapter
        from psion.oauth2.grants import AuthorizationCodeGrant, ClientCredentialsGrant, RefreshTokenGrant
        from psion.oauth2.models import Scope
        from psion.oauth2.providers.base import BaseProvider
        self.c = c
        self.clients, self.users, self.codes, self.refresh = list(clients), list(users), list(codes), list(refresh)
        self.log = []
        self.tokens, self.offered, self.key = 0, list(scopes), key
        self.code_lifetime = None
        self.fail = None
        world = self

        class Adapter(BaseAdapter):
            async def pause(self, what):
                if world.fail is not None:
                    world.fail(what)
                if suspend is True or suspend and what in suspend:
                    await Step(what)

            async def find_client(self, client_id):
                await self.pause("find_client")
                for x in world.clients:
                    if x.id == client_id:
                        return x
                return None

            async def find_user(self, user_id):
                await self.pause("find_user")
                for x in world.users:
                    if x.id == user_id:
                        return x
                return None

            async def save_authorization_code(self, code, data, client, user):
                await self.pause("save_authorization_code")
                world.log.append(("save", code, dict(data), client, user))
                if world.code_lifetime is not None:
                    world.codes.append(Code(code, client.get_client_id(), user.get_user_id(), data["redirect_uri"], data["scopes"], data["code_challenge"], data["code_challenge_method"], world.code_lifetime(), data.get("nonce")))

            async def get_authorization_code(self, code):
                await self.pause("get_authorization_code")
                for x in world.codes:
                    if x.code == code:
                        return x
                return None

            async def delete_authorization_code(self, code):
                await self.pause("delete_authorization_code")
                world.log.append(("delete", code))
                world.codes = [x for x in world.codes if not x.code == code]

            async def create_access_token(self, client, owner, scopes):
                await self.pause("create_access_token")
                world.tokens += 1
                tok = "at" if fixed else f"at{world.tokens}"
                world.log.append(("access", tok, client, owner, list(scopes) if scopes is not None else None))
                return tok

            async def create_refresh_token(self, client, user, scopes):
                await self.pause("create_refresh_token")
                world.tokens += 1
                tok = "rt" if fixed else f"rt{world.tokens}"
                world.log.append(("refresh", tok, client, user, list(scopes) if scopes is not None else None))
                return tok

            async def get_refresh_token(self, token):
                await self.pause("get_refresh_token")
                for x in world.refresh:
                    if x.token == token:
                        return x
                return None

            async def revoke_token(self, client, token, token_type_hint=None):
                await self.pause("revoke_token")
                world.log.append(("revoke", client, token, token_type_hint))

            async def get_userinfo(self, user, scopes):
                await self.pause("get_userinfo")
                world.log.append(("userinfo", user, list(scopes)))
                return userinfo(user) if userinfo else {"sub": user.get_user_id()}

            async def get_key_info(self):
                await self.pause("get_key_info")
                return world.key

        class Provider(BaseProvider):
            async def create_request(self, request):
                return request

            async def create_response(self, response):
                return response

        if grants is None:
            grants = [AuthorizationCodeGrant, RefreshTokenGrant, ClientCredentialsGrant]
        self.provider = (provider or Provider)(ISSUER, adapter=Adapter, grants=grants, scopes=[Scope(s) for s in scopes], keyset=None, error_url=ERROR_URL, token_lifespan=lifespan, id_token_lifespan=id_lifespan)
        for grant, hook in hooks:
            self.provider.add_hook(grant, hook)

    def of(self, kind):
        return [x for x in self.log if x[0] == kind]


def request(c, method="POST", query=None, form=None, headers=None, user=None, path="https://as.example/x"):
    """query, form: entries of c.form(...) / c.form_all(...)"""
    from psion.oauth2.models import Request
    url = c.url(path, query if query is not None else c.form_all([]))
    body = c.body(form if form is not None else c.form_all([]))
    return Request(method, url, headers or {}, body, user)


def basic(c, client_id, secret):
    import base64
    return "Basic " + base64.b64encode((client_id + ":" + secret).encode("utf-8")).decode("ascii")


def body_of(resp):
    import json
    return json.loads(resp.body)


def location(resp):
    return resp.headers["Location"]
