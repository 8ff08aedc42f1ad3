"""Writes properties.jsonl and MANIFEST.json (run by hand after editing)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "src/psion/webtools.py"
J = "src/psion/jose/"
O = "src/psion/oauth2/"
JOSE_TESTS = "The tests of tests/jose sample a few fixed keys, tokens and claims."
NO_TESTS = "There are no tests of the OAuth 2.0 and OpenID Connect parts at all."

P = []


def prop(id, title, statement, over, qtext, why, files, mech, level="", observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe:
        a["observe_at"] = observe
    a["hook_needed"] = None
    P.append(({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a}, level))


prop("C01", "A verified token carries exactly what the key holder signed",
     "Whenever verification of a signed token (JWS or JWT) succeeds, the signature in the token is a valid signature by the given key, under the algorithm the token's header names, over exactly the header and payload octets received, and the header and payload handed back are those octets decoded. Any other token, including any change of header, payload or signature octets, a signature by another key, or an unsigned token carrying a signature, is refused.",
     ["inputs", "configurations"], "all header, payload and signature octets (bounded lengths), all twelve algorithms and none, right and wrong keys",
     JOSE_TESTS + " A forged token that slips through differs from the samples in one octet, one length or one algorithm.",
     [J + "jws.py", J + "jwa", J + "jwt.py"], [("compact deserialization", J + "jws.py"), ("signature algorithms", J + "jwa"), ("JWT decoding", J + "jwt.py")])
prop("C02", "A pinned algorithm cannot be overridden by the token",
     "When the verifier names the algorithm it expects, a token whose header names any other algorithm, the unsecured one included, is refused whatever its signature. A token naming an algorithm the library does not know is always refused.",
     ["inputs"], "all algorithm names in the header (bounded length), all pinned algorithms, any signature",
     JOSE_TESTS + " The refusal must hold for every pair of algorithms and every name an attacker can write.",
     [J + "jws.py", J + "jwa"], [("algorithm check on deserialization", J + "jws.py")])
prop("C03", "Keys are only used for what they declare",
     "Signing and verifying succeed only with a key whose type and curve are those of the algorithm, whose declared algorithm, if any, is that algorithm, and whose declared use and operations, if any, are for signatures; a public key never signs, and a token that names a key identifier is only verified with the key of that identifier. Everything else is refused as an invalid key.",
     ["inputs", "configurations"], "all combinations of key type, curve, alg, use, key_ops, kid with each algorithm and operation",
     JOSE_TESTS + " The space is the product of key declarations and operations.",
     [J + "jws.py", J + "jwa", J + "jwk.py"], [("key validation", J + "jws.py"), ("per-algorithm key validation", J + "jwa")])
prop("C04", "Signing then verifying returns the same header, payload and claims",
     "For every payload, header and claims set that can be signed, verifying the produced token with the matching key returns the same payload, header members and claims. The token consists of three unpadded base64url segments separated by dots.",
     ["inputs", "configurations"], "all payload octets, header texts and claim values (bounded), all algorithms",
     JOSE_TESTS + " Round trips must hold for every octet, length (padding) and Unicode text.",
     [J + "jws.py", J + "jwt.py", W], [("serialization", J + "jws.py"), ("base64url", W)])
prop("C05", "Malformed tokens and headers are refused with library errors",
     "Whatever octets or text are given as a token, decoding either succeeds or fails with one of the library's own JOSE errors, never with another exception. Headers without an algorithm, with ill-typed members, or naming critical parameters they do not carry are refused.",
     ["inputs"], "all token octets of bounded length, all segment counts, all JSON shapes of header and payload, all header member types",
     JOSE_TESTS + " Robustness is about all the inputs nobody thought of.",
     [J + "jws.py", J + "jwt.py"], [("deserialization error handling", J + "jws.py"), ("header validation", J + "jws.py")])
prop("C06", "Time claims are judged against the real clock in every time zone",
     "A claims set is refused as expired exactly when its expiration is not in the future, as not yet valid exactly when its not-before is in the future, and as invalid exactly when it was issued in the future, compared with the current UTC time in whole seconds, whatever time zone the host is in. The verdict is the same for a token just decoded and for a claims set given directly.",
     ["inputs", "configurations"], "all clock instants and claim values in range, several host time zones",
     JOSE_TESTS + " They run in one time zone, at one clock, far from the boundary.",
     [J + "jwt.py"], [("default claim validation", J + "jwt.py")])
prop("C07", "Every configured claim requirement is enforced",
     "A claims set is accepted under claim options exactly when every option is met: an essential claim is present, a required value is equal, and one of the required values is matched (for a list claim, by any of its items). This holds for every claim named, in any order and combination, and when decoding a token as when checking claims directly.",
     ["inputs", "configurations"], "all combinations of essential, value and values options over several claims, all claim values of bounded size",
     JOSE_TESTS + " A requirement can be skipped by the order or falsiness of another.",
     [J + "jwt.py"], [("claim options", J + "jwt.py")])
prop("C08", "Registered claims of the wrong type are refused",
     "A claims set whose registered claims (iss, sub, aud, exp, nbf, iat, jti) have a type other than the standard's is refused as an invalid claim; with the right types and times it is accepted and its members are kept unchanged, except that null members are dropped. An empty or non-object claims set is refused.",
     ["inputs"], "every registered claim with every JSON type, falsy values included",
     JOSE_TESTS,
     [J + "jwt.py"], [("default claim validation", J + "jwt.py")])
prop("C09", "Base64url and integer encodings lose nothing",
     "Encoding octets or text as base64url and decoding gives the same octets back, without padding and using only the URL safe alphabet, for every length. Every non-negative integer survives encoding and decoding, and negative ones are refused.",
     ["inputs"], "all octet strings and texts of bounded length, all integers to 521 bits",
     JOSE_TESTS, [W], [("base64url_encode, base64url_decode", W), ("int_to_b64, b64_to_int", W)])
prop("C10", "Public key exports never carry private parameters",
     "The public form of an asymmetric key, given, parsed or generated (as JSON object or PEM), contains no private parameter, for every key type and curve and also inside key sets, however often it is exported, and still verifies. The private form rebuilds the same key. Numbers of elliptic-curve keys are written in the full size of the curve.",
     ["inputs", "configurations"], "all asymmetric key types and curves, all metadata members, key sets, repeated exports",
     JOSE_TESTS, [J + "jwk.py", J + "jwa"], [("dump and export of keys", J + "jwk.py")])
prop("C11", "Symmetric keys are parsed and exported without loss or confusion",
     "A symmetric key made from raw octets or base64url text, exported and parsed again, has the same secret for every octet string. Text that is an asymmetric key or certificate in PEM form is refused as a symmetric secret, and key descriptions whose members are missing or ill-typed are refused as invalid keys.",
     ["inputs"], "all secrets of bounded length, all positions of PEM markers, all missing or ill-typed members",
     JOSE_TESTS, [J + "jwk.py"], [("symmetric keys", J + "jwk.py")])
prop("C12", "Key sets have unique identifiers and find the right key",
     "A key set is refused when any key lacks an identifier or two share one; otherwise looking up an identifier returns exactly the key that has it, or nothing. Exporting and loading a key set preserves its keys.",
     ["inputs", "configurations"], "all identifiers of bounded length, sets of up to three keys",
     JOSE_TESTS, [J + "jwk.py"], [("key sets", J + "jwk.py")])
prop("C13", "Each signature algorithm uses the parameters the standard gives it",
     "Every algorithm name is bound to its standard hash function, key type, curve, padding, salt length and signature form, so that tokens are interoperable with other implementations. ECDSA signatures are the fixed-length concatenation of both integers for every integer value.",
     ["inputs", "configurations"], "all algorithms, all payload octets of bounded length, signatures with leading zero octets",
     "The tests only check psion against itself, with sampled signatures.",
     [J + "jwa"], [("algorithm table and implementations", J + "jwa")])
prop("C14", "A client is authenticated exactly when it proves to be that client",
     "A request is taken as coming from a client exactly when it carries that client's identifier and secret by the one method the client is registered for (HTTP Basic, form parameters, or the identifier alone for public clients), the method is allowed for the operation, and no second method is used. Otherwise nothing is done for it and it is refused as an invalid client.",
     ["inputs", "configurations"], "all identifiers and secrets of bounded length in store and request, all registered methods, all combinations of credentials sent",
     NO_TESTS, [O + "authentication/client_authentication.py", O + "authentication/methods"], [("method selection and checks", O + "authentication/client_authentication.py"), ("methods", O + "authentication/methods")])
prop("C15", "Authorization headers are read faithfully or ignored",
     "Credentials in an HTTP Basic header are read exactly as sent, for every identifier without a colon and every secret; a header that is absent, of another scheme or malformed is treated as carrying none and never causes a failure. The same holds for Bearer headers.",
     ["inputs"], "all header texts of bounded length, all identifiers and secrets of bounded length",
     NO_TESTS, [W, O + "authentication/methods"], [("header parsing", W)])
prop("C16", "Codes are issued only for valid requests and bound to them exactly",
     "The authorization endpoint issues a code exactly when the request names a registered client, one of its redirect URIs, a response type the server offers and the client may use, a code challenge of 43 to 128 characters with a known method, and only scopes the server offers and the client may have, and a user is present. The code is stored with exactly that client, user, redirect URI, challenge, method and scopes, and the same code is returned.",
     ["inputs", "configurations"], "all parameter values of bounded length, present or absent, registered data, with or without a user",
     NO_TESTS, [O + "endpoints/authorization.py", O + "grants/authorization_code.py", O + "grants/base.py"], [("authorization endpoint", O + "endpoints/authorization.py"), ("code grant, authorization part", O + "grants/authorization_code.py")])
prop("C17", "No answer is ever redirected to an unregistered URI",
     "Whatever an authorization or consent request contains, the user is redirected to the redirect URI it names only if that URI is registered for the client it names; otherwise the answer goes to the server's own error page.",
     ["inputs", "configurations"], "all client identifiers, redirect URIs and other parameters of bounded length, present or absent",
     NO_TESTS, [O + "endpoints/authorization.py"], [("client and redirect URI validation", O + "endpoints/authorization.py")])
prop("C18", "Authorization answers carry state, code or error faithfully",
     "Every redirect back to a client carries the state value it sent, unchanged, and either the code or exactly one error, the standard one for its reason, whatever characters are involved. Parameters already in the redirect URI are kept, and the Location header is always printable ASCII.",
     ["inputs"], "all state values and redirect URIs of bounded length over all of Unicode, every outcome",
     NO_TESTS, [O + "endpoints/authorization.py", O + "models/http.py", W], [("error answers", O + "endpoints/authorization.py"), ("URL encoding", W), ("redirect response", O + "models/http.py")])
prop("C19", "A code is redeemed only by its client, with its URI, verifier, in time",
     "The token endpoint gives tokens for a code exactly when the code exists and has not expired, belongs to the authenticated client, is presented with the redirect URI it was issued for and with a verifier that matches its challenge (equal, or by SHA-256 for S256), and its user exists. The tokens are then for that client and user, with exactly the code's scopes, a refresh token only for clients registered for it, and the answer states them truthfully.",
     ["inputs", "configurations"], "all codes, verifiers, challenges and redirect URIs of bounded length, all clocks and expirations, several time zones",
     NO_TESTS, [O + "grants/authorization_code.py", O + "endpoints/token.py"], [("code grant, token part", O + "grants/authorization_code.py")])
prop("C20", "An authorization code is good for one use",
     "Over any history of token requests, a code yields tokens at most once, and once an authenticated client has presented it, successfully or not, even when the request fails part of the way, it is gone and yields nothing afterwards. Other codes are unaffected.",
     ["histories", "schedules"], "all histories of up to two (thorough: four) requests, right or wrong in each way, or broken off by a failure at any adapter or hook call; all interleavings of two overlapping requests at adapter calls",
     NO_TESTS, [O + "grants/authorization_code.py"], [("deletion of the code after use", O + "grants/authorization_code.py")])
prop("C21", "Refresh tokens are bound to their client and never widen scope",
     "A refresh token yields tokens exactly when it exists and has not expired, belongs to the authenticated client, its user exists, and the requested scopes are all offered, allowed to the client and carried by the token. The new tokens are for that client and user, with the requested scopes, or all the token's scopes the client may still have, and never more.",
     ["inputs", "configurations"], "all tokens and scopes of bounded length, all clocks and expirations, all registered scopes",
     NO_TESTS, [O + "grants/refresh_token.py", O + "grants/base.py"], [("refresh token grant", O + "grants/refresh_token.py")])
prop("C22", "Client credentials give a client its own allowed scopes only",
     "The client credentials grant gives an access token, owned by the client itself, exactly when every requested scope is offered by the server and allowed to the client; without a requested scope it covers the client's allowed scopes. It never gives a refresh token and never acts for a user.",
     ["inputs", "configurations"], "all requested scopes of bounded length, all registered scopes",
     NO_TESTS, [O + "grants/client_credentials.py", O + "grants/base.py"], [("client credentials grant", O + "grants/client_credentials.py")])
prop("C23", "The token endpoint serves only offered, registered grants, uncached",
     "The token endpoint gives tokens only for grant types the server offers, to authenticated clients registered for that grant type; every refusal is a JSON object naming the standard error for its reason, makes no token and, for unauthenticated requests, changes nothing. Every answer forbids caching.",
     ["inputs", "configurations"], "all grant type texts of bounded length, all offered and registered grant sets, credentials right, wrong or absent",
     NO_TESTS, [O + "endpoints/token.py"], [("token endpoint", O + "endpoints/token.py")])
prop("C24", "Every endpoint answers every request",
     "The authorization, consent, token and revocation endpoints answer every request with a well-formed response of their kind, whatever the parameters and headers are, and never fail with an exception.",
     ["inputs"], "all parameters of bounded length over all of Unicode, present or absent, in query or body, all authorization headers of bounded length, dangling stored records",
     NO_TESTS, [O + "endpoints", O + "authentication", O + "grants", O + "models/http.py"], [("error handling of the endpoints", O + "endpoints")])
prop("C25", "Revocation acts once, for the client, on the token named",
     "A revocation request revokes exactly the token its form body names, with the hint it gives, on behalf of the authenticated client, and reports success exactly then. Requests that are unauthenticated, name no token or give an unknown hint revoke nothing and are answered with 401 or 400 and the standard error.",
     ["inputs"], "all tokens and hints of bounded length, present or absent, credentials right or wrong",
     NO_TESTS, [O + "endpoints/revocation.py"], [("revocation endpoint", O + "endpoints/revocation.py")])
prop("C26", "Hooks act only for the provider, grant and checkpoint they were added to",
     "A hook added to a grant of a provider is run at each checkpoint it defines, with that provider's adapter and settings, and its additions appear in those answers. No other provider, grant or checkpoint, earlier or later, is affected.",
     ["histories", "configurations"], "every choice of provider, grant, checkpoints and order of creation",
     NO_TESTS, [O + "providers/base.py", O + "grants/base.py"], [("hook registration", O + "providers/base.py"), ("hook execution", O + "grants/base.py")])
prop("C27", "ID tokens come exactly with openid and state the truth",
     "With OpenID Connect enabled, redeeming a code gives an ID token exactly when openid is one of the granted scopes; it is signed with the server's key and names the issuer, the client as audience, the user's claims, the current time and lifetime, the hash of the access token, and the nonce of the authorization request if there was one. A relying party's check accepts an ID token exactly when its nonce is the expected one and its authentication time is well formed and present where required.",
     ["inputs", "configurations"], "all nonces, subjects and client identifiers of bounded length, all clocks, several time zones, all signature algorithms, scope lists with near-misses",
     NO_TESTS, ["src/psion/oidc/flows/authorization_code.py", "src/psion/oidc/claims.py"], [("code flow hook", "src/psion/oidc/flows/authorization_code.py"), ("ID token claims", "src/psion/oidc/claims.py")])
prop("C28", "Requests do not affect one another",
     "The answer to a request and its effects depend only on that request and on the stored data as they are then: serving any other requests before it or at the same time, successful or not, to this or another provider, changes neither, except that a used code is gone.",
     ["histories", "schedules"], "all pairs (thorough: triples) of requests of every kind by either of two parties, one of them repeated many times; all interleavings of two overlapping requests at adapter calls; stored data changed in between",
     NO_TESTS, [O + "endpoints", O + "grants", O + "models/http.py", O + "exceptions.py"], [("per-request state", O + "models/http.py")])
prop("C29", "Codes and generated secrets are unpredictable",
     "Authorization codes and generated symmetric keys are drawn afresh from a cryptographically secure source with at least 128 bits of entropy, in the length asked for, using only URL safe characters for codes.",
     ["inputs", "histories"], "all outcomes of the random source, several sizes, successive codes",
     "No test can see where randomness comes from.",
     [W, J + "jwk.py", O + "grants/authorization_code.py"], [("secret_token", W), ("symmetric key generation", J + "jwk.py")])
prop("C30", "Responses and errors carry no empty members",
     "Parameters without a value never appear in token answers, error answers, headers or redirects, and every parameter that has a value, falsy ones included, does appear, unchanged. Building an answer does not alter the data it is built from.",
     ["inputs"], "all values of bounded length, null and falsy values at every position, every way of setting them",
     NO_TESTS, [W, O + "exceptions.py", O + "models/http.py"], [("FullDict", W), ("error dump", O + "exceptions.py")])
prop("C31", "Request parameters and headers arrive as sent",
     "Every parameter of the query and of the form body is available with exactly the value sent, the body taking precedence over the query and the last of several values counting, blank ones being left out; header names are case-insensitive. Only GET and POST requests are accepted.",
     ["inputs"], "all values of bounded length over all of Unicode, present or absent, repeated; all methods of three or four letters",
     NO_TESTS, [O + "models/http.py", W], [("request model", O + "models/http.py"), ("urldecode", W)])
prop("C32", "Consent data shows the asking client and only its allowed scopes",
     "Consent data is given exactly for requests that name a registered client with one of its redirect URIs, a response type it may use and a scope; it shows that client and, of the scopes requested, exactly those the client may have. Asking for it issues nothing.",
     ["inputs", "configurations"], "all parameters of bounded length, present or absent, all registered data",
     NO_TESTS, [O + "endpoints/authorization.py"], [("consent data", O + "endpoints/authorization.py")])
prop("C33", "Token hashes are the left half of the right digest",
     "The hash of an access token for an ID token is the base64url encoding of the left half of the digest named by the signing algorithm, for every token and algorithm.",
     ["inputs", "configurations"], "all tokens of bounded length, all twelve algorithms",
     NO_TESTS, [W], [("create_half_hash", W)])

TECH = "Bounded symbolic execution of psion's own source with z3 (paths and obligations decided by the solver); counterexamples replayed on the real code"
NOTE = ("Within the stated bounds every path of the real source is explored and every obligation discharged by z3 for all values on the path; "
        "trusted: the Python models of library calls in psym/, cryptographic primitives as uninterpreted functions, the in-memory adapter; outside the bounds nothing is claimed.")


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p, _ in P:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps(p) + "\n")
    m = {"version": 1, "setup_cmd": "sh ./setup.sh", "checks": [
        {"property": p["id"], "quick_cmd": f"./check.sh {p['id']} quick", "thorough_cmd": f"./check.sh {p['id']} thorough",
         "technique": TECH, "level": "other", "level_note": NOTE} for p, _ in P], "not_applicable": [],
        "notes": "No hooks are needed in /repo. Genuine defects were repaired in fix: commits; see known-findings.txt and DESIGN.md."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
