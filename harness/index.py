"""property id -> harness module, with the assumptions stated in evidence."""
MODULES = {
    "C09": "codecs", "C29": "codecs", "C30": "codecs",
    "C01": "jws", "C02": "jws", "C03": "jws", "C04": "jws", "C05": "jws", "C13": "jws",
    "C10": "jwk", "C11": "jwk", "C12": "jwk",
    "C14": "clients", "C15": "clients",
    "C16": "authz", "C17": "authz", "C18": "authz",
    "C19": "tokens", "C20": "tokens", "C21": "tokens", "C22": "tokens", "C23": "tokens", "C25": "tokens",
    "C26": "oidc", "C27": "oidc", "C33": "oidc",
    "C24": "service", "C28": "service", "C31": "service", "C32": "service",
    "C06": "jwt", "C07": "jwt", "C08": "jwt",
    "SELF": "selftest",  # the models against Python, no property
}
COMMON_ASSUMPTIONS = [
    "Bounds are those of each goal (sizes in its parameters and in the harness); nothing is claimed beyond them.",
    "Long values (goals named long) are free in their first, middle and last characters and fixed in between; histories and overlaps (goals named after, again, often, overlap, changed) are those of two requests or calls, with the values each goal states.",
    "Texts that nearly match (goals named near) are those that differ from a fixed word by one free character, a missing character, case or a common encoding; odd texts (goals named odd) are the kinds world.odd lists, with their free characters.",
    "Python itself, z3 and the models of standard library calls in psym/models.py are trusted (`check.sh SELF` compares the models with Python on sampled values).",
    "Signature primitives and digests are uninterpreted functions: a signature verifies exactly when it was made by that key, algorithm and message; MACs and digests are functions of their input, without collisions among the values of one path.",
    "The adapter is an in-memory one that keeps what it is given and returns naive UTC expirations, as the mixins document.",
]
TEXT = "any Unicode scalar values"
INFO = {
    "C01": {"bounds": "header <= 2 free members, payload and signature of the lengths in the goal parameters; fixed asymmetric keys, symbolic symmetric keys"},
    "C02": {"bounds": "header algorithm names up to 5 characters, " + TEXT},
    "C03": {"bounds": "one key per type and curve with symbolic declarations"},
    "C04": {"bounds": "payloads up to 4 octets (quick) / more (thorough); texts up to 3 characters"},
    "C05": {"bounds": "junk segments up to 4 characters; tokens of up to 5 segments; numbers with fraction or exponent are enumerated, not exhaustive"},
    "C06": {"bounds": "instants 1970 to 2242 in microseconds; host offsets 0, +330, -300 minutes"},
    "C07": {"bounds": "up to two claims with every combination of options; texts up to 2 characters, lists up to 2 items"},
    "C08": {"bounds": "one registered claim at a time with every JSON type"},
    "C09": {"bounds": "octets up to 8 (quick) / 24 (thorough), text up to 3 / 6 characters, integers to 64 / 521 bits"},
    "C14": {"bounds": "two registered clients; identifiers and secrets of 1 to 2 printable ASCII characters"},
    "C16": {"bounds": "identifiers 1 character, URI paths up to 2, scopes up to 2 (quick) / 3 (thorough) tokens of 1 character, challenge lengths around 43 and 128", "assumptions": ["A scope parameter of white space only is not considered."]},
    "C17": {"bounds": "as C16; one registered URI (quick) / two (thorough) with up to 1 free character"},
    "C18": {"bounds": "state and URI path with one free character, " + TEXT, "assumptions": ["Registered redirect URIs have no fragment (RFC 6749, 3.1.2)."]},
    "C19": {"bounds": "challenges and verifiers of 43 characters (others: 1, 42, 44, 64); instants 2020 to 2023; codes of 2 characters"},
    "C20": {"bounds": "histories of 2 requests (quick) / 3 and 4 (thorough); two overlapping requests with every interleaving of adapter calls"},
    "C21": {"bounds": "scopes up to 2 (quick) / 3 (thorough) tokens of 1 character; instants 2020 to 2023"},
    "C22": {"bounds": "scopes up to 2 (quick) / 3 (thorough) tokens of 1 character"},
    "C23": {"bounds": "unknown grant types of 1 to 18 letters"},
    "C24": {"bounds": "one free character per parameter (quick), two (thorough); authorization headers with 2 / 3 free characters; bodies and queries of 2 / 3 free octets or characters"},
    "C26": {"bounds": "two providers, three grants, four checkpoints"},
    "C27": {"bounds": "nonce, subject and client identifiers of 1 (quick) / 2 (thorough) characters; instants 2020; three host time zones"},
    "C28": {"bounds": "histories of 2 requests (quick) / 3 (thorough) out of 13 kinds and 2 parties, the first also 12 / 40 times; every interleaving of two requests at adapter calls; 10 changes of the stored data"},
    "C31": {"bounds": "values of one character; up to two body values and one query value of a parameter"},
    "C32": {"bounds": "scopes up to 2 (quick) / 3 (thorough) tokens of 1 character"},
    "C33": {"bounds": "tokens up to 4 (quick) / 12 (thorough) characters"},
}
