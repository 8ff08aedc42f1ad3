"""The models of Python operations, compared with Python itself: each
operation is run on a symbolic value constrained to a sampled concrete one,
and has to give what it gives on the concrete one.  Not a property of psion."""
import base64
import binascii
import copy
import datetime as dt
import hmac
import json
import re
import struct
import urllib.parse as up

S = {
    "split": lambda s: s.split(), "split1": lambda s: s.split(None, 1), "splitc": lambda s: s.split(":"), "splitc1": lambda s: s.split(":", 1), "rsplit": lambda s: s.rsplit(":", 1),
    "rsplitw": lambda s: s.rsplit(None, 1), "splitsp": lambda s: s.split(" "), "split2": lambda s: s.split("ab"),
    "strip": lambda s: s.strip(), "lstrip": lambda s: s.lstrip(), "rstrip": lambda s: s.rstrip(), "stripc": lambda s: s.strip("a= "), "rstripc": lambda s: s.rstrip("="),
    "lower": lambda s: s.lower(), "upper": lambda s: s.upper(), "casefold": lambda s: s.casefold(), "title": lambda s: s.title(), "capitalize": lambda s: s.capitalize(), "swapcase": lambda s: s.swapcase(),
    "isascii": lambda s: s.isascii(), "isdigit": lambda s: s.isdigit(), "isalpha": lambda s: s.isalpha(), "isalnum": lambda s: s.isalnum(), "isspace": lambda s: s.isspace(), "isprintable": lambda s: s.isprintable(),
    "isidentifier": lambda s: s.isidentifier(), "isupper": lambda s: s.isupper(), "islower": lambda s: s.islower(), "isdecimal": lambda s: s.isdecimal(), "isnumeric": lambda s: s.isnumeric(),
    "startswith": lambda s: (s.startswith("a"), s.startswith(("b", "ab")), s.startswith(""), s.startswith("b", 1)), "endswith": lambda s: (s.endswith("a"), s.endswith(("b", "ab")), s.endswith("")),
    "find": lambda s: (s.find("a"), s.find("ab"), s.find(""), s.find("a", 1)), "rfind": lambda s: (s.rfind("a"), s.rfind("ab")), "index": lambda s: s.index("b"), "count": lambda s: (s.count("a"), s.count("")),
    "replace": lambda s: s.replace("a", "xy"), "replace1": lambda s: s.replace("a", "", 1), "replace2": lambda s: s.replace("ab", "b"), "partition": lambda s: s.partition(":"), "rpartition": lambda s: s.rpartition(":"), "splitlines": lambda s: s.splitlines(),
    "utf8": lambda s: s.encode(), "ascii": lambda s: s.encode("ascii"), "latin": lambda s: s.encode("latin-1"), "ignore": lambda s: s.encode("ascii", "ignore"), "surrogate": lambda s: s.encode("utf-8", "surrogatepass"),
    "slice": lambda s: (s[1:], s[:-1], s[::-1], s[:2], s[1:2], s[-2:], s[::2]), "first": lambda s: s[0], "last": lambda s: s[-1], "list": lambda s: list(s), "sorted": lambda s: sorted(s), "set": lambda s: sorted(set(s)), "len": lambda s: len(s), "dictkeys": lambda s: list(dict.fromkeys(s)),
    "in": lambda s: ("a" in s, "ab" in s, "" in s, s in "xaby", s in ("a", "ab"), s in {"a": 1, "b": 2}), "order": lambda s: (s < "ab", s <= "ab", s > "b", s == "ab", s != "ab"), "add": lambda s: "x" + s + s, "mul": lambda s: (s * 3, s * 0), "join": lambda s: (s.join(["1", "2", "3"]), ",".join(s)),
    "format": lambda s: (f"<{s}>", "{}-{}".format(s, s), "%s" % s, "%s/%s" % (s, 1)), "repr": lambda s: repr(s) if s.isalnum() and s.isascii() else None, "zfill": lambda s: s.zfill(4), "ljust": lambda s: (s.ljust(4), s.rjust(4, "0"), s.center(5)), "prefix": lambda s: (s.removeprefix("a"), s.removesuffix("b")),
    "translate": lambda s: s.translate({97: "x", 98: None}), "ord": lambda s: [ord(x) for x in s], "all": lambda s: (all(x in "ab" for x in s), any(x == "b" for x in s)), "enumerate": lambda s: [(i, x) for i, x in enumerate(s)], "zip": lambda s: list(zip(s, s[1:])), "bool": lambda s: (bool(s), not s, s or "z", s and "z"), "hash": lambda s: {s: 1}.get("ab"),
    "int": lambda s: int(s), "int16": lambda s: int(s, 16), "float": lambda s: str(float(s)),
    "loads": lambda s: json.loads(s), "dumps": lambda s: json.dumps(s), "dumpsu": lambda s: json.dumps({"a": s, s: [1, None, True]}, ensure_ascii=False), "roundtrip": lambda s: json.loads(json.dumps([s])), "dumpssep": lambda s: json.dumps({"b": s, "a": 1}, separators=(",", ":"), sort_keys=True),
    "qsl": lambda s: up.parse_qsl(s), "qslb": lambda s: up.parse_qsl(s, keep_blank_values=True), "qs": lambda s: up.parse_qs(s), "quote": lambda s: up.quote(s), "quoteall": lambda s: up.quote(s, safe=""), "quoteplus": lambda s: up.quote_plus(s), "unquote": lambda s: up.unquote(s), "unquoteplus": lambda s: up.unquote_plus(s), "urlencode": lambda s: up.urlencode({"k": s}), "urlencode2": lambda s: up.urlencode([("k", s), (s, "v")]),
    "urlparse": lambda s: tuple(up.urlparse("https://h/p?" + s)), "urlsplit": lambda s: tuple(up.urlsplit("https://h/" + s)), "urlsplit0": lambda s: up.urlsplit("https://h?" + s).query,
    "b64e": lambda s: base64.b64encode(s.encode()), "b64d": lambda s: base64.b64decode(s), "ub64d": lambda s: base64.urlsafe_b64decode(s), "b64dv": lambda s: base64.b64decode(s, validate=True), "ub64pad": lambda s: base64.urlsafe_b64decode(s + "=" * (-len(s) % 4)),
    "fullmatch": lambda s: re.fullmatch(r"[a-z]+:\w*", s) is not None, "match": lambda s: bool(re.match(r"a|b.", s)), "search": lambda s: bool(re.search(r"\s$", s)), "groups": lambda s: (lambda m: m and m.groups())(re.match(r"(\w*)[:=](.*)", s)), "sub": lambda s: re.sub("[^a-z]", "_", s), "findall": lambda s: re.findall(r"[ab]+", s), "resplit": lambda s: re.split(r"[: ]", s),
    "digest": lambda s: hmac.compare_digest(s, "ab"), "copy": lambda s: copy.deepcopy({"a": [s]}), "fromhex": lambda s: bytes.fromhex(s), "eqlist": lambda s: [s, 1] == ["ab", 1], "min": lambda s: (min(s, "ab"), max([s, "b"])),
}
B = {
    "utf8": lambda b: b.decode(), "ascii": lambda b: b.decode("ascii"), "latin": lambda b: b.decode("latin-1"), "ignore": lambda b: b.decode("utf-8", "ignore"), "replace": lambda b: b.decode("utf-8", "replace"), "str": lambda b: str(b, "utf-8"),
    "hex": lambda b: b.hex(), "hexlify": lambda b: binascii.hexlify(b), "frombytes": lambda b: int.from_bytes(b, "big"), "little": lambda b: int.from_bytes(b, "little"), "signed": lambda b: int.from_bytes(b, "big", signed=True),
    "split": lambda b: b.split(b"."), "split1": lambda b: b.split(b".", 1), "rsplit": lambda b: b.rsplit(b".", 1), "partition": lambda b: b.partition(b"."), "strip": lambda b: (b.strip(), b.rstrip(b"="), b.lstrip(b"\x00")), "slice": lambda b: (b[1:], b[:2], b[::-1], b[-1:]), "index": lambda b: b[0], "list": lambda b: list(b), "find": lambda b: (b.find(b"a"), b.count(b"."), b"ab" in b, 97 in b), "startswith": lambda b: (b.startswith(b"a"), b.endswith(b".")),
    "b64": lambda b: base64.b64encode(b), "ub64": lambda b: base64.urlsafe_b64encode(b).rstrip(b"="), "b64d": lambda b: base64.b64decode(b), "ub64d": lambda b: base64.urlsafe_b64decode(b + b"=="), "ub64m": lambda b: base64.urlsafe_b64decode(b + b"=" * (len(b) % 4)), "b16": lambda b: base64.b16encode(b), "a2b": lambda b: binascii.a2b_base64(b),
    "unpack": lambda b: struct.unpack("%sB" % len(b), b), "join": lambda b: (b".".join([b, b"x", b]), b"".join([b, b])), "eq": lambda b: (b == b"ab", b != b"ab", b < b"ab", b in (b"a", b"ab")), "loads": lambda b: json.loads(b), "fmt": lambda b: "".join("%02x" % x for x in b), "bytes": lambda b: (bytes(b), bytes(list(b)), bytearray(b) == b), "sum": lambda b: (sum(b), max(b, default=0), len(b)),
    "xor": lambda b: bytes(x ^ 0x5A for x in b), "digest": lambda b: hmac.compare_digest(b, b"ab"), "lower": lambda b: (b.lower(), b.upper()), "replaceb": lambda b: b.replace(b"a", b"xx"), "qsl": lambda b: up.parse_qsl(b), "bool": lambda b: (bool(b), b or b"z"), "memory": lambda b: bytes(memoryview(b)), "repr": lambda b: repr(b),
}
N = {
    "arith": lambda n: (n + 7, n - 7, n * 3, n // 5, n % 5, -n, abs(n)), "divneg": lambda n: (n // -3, n % -3, divmod(n, 7)), "cmp": lambda n: (n < 5, n <= 5, n == 5, n != 5, n > 5, n in (1, 5)), "bits": lambda n: (n.bit_length(), n & 255, n | 1, n ^ 3, n >> 3, n << 2, ~n),
    "bytes": lambda n: n.to_bytes(8, "big"), "short": lambda n: n.to_bytes(1, "big"), "exact": lambda n: n.to_bytes(max(1, (n.bit_length() + 7) // 8), "big"), "text": lambda n: (str(n), f"{n}", "%d" % n), "hex": lambda n: (hex(n), "%x" % n, f"{n:04x}"), "bool": lambda n: (bool(n), not n, n or 9), "range": lambda n: list(range(n % 4)), "dumps": lambda n: json.dumps({"n": n}), "roundtrip": lambda n: json.loads(json.dumps([n])),
    "round": lambda n: (int(n), round(n), float(n % 2**50) == n % 2**50), "minmax": lambda n: (min(n, 5), max(n, 5)), "type": lambda n: (isinstance(n, int), isinstance(n, bool), type(n) is int), "index": lambda n: "abcdefg"[n % 7], "pow": lambda n: (n ** 2, pow(n, 2, 97)), "sum": lambda n: sum([n, 1, n]), "sorted": lambda n: sorted([n, 5, 0]),
    "delta": lambda n: (dt.timedelta(seconds=n % 10**6).total_seconds(), dt.timedelta(seconds=n % 10**6) < dt.timedelta(hours=1)),
}
T = {
    "utcnow": lambda: dt.datetime.utcnow(), "now": lambda: dt.datetime.now(), "nowutc": lambda: dt.datetime.now(dt.timezone.utc), "stamp": lambda: dt.datetime.now(dt.timezone.utc).timestamp(), "int": lambda: int(dt.datetime.now(dt.timezone.utc).timestamp()), "naive": lambda: int(dt.datetime.utcnow().timestamp()), "later": lambda: dt.datetime.utcnow() + dt.timedelta(minutes=5),
    "cmp": lambda: (dt.datetime.utcnow() >= dt.datetime(2021, 1, 1), dt.datetime.now(dt.timezone.utc) < dt.datetime(2021, 1, 1, tzinfo=dt.timezone.utc)), "from": lambda: dt.datetime.fromtimestamp(int(dt.datetime.now(dt.timezone.utc).timestamp()), dt.timezone.utc), "replace": lambda: dt.datetime.now(dt.timezone.utc).replace(tzinfo=None), "diff": lambda: (dt.datetime.utcnow() - dt.datetime(1970, 1, 1)).total_seconds(), "time": lambda: int(__import__("time").time()),
}


def outcome(f, *a):
    try:
        return f(*a), None
    except Exception as e:  # noqa: BLE001
        return None, e


def compare(c, kind, op, values):
    f = {"S": S, "B": B, "N": N, "T": T}[kind][op]
    v = values[c.choice("sample", list(range(len(values))))]
    if kind == "T":
        us, tz = v
        c.set_tz(tz)
        c.set_now(us)
        want, werr = outcome(f)
        x = c.instant("now", us // 10**6 - 5, us // 10**6 + 5)
        c.assume(x == us)
        c.set_now(x)
        got, err = outcome(f)
    else:
        v = bytes(v) if kind == "B" else v
        want, werr = outcome(f, v)
        x = c.str("x", len(v) + 1) if kind == "S" else c.bytes("x", len(v) + 1) if kind == "B" else c.int("x", -(1 << 70), 1 << 70)
        c.assume(c.eq(x, v))
        got, err = outcome(f, x)
    c.check((err is None) == (werr is None), f"{op}({v!r}): {err!r} instead of {werr!r}")
    if err is None:
        if isinstance(want, float):
            want, got = str(want), str(got)
        c.check(c.eq(got, want), f"{op}({v!r}): not {want!r}")
    else:
        c.check(isinstance(err, type(werr)), f"{op}({v!r}): {err!r} instead of {werr!r}")
    c.cover("done")


def self_(tier):
    import random
    r = random.Random(1)
    n = 60 if tier == "thorough" else 16
    out = []
    pools = ["ab", "ab: =", "ab:=&%+;#?/41", "aB\u00e9\u0130\u00df\u01c5\u2028 \t\n\x1f", "0123456789abcdef-+_. ", '{}[]":,0a1 \\untrfalse-.e', "AZaz09-_=+/", "\x00\x7f\x80\u07ff\u0800\ud7ff\ue000\uffff\U00010000\U0010ffff"]
    texts = ["", "ab", "a", "null", '"a"', "{}", "[1]", "12", "-0", "1e2", "1.5", '{"a":1,"a":2}', '"\\ud83d\\ude00"', '"\\ud83d"', "%41%zz", "a=b&a=c&d=&e", "YWI=", "YWI", "YQ", "Y", "a b", " a ", "\u0661", "1_0", "0x1f", "\x1c", "a\x85b", "NaN", "tru"]
    for op in S:
        vs = texts + ["".join(r.choice(p) for _ in range(r.randint(0, 5))) for p in pools for _ in range(n // 4)]
        out.append(dict(name="S-" + op, fn="compare", params={"kind": "S", "op": op, "values": vs}, covers=["done"]))
    for op in B:
        vs = [list(t.encode()) for t in texts] + [[r.choice([0, 9, 32, 45, 46, 61, 65, 97, 98, 127, 128, 191, 192, 194, 223, 224, 237, 239, 240, 244, 245, 255]) for _ in range(r.randint(0, 5))] for _ in range(2 * n)]
        out.append(dict(name="B-" + op, fn="compare", params={"kind": "B", "op": op, "values": vs}, covers=["done"]))
    for op in N:
        vs = [0, 1, -1, 5, 7, 255, 256, 65535, 65536, 2**31, 2**63, 2**64, -2**64] + [r.randint(-2**r.randint(1, 68), 2**r.randint(1, 68)) for _ in range(n)]
        out.append(dict(name="N-" + op, fn="compare", params={"kind": "N", "op": op, "values": vs}, covers=["done"]))
    for op in T:
        vs = [(r.randint(1577836800 * 10**6, 1700000000 * 10**6), r.choice([0, 330, -300])) for _ in range(n)] + [(1609459200 * 10**6 + d, tz) for d in (-1, 0, 1) for tz in (0, 330)]
        out.append(dict(name="T-" + op, fn="compare", params={"kind": "T", "op": op, "values": vs}, covers=["done"]))
    return out


GOALS = {"SELF": self_}
