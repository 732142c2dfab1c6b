"""C08: the conversions, judged by spec/Lexical.tla."""
import datetime, itertools, json, math
from decimal import Decimal
import impl
from harness import *
from closure import judge_tlc

NAMED = {"\n": "LF", "\t": "TAB", "\r": "CR"}


def chars(s):
    return [NAMED.get(c) or (c if 32 <= ord(c) < 127 else "U+%04X" % ord(c)) for c in s]


def number(v):
    d = Decimal(v) if not isinstance(v, float) else Decimal(repr(v))
    sign, digits, exp = d.as_tuple()
    ds = "".join(map(str, digits))
    n = len(ds) + exp
    core = ds.lstrip("0")
    n -= len(ds) - len(core)
    core = core.rstrip("0")
    if not core:
        return {"neg": False, "digits": [], "exp": 0}
    return {"neg": bool(sign), "digits": list(core), "exp": n}


def off(o):
    if o is None:
        return []
    s = o.total_seconds() / 60
    return [int(s) if s == int(s) else 99999]


def encode(dt, v):
    """The value that the implementation returned, in the notation of the specification."""
    if isinstance(v, bool):
        return [{"kind": "bool", "b": v}] if dt == "xsd:boolean" else [{"kind": "wrong"}]
    if dt in NUMERIC:
        if isinstance(v, (int, Decimal, float)):
            if isinstance(v, (float, Decimal)) and (math.isnan(v) or math.isinf(v)):
                return [{"kind": "special", "name": list("NaN" if math.isnan(v) else "INF" if v > 0 else "-INF")}]
            return [{"kind": "num", "num": number(v)}]
        return [{"kind": "wrong"}]
    if dt in ("xsd:date", "xsd:time", "xsd:dateTime", "xsd:dateTimeStamp"):
        r = {}
        if isinstance(v, (datetime.date, datetime.datetime)):
            r["ymd"] = [v.year, v.month, v.day]
        if isinstance(v, (datetime.time, datetime.datetime)):
            r["hms"] = [v.hour, v.minute, v.second]
            r["frac"] = list(("%06d" % v.microsecond).rstrip("0"))
            r["tz"] = off(v.utcoffset())
        if dt == "xsd:date":
            return [dict(kind="date", ymd=r["ymd"])] if "ymd" in r else [{"kind": "wrong"}]
        want = {"hms", "frac", "tz"} | (set() if dt == "xsd:time" else {"ymd"})
        if set(r) != want:
            return [{"kind": "wrong"}]
        return [dict(r, kind="time" if dt == "xsd:time" else "datetime")]
    return []


INTS = ["xsd:integer", "xsd:nonNegativeInteger", "xsd:nonPositiveInteger", "xsd:negativeInteger", "xsd:positiveInteger", "xsd:long",
        "xsd:int", "xsd:short", "xsd:byte", "xsd:unsignedLong", "xsd:unsignedInt", "xsd:unsignedShort", "xsd:unsignedByte"]
NUMERIC = INTS + ["xsd:decimal", "xsd:float", "xsd:double"]


def convert(batch):
    from owlrl.DatatypeHandling import AltXSDToPYTHON
    dt, strs = batch
    f = AltXSDToPYTHON.get(impl.toterm(dt))
    recs = []
    for s in strs:
        r = {"s": chars(s), "out": "none", "val": []}
        if f is not None:
            try:
                v = f(s)
                r["out"] = "value"
                r["val"] = encode(dt, v)
            except ValueError:
                r["out"] = "reject"
            except Exception as e:
                r["out"] = type(e).__name__
        recs.append(r)
    return recs


# ------------------------------------------------------------------ the strings
def words(alphabet, n):
    for k in range(n + 1):
        for t in itertools.product(alphabet, repeat=k):
            yield "".join(t)


def mutate(rng, s, alphabet):
    k = rng.randrange(6)
    i = rng.randrange(len(s) + 1)
    c = rng.choice(alphabet)
    if k == 0:
        return s[:i] + c + s[i:]
    if k == 1:
        return s[:i] + s[i + 1:]
    if k == 2:
        return s[:i] + c + s[i + 1:]
    if k == 3 and s:
        return s[:i] + s[max(0, i - 1)] + s[i:]
    if k == 4:
        j = rng.randrange(len(s) + 1)
        return s[:min(i, j)] + s[max(i, j):]
    return rng.choice([" " + s, s + " ", s + "\n", "\n" + s, s + s, s + "_", s.upper(), s.lower(), s.swapcase(), "+" + s, "-" + s, s + "\u0663"])


def fields():
    return {
        "y": ["0001", "0099", "0999", "1583", "1900", "1970", "1999", "2000", "2004", "2008", "2100", "9999", "0000", "10000", "-0001", "-2000", "99", "02000", "+2000"],
        "m": ["01", "02", "04", "06", "09", "11", "12", "00", "13", "1", "19"],
        "d": ["01", "28", "29", "30", "31", "00", "32", "1", "99"],
        "H": ["00", "01", "12", "19", "23", "24", "25", "1"],
        "M": ["00", "01", "30", "59", "60", "5"],
        "S": ["00", "01", "30", "59", "60", "61", "5"],
        "f": ["", ".", ".0", ".1", ".001", ".010", ".100", ".123456", ".999999", ".000001", ".0000000", ".1234567", ".5000000", ".05", "..5", ".5."],
        "z": ["", "Z", "+00:00", "-00:00", "+01:00", "-01:00", "+05:30", "-05:30", "-03:30", "+13:59", "-13:59", "+14:00", "-14:00", "+14:01", "+15:00", "+1:00", "+0100",
              "z", "+01", "-01:60", "+00:01", "-00:01", "-00:30", "ZZ", "+01:00:00", "Z+01:00", "+24:00"],
    }


def combos(rng, template, n):
    """Every field over all its values with the others valid, and random combinations."""
    F = fields()
    good = {"y": "2004", "m": "02", "d": "28", "H": "23", "M": "59", "S": "07", "f": "", "z": ""}
    parts = [x for x in template if x in F]
    mk = lambda v: "".join(v.get(x, x) if x in F else x for x in template)
    out = []
    for p in parts:
        for x in F[p]:
            out.append(mk(dict(good, **{p: x})))
            out.append(mk(dict(good, z="-05:30", f=".25", **{p: x}) if p not in "zf" else dict(good, **{p: x})))
    if "d" in parts and "m" in parts:
        for y in F["y"] if "y" in parts else [""]:
            for m in ["%02d" % i for i in range(1, 13)]:
                for d in ("28", "29", "30", "31"):
                    out.append(mk(dict(good, y=y, m=m, d=d)))
    if "H" in parts:
        for M in ("00", "01"):
            for S in ("00", "01"):
                for f in ("", ".0", ".000", ".1", ".000000"):
                    for z in ("", "Z", "-01:00"):
                        for md in (("12", "31"), ("02", "28"), ("02", "29"), ("04", "30"), ("01", "01")):
                            out.append(mk(dict(good, H="24", M=M, S=S, f=f, z=z, m=md[0], d=md[1])))
    for _ in range(n):
        v = {p: rng.choice(F[p]) if rng.random() < .5 else good[p] for p in parts}
        v["z"] = rng.choice(F["z"]) if rng.random() < .7 else ""
        out.append(mk(v))
    return out


def strings(dt, rng, chk):
    big = chk.thorough
    n = chk.pick(600, 6000)
    out = []
    if dt in INTS:
        out += words(["+", "-", "0", "1", "9", " "], 5 if big else 4)
        for b in (0, 1, 2 ** 7, 2 ** 8, 2 ** 15, 2 ** 16, 2 ** 31, 2 ** 32, 2 ** 63, 2 ** 64, 10 ** 3, 10 ** 10, 10 ** 19, 10 ** 20, 10 ** 40):
            for d in (-2, -1, 0, 1, 2):
                for k in (b + d, -(b + d)):
                    t = str(k)
                    out += [t, "+" + t, t.replace("-", "-000"), "00" + t, t + ".0", t + "e0"]
        base = [str(rng.choice([-1, 1]) * rng.randrange(10 ** rng.randrange(1, 22))) for _ in range(n)]
        out += base + [mutate(rng, rng.choice(base), "+-0123456789 ._eE\u0663") for _ in range(n)]
        out += ["1_000", "0x10", "1e3", "١", "1.", "\u00a01", "1\u2028", "1l", "--1", "+-1", "1 0", "²", "NaN", "INF", "1,0"]
    elif dt == "xsd:decimal":
        out += words(["+", "-", ".", "0", "5", "e", " "], 5 if big else 4)
        base = ["%s%d.%s" % (rng.choice(["", "-", "+"]), rng.randrange(10 ** rng.randrange(1, 30)), "".join(rng.choice("0001239") for _ in range(rng.randrange(30)))) for _ in range(n)]
        out += base + [mutate(rng, rng.choice(base), "+-.0159 _eE,") for _ in range(n)] + ["NaN", "INF", "Infinity", "sNaN", "1E5", "1e-5", "1_0.0", "١.5", "1.5f", "1d", "0x1.8p1"]
    elif dt in ("xsd:float", "xsd:double"):
        out += words(["+", "-", ".", "1", "0", "e", "E"], 5 if big else 4)
        base = ["%s%d%s%s" % (rng.choice(["", "-", "+"]), rng.randrange(10 ** rng.randrange(1, 12)), rng.choice(["", ".", ".5", ".025", ".0"]),
                              rng.choice(["", "e5", "E-5", "e+05", "E00", "E3%d" % rng.randrange(9), "e-3%d" % rng.randrange(9), "E2%d0" % rng.randrange(10)])) for _ in range(n)]
        out += base + [mutate(rng, rng.choice(base), "+-.019 _eE") for _ in range(n)]
        for w in ("INF", "-INF", "+INF", "NaN"):
            out += [w, w.lower(), w.upper(), w.title(), "-" + w, "+" + w, w + " ", " " + w, w + "inity", w[:-1]]
        out += ["Infinity", "inf", "nan", "sNaN", "NaN1", "1_0", "0e0", "-0", "0.0E99", "0e-99999", "1e99999", "0x1p3", "1.5f", "1d", "1e5.0", "1e", "e5", ".e5", "+.5", "-.5e-2"]
    elif dt == "xsd:boolean":
        out += words(["0", "1", " "], 3)
        for w in ("true", "false", "1", "0", "yes", "no", "t", "f", "True", "None", "TRUE", "on"):
            out += [w, w.upper(), w.title(), w.swapcase()] + [mutate(rng, w, "truefals01 ") for _ in range(n // 8)]
    elif dt == "xsd:hexBinary":
        out += words(["0", "a", "F", "g", " ", "x"], 5 if big else 4)
        base = ["".join(rng.choice("0123456789abcdefABCDEF") for _ in range(rng.randrange(40))) for _ in range(n)]
        out += base + [mutate(rng, rng.choice(base), "09afAFgG x\u0663") for _ in range(n)] + ["0x0a", "0_0a"]
    elif dt == "xsd:base64Binary":
        import base64
        out += words(["A", "Q", "=", " ", "z"], 6 if big else 5)
        base = [base64.b64encode(bytes(rng.randrange(256) for _ in range(rng.randrange(20)))).decode() for _ in range(n)]
        base += ["".join(c + " " for c in b).strip() for b in base[:n // 4]]
        out += base + [mutate(rng, rng.choice(base), "AZaz09+/= _-") for _ in range(n)]
    elif dt == "xsd:language":
        out += words(["a", "1", "-", "Z", " "], 5 if big else 4)
        seg = lambda a: "".join(rng.choice(a) for _ in range(rng.choice([1, 2, 7, 8, 9])))
        base = ["-".join([seg("abXYz")] + [seg("ab12Z") for _ in range(rng.randrange(4))]) for _ in range(n)]
        out += base + [mutate(rng, rng.choice(base), "aZ1-_ ") for _ in range(n)] + ["en-US", "en_US", "x-klingon", "é"]
    elif dt in ("xsd:Name", "xsd:NCName", "xsd:NMTOKEN"):
        out += words(["a", "1", ".", "-", ":", "_", " ", "é", "/"], 4 if big else 3)
        base = ["".join(rng.choice("abZ19.-:_éÜ") for _ in range(rng.randrange(1, 12))) for _ in range(n)]
        out += base + [mutate(rng, rng.choice(base), "aZ1-_.: /@#+é$!%&*()?;,\"'<>=[]{}|\\^~`") for _ in range(n)]
    elif dt in ("xsd:token", "xsd:normalizedString", "xsd:string"):
        out += words(["a", " ", "\n", "\t", "\r", "\u00a0"], 5 if big else 4)
        base = [" ".join("".join(rng.choice("ab1.é") for _ in range(rng.randrange(1, 5))) for _ in range(rng.randrange(5))) for _ in range(n)]
        out += base + [mutate(rng, rng.choice(base), "a  \n\t\r\u00a0") for _ in range(n)]
    elif dt == "rdf:PlainLiteral":
        out += words(["a", "@", "-", "1", " ", "\n"], 4)
        base = ["text@en", "text@", "a@b@en-US", "@", "@fr", "x@en-", "x@1a", "x@en_US", "x@abcdefghi"]
        out += base + [mutate(rng, rng.choice(base), "a@-1 \n") for _ in range(n)]
    else:
        tpl = {"xsd:date": "y-m-dz", "xsd:time": "H:M:Sfz", "xsd:dateTime": "y-m-dTH:M:Sfz", "xsd:dateTimeStamp": "y-m-dTH:M:Sfz",
               "xsd:gYear": "yz", "xsd:gYearMonth": "y-mz", "xsd:gMonthDay": "--m-dz", "xsd:gDay": "---dz", "xsd:gMonth": "--mz"}[dt]
        base = combos(rng, tpl, n)
        out += base + [mutate(rng, rng.choice(base), "0123459-+:.TZz ") for _ in range(2 * n)]
        out += ["", "Z", "-", "T", "now", "24:00:00", "2008-01-01", "--12", "---12", "2008", "2008-12"]
        if dt in ("xsd:gDay", "xsd:gMonth", "xsd:gMonthDay"):
            out += ["---%02d%s" % (d, z) for d in range(0, 33) for z in ("", "Z", "-05:00")] + ["--%02d%s" % (d, z) for d in range(0, 14) for z in ("", "Z", "+14:00")] + \
                   ["--%02d-%02d" % (m, d) for m in range(0, 14) for d in (0, 1, 28, 29, 30, 31, 32)]
    return sorted(set(out))


TYPES = NUMERIC + ["xsd:boolean", "xsd:hexBinary", "xsd:base64Binary", "xsd:language", "xsd:Name", "xsd:NCName", "xsd:NMTOKEN", "xsd:token",
                   "xsd:normalizedString", "xsd:string", "rdf:PlainLiteral", "xsd:date", "xsd:time", "xsd:dateTime", "xsd:dateTimeStamp",
                   "xsd:gYear", "xsd:gYearMonth", "xsd:gMonthDay", "xsd:gDay", "xsd:gMonth"]


def c08(chk):
    batches = []
    for dt in TYPES:
        ss = strings(dt, chk.rng(dt), chk)
        for i in range(0, len(ss), 400):
            batches.append((dt, ss[i:i + 400]))
    res = pmap(convert, batches, cpu=60)
    todo = []
    for i, ((dt, ss), (st, v)) in enumerate(zip(batches, res)):
        if st != "ok":
            chk.violation("conversion of %s failed: %s %s" % (dt, st, v), {"dt": dt, "strings": ss[:5]})
        else:
            todo.append({"id": str(i), "dt": dt, "recs": v})
    verdicts = judge_tlc(chk, todo, "LexTrace", "VERDICT", 800)
    total = acc = 0
    for c in todo:
        dt, ss = batches[int(c["id"])]
        v = verdicts[c["id"]]
        total += len(ss)
        acc += v["accept"]
        for k in v["bad"]:
            r, w = c["recs"][k - 1], (v["what"][str(k)] if isinstance(v["what"], dict) else v["what"][v["bad"].index(k)])
            chk.violation("%s(%r): the implementation gives %s %s, the specification %s %s" % (
                dt, ss[k - 1], r["out"], json.dumps(r["val"]), "value" if w["ok"] else "reject", json.dumps(w["val"])),
                {"dt": dt, "string": ss[k - 1], "impl": r, "spec": w}, key=None)
    chk.cov["traces_validated_against_impl"] = total
    chk.cov["strings_in_lexical_space"] = acc
    chk.cov["datatypes"] = len(TYPES)
    chk.sample({"datatype": "xsd:dateTime", "strings": strings("xsd:dateTime", chk.rng("xsd:dateTime"), chk)[1000:1006]})
    chk.model("MCLexical")
    chk.assumptions = ["years outside 0001..9999, fractions of more than 6 digits, floating point values outside the documented ranges and letters other than ASCII and Latin-1 in names are accepted either way"]
