"""Plans: plain data values that describe one generated case completely.

Every strategy yields a plan, every check is a function of a plan.  A plan is made of
None/bool/int/float/str/bytes/list/tuple/dict and is saved as tagged JSON, so a shrunk
failure is replayed without hypothesis.
"""
import base64
import hashlib
import json
import math


def _enc(v):
    if v is None or isinstance(v, (bool, str)):
        return v
    if isinstance(v, int):
        return v
    if isinstance(v, float):
        if math.isnan(v):
            return {"$f": "nan"}
        return {"$f": repr(v)}
    if isinstance(v, (bytes, bytearray)):
        return {"$b": base64.b64encode(bytes(v)).decode()}
    if isinstance(v, tuple):
        return {"$t": [_enc(x) for x in v]}
    if isinstance(v, list):
        return [_enc(x) for x in v]
    if isinstance(v, dict):
        return {"$d": [[_enc(k), _enc(x)] for k, x in v.items()]}
    raise TypeError("not plan data: %r" % (v,))


def _dec(v):
    if isinstance(v, list):
        return [_dec(x) for x in v]
    if isinstance(v, dict):
        (k, x), = v.items()
        if k == "$f":
            return float(x)
        if k == "$b":
            return base64.b64decode(x)
        if k == "$t":
            return tuple(_dec(y) for y in x)
        if k == "$d":
            return {_dec(a): _dec(b) for a, b in x}
        raise ValueError(k)
    return v


def dumps(p, **kw):
    return json.dumps(_enc(p), **kw)


def loads(s):
    return _dec(json.loads(s))


def digest(p):
    return hashlib.sha1(dumps(p).encode("utf-8", "surrogatepass")).hexdigest()


def brief(p, limit=1500):
    s = dumps(p, ensure_ascii=True)
    return s if len(s) <= limit else s[:limit] + "...(%d chars)" % len(s)
