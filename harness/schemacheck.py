"""An evaluator of the published schemas (JSON Schema draft 4) written independently of jsonschema and of
mappyfile's validator.  errors() returns the path of every violation, as the drafts' error paths."""
import re
import vocab

ROOTS = vocab.BLOCKS + ["symbolset", "metadata", "validation", "connectionoptions"]


def lower(v):
    if isinstance(v, dict):
        return {k.lower(): lower(v[k]) for k in v}
    if isinstance(v, (list, tuple)):
        return [lower(x) for x in v]
    if isinstance(v, str):
        return v.lower()
    return v


def isnum(v):
    return not isinstance(v, bool) and isinstance(v, (int, float))


def istype(v, t):
    if t == "object":
        return isinstance(v, dict)
    if t == "array":
        return isinstance(v, (list, tuple))
    if t == "string":
        return isinstance(v, str)
    if t == "boolean":
        return isinstance(v, bool)
    if t == "integer":
        return not isinstance(v, bool) and isinstance(v, int)
    if t == "number":
        return isnum(v)
    if t == "null":
        return v is None
    raise ValueError(t)


def equal(a, b):
    if isinstance(b, str):
        return isinstance(a, str) and a == b
    if isinstance(b, bool):
        return isinstance(a, bool) and a == b
    if isnum(b):
        return isnum(a) and a == b
    raise ValueError(b)


def available(s, ver):
    """an annotated keyword, object or alternative, at a version"""
    if ver is None:
        return True
    for q in (s, vocab.schema(s["$ref"].replace(".json", "")) if "$ref" in s else {}):
        m = q.get("metadata")
        # "metadata" is also the name of a keyword, but only below "properties"
        if m is not None:
            if "minVersion" in m and ver < m["minVersion"]:
                return False
            if "maxVersion" in m and ver > m["maxVersion"]:
                return False
    return True


def errors(s, v, ver=None):
    """paths (tuples) of the violations of schema s by the lower-cased value v; draft 4"""
    if "$ref" in s:
        return errors(vocab.schema(s["$ref"].replace(".json", "")), v, ver)
    out = []
    if "type" in s and not istype(v, s["type"]):
        out.append(())
    if "enum" in s:
        hit = False
        for e in s["enum"]:
            if equal(v, e):
                hit = True
        if not hit:
            out.append(())
    if isinstance(v, str):
        if "pattern" in s and not re.search(s["pattern"], v):
            out.append(())
        if "minLength" in s and len(v) < s["minLength"]:
            out.append(())
        if "maxLength" in s and len(v) > s["maxLength"]:
            out.append(())
    if isnum(v):
        if "minimum" in s:
            if v < s["minimum"] or (s.get("exclusiveMinimum") and v == s["minimum"]):
                out.append(())
        if "maximum" in s and v > s["maximum"]:
            out.append(())
    if isinstance(v, (list, tuple)):
        if "minItems" in s and len(v) < s["minItems"]:
            out.append(())
        if "maxItems" in s and len(v) > s["maxItems"]:
            out.append(())
        it = s.get("items")
        for i, x in enumerate(v):
            q = it[i] if isinstance(it, list) and i < len(it) else it if isinstance(it, dict) else None
            if q is None:
                continue
            if not available(q, ver):
                out.append((i,))
            else:
                out += [(i,) + p for p in errors(q, x, ver)]
    if isinstance(v, dict):
        props = s.get("properties", {})
        extra = False
        for k in v:
            hidden = len(k) > 4 and k.startswith("__") and k.endswith("__")
            known = False
            for n in props:
                if k == n:
                    known = True
                    if not available(props[n], ver):
                        known = False
                    else:
                        out += [(n,) + p for p in errors(props[n], v[k], ver)]
            if not known and not hidden and s.get("additionalProperties", True) is False:
                extra = True
        miss = [r for r in s.get("required", []) if r not in v]
        if extra or miss:
            out.append(())
    for q in s.get("allOf", []):
        out += errors(q, v, ver)
    if "oneOf" in s:
        n = len([q for q in s["oneOf"] if available(q, ver) and not errors(q, v, ver)])
        if n != 1:
            out.append(())
    if "anyOf" in s:
        n = len([q for q in s["anyOf"] if available(q, ver) and not errors(q, v, ver)])
        if n == 0:
            out.append(())
    return out


def item(d, path):
    for p in path:
        d = d[p]
    return d


def target(d, path):
    """(path of the object or keyword an error path belongs to, whether it is an object)"""
    path = tuple(path)
    while path and isinstance(path[-1], int) and not isinstance(item(d, path), dict):
        path = path[:-1]
    return path


def named(d, path):
    """the name a message about this error has to hold"""
    path = target(d, path)
    x = item(d, path)
    if isinstance(x, dict) and "__type__" in x and (not path or isinstance(path[-1], int)):
        return x["__type__"]
    for p in reversed(path):
        if isinstance(p, str):
            return p
    return "map"


def expected(d, ver=None, schema=None):
    """the distinct targets of the violations of a root dictionary: [(path, name)]"""
    low = lower(d)
    if schema is None:
        schema = low.get("__type__", "map")
    s = vocab.schema(schema)
    if not available(s, ver):
        return None
    out = []
    for p in errors(s, low, ver):
        t = target(low, p)
        if t not in [x[0] for x in out]:
            out.append((t, named(low, p)))
    return out
