"""Reference models, written from the properties' text; they share no code with variantlib.

Properties are plain (namespace, feature, value) tuples, descriptions are tuples of
those, documents are JSON-like dictionaries.
"""
from __future__ import annotations

import hashlib
import re

INF = float("inf")

NAME_CH = set("abcdefghijklmnopqrstuvwxyz0123456789_")
VALUE_CH = NAME_CH | {"."}
WS_STRIP = None  # str.strip()


def is_name(s):
    return type(s) is str and s != "" and all(c in NAME_CH for c in s)


def is_value(s):
    return type(s) is str and s != "" and all(c in VALUE_CH for c in s)


def is_label(s):
    return is_value(s) and len(s) <= 16


def vhash(props):
    lines = sorted(f"{n} :: {f} :: {v}\n" for n, f, v in set(props))
    return hashlib.sha256("".join(lines).encode()).hexdigest()[:8]


def default_label(props):
    return vhash(props) if props else "null"


# ---------------------------------------------------------------- text form
def parse_text(s, parts):
    """Components of the text form, or None. Whitespace as in str.isspace()."""
    if type(s) is not str:
        return None
    s = s.strip()
    comps = s.split("::")
    if len(comps) != parts:
        return None
    comps = [c.strip() for c in comps]
    for c in comps[:2]:
        if not is_name(c):
            return None
    if parts == 3 and not is_value(comps[2]):
        return None
    return tuple(comps)


def to_nested(props):
    out = {}
    for n, f, v in sorted(set(props)):
        out.setdefault(n, {}).setdefault(f, []).append(v)
    return out


def from_nested(d):
    return tuple(sorted((n, f, v) for n, fs in d.items() for f, vs in fs.items() for v in vs))


# ---------------------------------------------------------------- aggregation
def union(*lists):
    out = []
    for lst in lists:
        for x in lst or ():
            if x not in out:
                out.append(x)
    return out


def union_dict(*dicts):
    keys = union(*[list(d) for d in dicts if d is not None])
    return {k: union(*[d.get(k, []) for d in dicts if d is not None]) for k in keys}


def union_dict2(*dicts):
    keys = union(*[list(d) for d in dicts if d is not None])
    return {k: union_dict(*[d.get(k, {}) for d in dicts if d is not None]) for k in keys}


# ---------------------------------------------------------------- filtering
def keep(props, supported, forb_ns=(), forb_feat=(), forb_prop=()):
    if any(n in forb_ns or (n, f) in forb_feat for n, f, _ in props):
        return False
    for n, f in {(n, f) for n, f, _ in props}:
        if not any(p in supported and p not in forb_prop for p in props if p[:2] == (n, f)):
            return False
    return True


# ---------------------------------------------------------------- ranking
def _idx(seq, x):
    return seq.index(x) if x in seq else INF


def order_properties(supported, ns_prios, feat_prios=None, prop_prios=None):
    """The supported properties (first occurrences), most preferred first."""
    feat_prios, prop_prios = feat_prios or {}, prop_prios or {}
    feats, vals = [], {}
    for n, f, v in supported:
        if (n, f) not in feats:
            feats.append((n, f))
        vs = vals.setdefault((n, f), [])
        if v not in vs:
            vs.append(v)
    feats.sort(key=lambda nf: (_idx(ns_prios, nf[0]), _idx(feat_prios.get(nf[0], []), nf[1])))
    out = []
    for n, f in feats:
        prio = prop_prios.get(n, {}).get(f, [])
        for v in sorted(vals[(n, f)], key=lambda v: _idx(prio, v)):
            out.append((n, f, v))
    return out


def rank(props, ordered):
    feats, vals = [], {}
    for n, f, v in ordered:
        if (n, f) not in feats:
            feats.append((n, f))
        vals.setdefault((n, f), []).append(v)
    return tuple(min([_idx(vals[nf], v) for n, f, v in props if (n, f) == nf] or [INF])
                 for nf in feats)


def select(variants, supported, ns_prios, feat_prios=None, prop_prios=None):
    """Descriptions in order (stable for ties); null added last if missing."""
    vs = []
    for v in list(variants) + [()]:
        v = tuple(sorted(v))
        if v not in vs:
            vs.append(v)
    sup = set(supported)
    vs = [v for v in vs if keep(v, sup)]
    ordered = order_properties(supported, ns_prios, feat_prios, prop_prios)
    return sorted(vs, key=lambda v: rank(v, ordered))


# ---------------------------------------------------------------- documents
class Bad(Exception):
    pass


class Unknown(Exception):
    """Outside of what the specification settles."""


def _str_list(v, ok, where):
    if not isinstance(v, list) or any(type(x) is not str for x in v):
        raise Bad(f"{where}: not a list of strings")
    for x in v:
        if not ok(x):
            raise Bad(f"{where}: {x!r}")
    return list(v)


def _keys(d, allowed, where):
    if not isinstance(d, dict) or any(type(k) is not str for k in d):
        raise Bad(f"{where}: not a table")
    if set(d) - set(allowed):
        raise Bad(f"{where}: unknown keys")


def _free_text(s):
    return s != "" and all(c == " " or not c.isspace() for c in s)


_API = re.compile(r"[\w.]+(\s*:\s*[\w.]+)?\Z")


def _two_level(d, where):
    if not isinstance(d, dict):
        raise Bad(where)
    out = {}
    for n, fs in d.items():
        if not is_name(n):
            raise Bad(f"{where}.{n}")
        if not isinstance(fs, dict):
            raise Bad(f"{where}.{n}")
        for f, vs in fs.items():
            if not is_name(f):
                raise Bad(f"{where}.{n}.{f}")
            out.setdefault(n, {})[f] = _str_list(vs, is_value, f"{where}.{n}.{f}")
        if not fs:
            out.setdefault(n, None)
    return out


def read_document(doc, kind, expected_label=None):
    """kind: index / wheel / pyproject. Returns the parsed content or raises Bad/Unknown."""
    if not isinstance(doc, dict):
        raise Bad("not a table")
    unknown = None
    allowed = {"default-priorities", "providers", "static-properties"}
    if kind != "pyproject":
        allowed |= {"variants", "$schema"}
    if set(doc) - allowed:
        unknown = "unknown top-level keys"
    prio = doc.get("default-priorities", {})
    _keys(prio, ("namespace", "feature", "property"), "default-priorities")
    ns_prios = _str_list(prio.get("namespace", []), is_name, "namespace")
    fp = prio.get("feature", {})
    if not isinstance(fp, dict):
        raise Bad("feature")
    feat = {}
    for n, lst in fp.items():
        if not is_name(n):
            raise Bad("feature key")
        feat[n] = _str_list(lst, is_name, f"feature.{n}")
    prop = _two_level(prio.get("property", {}), "property")
    prop = {n: fs for n, fs in prop.items() if fs is not None}
    provs = doc.get("providers", {})
    if not isinstance(provs, dict):
        raise Bad("providers")
    providers = {}
    for n, p in provs.items():
        if not is_name(n):
            raise Bad(f"provider name {n!r}")
        _keys(p, ("requires", "optional", "plugin-api", "enable-if", "install-time"),
              f"providers.{n}")
        req = _str_list(p.get("requires", []), _free_text, "requires")
        for k in ("optional", "install-time"):
            if k in p and type(p[k]) is not bool:
                raise Bad(k)
        for k in ("plugin-api", "enable-if"):
            if k in p and p[k] is None:
                unknown = unknown or "null string"
            elif k in p and type(p[k]) is not str:
                raise Bad(k)
        api, enable = p.get("plugin-api"), p.get("enable-if")
        if api is not None and not _API.match(api):
            raise Bad("plugin-api")
        if enable is not None and not _free_text(enable):
            raise Bad("enable-if")
        inst = p.get("install-time", True)
        if inst and not req:
            raise Bad("requires needed")
        providers[n] = (tuple(req), p.get("optional", False), api, enable, inst)
    static = _two_level(doc.get("static-properties", {}), "static-properties")
    if any(fs is None for fs in static.values()):
        unknown = unknown or "empty static namespace"
        static = {n: fs for n, fs in static.items() if fs is not None}
    for n, fs in static.items():
        if len(fs) > 1 and set(fs) - set(feat.get(n, [])):
            raise Bad("feature priorities incomplete")
    if set(ns_prios) != set(providers):
        raise Bad("namespace priorities != providers")
    want = {n for n, p in providers.items()
            if not p[4] and (kind != "pyproject" or not p[0])}
    if set(static) != want:
        if unknown == "empty static namespace":
            raise Unknown(unknown)
        raise Bad("static namespaces")
    out = {"namespace_priorities": ns_prios, "feature_priorities": feat,
           "property_priorities": prop, "providers": providers, "static_properties": static}
    if kind != "pyproject":
        if "variants" not in doc:
            raise Bad("variants missing")
        vs = doc["variants"]
        if not isinstance(vs, dict):
            raise Bad("variants")
        variants = {}
        for label, d in vs.items():
            if not is_label(label):
                raise Bad("label")
            if isinstance(d, dict):
                # Names without any value below them are not settled.
                d2 = {n: fs if not isinstance(fs, dict) else
                      {f: v for f, v in fs.items() if v != [] or type(v) is not list}
                      for n, fs in d.items()}
                d2 = {n: fs for n, fs in d2.items() if fs != {} or type(fs) is not dict}
                if d2 != d:
                    unknown = unknown or "names without values"
                d = d2
            t = _two_level(d, f"variants.{label}")
            if any(fs is None or any(not v for v in fs.values()) for fs in t.values()):
                unknown = unknown or "empty namespace or feature in variant"
                t = {n: fs for n, fs in t.items() if fs}
            props = [(n, f, v) for n, fs in t.items() for f, vals in fs.items() for v in vals]
            if len(set(props)) != len(props):
                raise Bad("duplicate property")
            if (not props) != (label == "null"):
                raise Bad("null label")
            variants[label] = tuple(sorted(props))
        out["variants"] = variants
        if kind == "wheel":
            if len(variants) != 1:
                raise Bad("exactly one variant")
            if expected_label is not None and expected_label not in variants:
                raise Bad("label mismatch")
    if unknown:
        raise Unknown(unknown)
    return out


def write_document(parsed):
    """A JSON document for parsed content (inverse of read_document)."""
    prio = {"namespace": list(parsed["namespace_priorities"])}
    if parsed["feature_priorities"]:
        prio["feature"] = parsed["feature_priorities"]
    if parsed["property_priorities"]:
        prio["property"] = parsed["property_priorities"]
    provs = {}
    for n, (req, opt, api, enable, inst) in parsed["providers"].items():
        p = provs[n] = {}
        if req:
            p["requires"] = list(req)
        if opt:
            p["optional"] = True
        if api is not None:
            p["plugin-api"] = api
        if enable is not None:
            p["enable-if"] = enable
        if not inst:
            p["install-time"] = False
    doc = {"default-priorities": prio, "providers": provs}
    if parsed["static_properties"]:
        doc["static-properties"] = parsed["static_properties"]
    if "variants" in parsed:
        doc["variants"] = {lab: to_nested(v) for lab, v in parsed["variants"].items()}
    return doc


# ---------------------------------------------------------------- wheel names
def split_wheel_name(name):
    """dict of components, None (not a wheel name) or Unknown."""
    if not name.endswith(".whl"):
        return None
    parts = name[:-4].split("-")
    if any(p == "" for p in parts) or any(c.isspace() for c in name):
        raise Unknown("empty component or whitespace")
    build = label = None
    if len(parts) in (6, 7) and parts[2][0] in "0123456789":
        build = parts.pop(2)
    if len(parts) == 6:
        label = parts.pop()
        if not is_label(label):
            return None
    if len(parts) != 5:
        return None
    n, v, py, abi, plat = parts
    return {"name": n, "ver": v, "build": build, "pyver": py, "abi": abi, "plat": plat,
            "variant_label": label}
