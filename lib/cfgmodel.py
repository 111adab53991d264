"""Reference model of configuration trees: plain dictionaries with per-node flags."""
import ast

from mc import Mismatch


class N:
    """A configuration node: named leaves and sub-nodes, frozen flag, new-keys-allowed flag."""

    def __init__(self, items, frozen=False, new_allowed=False):
        self.items = items
        self.frozen = frozen
        self.new_allowed = new_allowed
        self.deprecated = set()
        self.renamed = {}

    def copy(self):
        n = N({k: (v.copy() if isinstance(v, N) else leafcopy(v)) for k, v in self.items.items()}, self.frozen, self.new_allowed)
        n.deprecated, n.renamed = set(self.deprecated), dict(self.renamed)
        return n

    def freeze(self, flag):
        self.frozen = flag
        for v in self.items.values():
            if isinstance(v, N):
                v.freeze(flag)

    def at(self, path):
        n = self
        for k in path:
            n = n.items[k]
        return n

    def has(self, path):
        n = self
        for k in path:
            if not isinstance(n, N) or k not in n.items:
                return False
            n = n.items[k]
        return True


def leafcopy(v):
    return [leafcopy(x) for x in v] if type(v) is list else v


def from_dict(d):
    return N({k: from_dict(v) if isinstance(v, dict) else leafcopy(v) for k, v in d.items()})


def identical(a, b):
    """Equal with equal types all the way down (1, 1.0 and True differ; NaN equals NaN)."""
    if type(a) is not type(b):
        return False
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(identical(x, y) for x, y in zip(a, b))
    if isinstance(a, float):
        return repr(a) == repr(b)
    return a == b


def compare(cfg, n, path="", flags=True):
    """The real node cfg is exactly the model node n."""
    from gradslam.config import CfgNode
    if not isinstance(cfg, CfgNode):
        raise Mismatch("%s is a %s, expected a configuration node" % (path or "root", type(cfg).__name__))
    if set(cfg) != set(n.items) or len(cfg) != len(n.items):
        raise Mismatch("%s has keys %s, expected %s" % (path or "root", sorted(cfg), sorted(n.items)))
    if flags:
        if bool(cfg.is_frozen()) != n.frozen:
            raise Mismatch("%s frozen: %s, expected %s" % (path or "root", cfg.is_frozen(), n.frozen))
        if bool(cfg.is_new_allowed()) != n.new_allowed:
            raise Mismatch("%s allows new keys: %s, expected %s" % (path or "root", cfg.is_new_allowed(), n.new_allowed))
    for k, want in n.items.items():
        got = cfg[k]
        if isinstance(want, N):
            compare(got, want, path + "." + k if path else k, flags)
        elif not identical(got, want):
            raise Mismatch("%s is %r, expected %r" % (path + "." + k if path else k, got, want))
        if k.isidentifier() and not hasattr(dict, k) and getattr(cfg, k) is not got:
            raise Mismatch("attribute %s differs from the stored value" % k)
    for k in ("absent", "ABSENT"):
        if k not in n.items and (hasattr(cfg, k) or k in cfg):
            raise Mismatch("%s has an attribute %s although it has no such key" % (path or "root", k))


def decode(v):
    """What a value denotes: text that is a Python literal is that literal, other text is itself."""
    if not isinstance(v, str):
        return v
    try:
        return ast.literal_eval(v)
    except (ValueError, SyntaxError, TypeError, MemoryError, RecursionError):
        return v


def coerce(new, old):
    """(ok, value): what replacing old by new stores."""
    if type(new) is type(old):
        return True, new
    if type(new) is list and type(old) is tuple:
        return True, tuple(new)
    if type(new) is tuple and type(old) is list:
        return True, list(new)
    return False, None


UNKNOWN = (KeyError, AssertionError)
BADTYPE = (ValueError, TypeError, AssertionError)


class Rejected(Exception):
    def __init__(self, excs):
        self.excs = excs


def plan_tree(src, dst, root, path, out):
    """Assignments (path, value) merging the tree src (nested dict) into model node dst makes; raises Rejected."""
    err = None
    for k, v in src.items():
        full = ".".join(path + (k,))
        if full in root.deprecated:
            continue
        if full in root.renamed:
            err = err or Rejected((KeyError,))
            continue
        if isinstance(v, dict):
            if k not in dst.items:
                if not dst.new_allowed:
                    err = err or Rejected(UNKNOWN)
                else:
                    out.append((path + (k,), from_dict(decode_tree(v, path + (k,), root))))
            elif not isinstance(dst.items[k], N):
                err = err or Rejected(BADTYPE)
            else:
                try:
                    plan_tree(v, dst.items[k], root, path + (k,), out)
                except Rejected as e:
                    err = err or e
            continue
        new = decode(v)
        if k in dst.items:
            if isinstance(dst.items[k], N):
                err = err or Rejected(BADTYPE)
                continue
            ok, val = coerce(new, dst.items[k])
            if not ok:
                err = err or Rejected(BADTYPE)
                continue
            out.append((path + (k,), val))
        elif dst.new_allowed:
            out.append((path + (k,), new))
        else:
            err = err or Rejected(UNKNOWN)
    if err:
        raise err


def decode_tree(v, path, root):
    return v


def plan_list(pairs, root, out):
    err = None
    for full, v in pairs:
        if full in root.deprecated:
            continue
        if full in root.renamed:
            err = err or Rejected((KeyError,))
            continue
        path = tuple(full.split("."))
        if not root.has(path):
            err = err or Rejected(UNKNOWN + (TypeError, ValueError))
            continue
        old = root.at(path)
        ok, val = (False, None) if isinstance(old, N) else coerce(decode(v), old)
        if not ok:
            err = err or Rejected(BADTYPE)
            continue
        out.append((path, val))
    if err:
        raise err
