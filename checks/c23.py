"""C23: configuration freezing and merging never corrupt a configuration."""
import copy
import logging
import os
import shutil
import tempfile

import numpy as np

import sweepcheck
from cfgmodel import N, Rejected, compare, from_dict, identical, leafcopy, plan_list, plan_tree
from mc import Machine, Mismatch, expect


logging.disable(logging.CRITICAL)


def node(*a, **k):
    from gradslam.config import CfgNode
    return CfgNode(*a, **k)


BASE = {"A": 1, "S": "s", "T": (1, 2), "L": [1, [2, "x"]], "N": {"F": 0.5, "M": {"B": True}}}
KNODE = {"z": 0}


class Real:
    """The configuration under test, clones left behind, and (not part of the state) the model mirroring it."""

    def __init__(self, cfg):
        self.cfg = cfg
        self.left = []


class Model:
    def __init__(self, root):
        self.root = root
        self.left = []
        self.pending = []


def walk(cfg, path):
    for k in path:
        cfg = getattr(cfg, k)
    return cfg


SET = [
    ("A", 2), ("A", "text"), ("T", ()), ("L", [3]), ("Z", 7), ("N.F", 1.5), ("N.F", -0.0), ("N.M.B", False), ("N.M.C", "new"), ("K.z", 3), ("K.y", [1]), ("E.x", 1),
]
BADSET = [("A", None), ("N.F", {"a": 1}), ("N.M.B", {1}), ("A", np.float32(1)), ("Z", b"x")]
FREEZE = ["", "N", "N.M", "K", "E"]

LISTS = {
    "A S": [("A", 5), ("S", "word")],
    "text": [("A", "6"), ("N.F", "1e3"), ("N.M.B", "False"), ("T", "[4, 'x']"), ("S", "'q'")],
    "tuple": [("T", [9, 8]), ("L", (7, (6,)))],
    "N.M.B": [("N.M.B", False)],
    "N.F": [("N.F", 2.5)],
    "again": [("A", 10), ("A", 11)],
    "K.z": [("K.z", 4)],
    "K.y": [("K.y", 4)],
    "unknown": [("A", 20), ("X", 1)],
    "unknown deep": [("N.F", 9.0), ("N.M.X", True)],
    "unknown middle": [("Q.F", 1.0), ("A", 21)],
    "unknown inner": [("N.Q.F", 1.0), ("A", 21)],
    "E.x": [("E.x", 4)],
    "int for float": [("A", 22), ("N.F", 3)],
    "bool for int": [("A", True)],
    "node": [("N", 1)],
    "text for int": [("S", "first"), ("A", "word")],
    "number text for str": [("S", "12")],
    "through leaf": [("A.b", 1)],
    "empty": [],
}
TREES = {
    "A S": {"A": 30, "S": "tree"},
    "nested": {"N": {"F": 4.5, "M": {"B": False}}},
    "list": {"L": [5, [6]], "T": [3, [4]]},
    "text": {"A": "31", "S": "a/b", "T": "(8,)"},
    "K.z": {"K": {"z": 32}},
    "K.y": {"K": {"y": {"w": [1, 2]}, "x": [[3]], "t": "(1, 2)"}},
    "K.y deep": {"K": {"y": {"w": [9]}}},
    "new": {"A": 33, "P": {"Q": [1]}},
    "unknown": {"A": 34, "X": 1},
    "unknown nested": {"S": "half", "N": {"F": 5.5, "M": {"X": 1}}},
    "mismatch": {"A": 35, "N": {"F": 1}},
    "leaf for node": {"N": 1, "S": "kept"},
    "node for leaf": {"A": {"b": 1}, "S": "kept"},
    "E.x": {"E": {"x": {"y": 2}, "w": "3"}},
    "empty": {},
    "empty nodes": {"N": {"M": {}}, "E": {}},
}
SUB = {
    "N": [("tree", {"F": 6.5}), ("tree", {"M": {"B": False}, "F": 7.5}), ("tree", {"X": 1}), ("list", [("M.B", "False"), ("F", "8.5")]), ("list", [("N.F", 1.0)])],
    "K": [("tree", {"z": 40, "v": 1}), ("list", [("z", 41)])],
}
DEPRECATED = ["A", "N.F", "N.M", "OLD", "N.OLD", "K.y"]
RENAMED = ["A", "S", "N.F", "OLD", "K.y"]
REGISTERED = {
    "list": [("OLD", 1), ("A", 50), ("N.OLD", 2)],
    "tree": {"OLD": 1, "A": 51, "N": {"F": 9.5, "OLD": {"x": 1}}},
    "tree2": {"K": {"y": [1]}, "S": "tree2"},
}


def touched(root, kind, src, path=()):
    """The nodes a merge would write to."""
    if kind == "list":
        return [root.at(p) for p in ([()] + [tuple(k.split(".")[:i]) for k, _ in src for i in range(k.count(".") + 1)]) if root.has(p) and isinstance(root.at(p), N)]
    out = [root]
    for k, v in src.items():
        if isinstance(v, dict) and isinstance(root.items.get(k), N):
            out += touched(root.items[k], kind, v)
    return out


class ConfigMachine(Machine):
    def __init__(self, name, new_allowed=False, registered=(), reduced=False):
        self.name = name
        self.new_allowed = new_allowed
        self.registered = registered
        self.ops = {}
        for k, v in SET:
            self.op_set(k, v)
        for k, v in BADSET:
            self.op_badset(k, v)
        self.op_internal()
        for p in FREEZE:
            self.op_freeze(p, True)
            self.op_freeze(p, False)
        for k, src in LISTS.items():
            self.op_merge("list", k, src)
        for k, src in TREES.items():
            self.op_merge("other", k, src)
        for k, src in TREES.items():
            if k in ("A S", "nested", "list", "text", "K.y", "unknown nested", "mismatch"):
                self.op_merge("yaml", k, src)
            if k in ("A S", "nested", "list", "K.y", "unknown nested", "leaf for node"):
                self.op_merge("py", k, src)
        for kind in ("other", "yaml"):
            self.op_merge(kind, "registered", REGISTERED["tree"])
            self.op_merge(kind, "registered2", REGISTERED["tree2"])
        self.op_merge("list", "registered", REGISTERED["list"])
        self.op_merge("frozen other", "nested", TREES["nested"])
        for p, srcs in SUB.items():
            for i, (kind, src) in enumerate(srcs):
                self.op_merge("list" if kind == "list" else "other", "%s#%d" % (p, i), src, p)
        for k in DEPRECATED:
            self.op_register(k, "deprecated")
        for k in RENAMED:
            self.op_register(k, "renamed")
        self.op_misc()
        if reduced:
            keep = ("set(A=2)", "set(Z=7)", "set(N.F=1.5)", "set(N.M.C='new')", "set(K.y=[1])", "set(A=None)", "freeze", "defrost", "merge(list,A S)", "merge(list,text)", "merge(list,N.F)",
                    "merge(list,unknown deep)", "merge(list,registered)", "merge(other,nested)", "merge(other,list)", "merge(other,K.y)", "merge(other,unknown nested)", "merge(other,registered",
                    "merge(yaml,nested)", "merge(py,list)", "merge(other,N#0", "deprecated(A)", "deprecated(N.F)", "deprecated(K.y)", "renamed(OLD)", "clone", "merge(other,mismatch)", "merge(list,K.y)")
            self.ops = {k: v for k, v in self.ops.items() if k.startswith(keep)}

    def build(self):
        s = Real(node(copy.deepcopy(BASE), new_allowed=self.new_allowed))
        s.cfg.K = node(dict(KNODE), new_allowed=True)
        s.cfg.E = node(new_allowed=True)
        root = from_dict(BASE)
        root.new_allowed = self.new_allowed
        root.items["K"] = from_dict(KNODE)
        root.items["K"].new_allowed = True
        root.items["E"] = from_dict({})
        root.items["E"].new_allowed = True
        m = Model(root)
        for kind, k in self.registered:
            if kind == "deprecated":
                s.cfg.register_deprecated_key(k)
                root.deprecated.add(k)
            else:
                s.cfg.register_renamed_key(k, "NEW", "note")
                root.renamed[k] = 1
        self.cur = (s, m)
        return s, m

    def observe(self, s, m):
        compare(s.cfg, m.root)
        for c, n in zip(s.left, m.left):
            try:
                compare(c, n)
            except Mismatch as e:
                raise Mismatch("clone left behind changed: %s" % e)
        for k in DEPRECATED:
            expect(bool(s.cfg.key_is_deprecated(k)) == (k in m.root.deprecated), "key_is_deprecated(%s) wrong" % k)
        for k in RENAMED:
            expect(bool(s.cfg.key_is_renamed(k)) == (k in m.root.renamed), "key_is_renamed(%s) wrong" % k)

    def model_key(self, m):
        return 0  # the model is a function of the observed real state, which is in the key entirely

    # -------------------------------------------------- operations
    def op_set(self, key, value):
        path = tuple(key.split("."))

        def model(m, a):
            n = m.root.at(path[:-1])
            if n.frozen:
                return "raise", (AttributeError,)
            n.items[path[-1]] = leafcopy(value)
            return "ok", None
        self.add("set(%s=%r)" % (key, value), model, lambda s, a: setattr(walk(s.cfg, path[:-1]), path[-1], copy.deepcopy(value)))

    def op_badset(self, key, value):
        path = tuple(key.split("."))

        def model(m, a):
            return "raise", (AttributeError,) if m.root.at(path[:-1]).frozen else (AssertionError, TypeError, ValueError)
        self.add("set(%s=%r)" % (key, value), model, lambda s, a: setattr(walk(s.cfg, path[:-1]), path[-1], value))

    def op_internal(self):
        for name in ("__immutable__", "__new_allowed__"):
            self.add("set(%s)" % name, lambda m, a: ("raise", (AttributeError, AssertionError)),
                     lambda s, a, name=name: setattr(s.cfg, name, True))

    def op_freeze(self, key, flag):
        path = tuple(key.split(".")) if key else ()

        def model(m, a):
            m.root.at(path).freeze(flag)
            return "ok", None
        self.add("%s(%s)" % ("freeze" if flag else "defrost", key), model,
                 lambda s, a: getattr(walk(s.cfg, path), "freeze" if flag else "defrost")())

    def op_merge(self, how, label, src, at=""):
        path = tuple(at.split(".")) if at else ()
        kind = "list" if how == "list" else "tree"

        def enabled(m):
            if not m.root.has(path):
                return False
            n = m.root.at(path)
            if any(t.frozen for t in touched(n, kind, src)):
                return False
            if path:
                pre = at + "."
                if any(k.startswith(pre) for k in set(m.root.deprecated) | set(m.root.renamed)):
                    return False
            if kind == "list":  # naming a node below a registered one is not described
                if any(k.startswith(d + ".") for k, _ in src for d in set(m.root.deprecated) | set(m.root.renamed)):
                    return False
            return True

        def model(m, a):
            n = m.root.at(path)
            out = []
            try:
                (plan_list if kind == "list" else plan_tree)(*((src, n, out) if kind == "list" else (src, n, n, (), out)))
            except Rejected as e:
                m.pending = [(path + p, v) for p, v in out]
                return "raise", e.excs
            for p, v in out:
                m.root.at(path + p[:-1]).items[p[-1]] = v.copy() if isinstance(v, N) else leafcopy(v)
            return "ok", None

        def impl(s, a):
            _, m = self.cur
            try:
                self.merge(how, walk(s.cfg, path), src)
            except Mismatch:
                raise
            except Exception:
                self.adopt(s, m)
                raise
        self.add("merge(%s,%s)" % (how, label), model, impl, enabled=enabled)

    def merge(self, how, cfg, src):
        if how == "list":
            flat = [x for p in copy.deepcopy(src) for x in p]
            keep = copy.deepcopy(flat)
            try:
                cfg.merge_from_list(flat)
            finally:
                expect(identical(flat, keep), "the list merged from changed: %r" % (flat,))
            return
        if how in ("yaml", "py"):
            d = tempfile.mkdtemp(prefix="c23-")
            try:
                p = os.path.join(d, "c." + how)
                with open(p, "w") as f:
                    if how == "yaml":
                        f.write(yaml_of(src))
                    else:
                        f.write("cfg = %r\n" % (src,))
                body = open(p).read()
                try:
                    cfg.merge_from_file(p)
                finally:
                    expect(open(p).read() == body, "the file merged from changed")
            finally:
                shutil.rmtree(d)
            return
        other = node(copy.deepcopy(src))
        if how == "frozen other":
            other.freeze()
        want = from_dict(src)
        if how == "frozen other":
            want.freeze(True)
        try:
            cfg.merge_from_other_cfg(other)
        finally:
            try:
                compare(other, want)
            except Mismatch as e:
                raise Mismatch("the configuration merged from changed: %s" % e)
            if how != "frozen other":
                scribble(other)

    def adopt(self, s, m):
        """A rejected merge may have stored any of the values it named; whatever it stored is the new state."""
        for p, v in m.pending:
            try:
                cur = s.cfg
                for k in p[:-1]:
                    cur = cur[k]
                if p[-1] not in cur:
                    continue
                got = cur[p[-1]]
            except Exception:  # noqa: BLE001
                continue
            if isinstance(v, N):
                try:
                    compare(got, v, flags=False)
                except Mismatch:
                    continue
                m.root.at(p[:-1]).items[p[-1]] = v.copy()
            elif identical(got, v):
                m.root.at(p[:-1]).items[p[-1]] = leafcopy(v)
        m.pending = []

    def op_register(self, key, kind):
        def model(m, a):
            reg = m.root.deprecated if kind == "deprecated" else m.root.renamed
            if key in reg:
                return "raise", (AssertionError, KeyError, ValueError)
            if kind == "deprecated":
                reg.add(key)
            else:
                reg[key] = 1
            return "ok", None

        def impl(s, a):
            if kind == "deprecated":
                s.cfg.register_deprecated_key(key)
            else:
                s.cfg.register_renamed_key(key, "NEW." + key, *(("see the notes",) if key != "S" else ()))
        # a key that is both deprecated and renamed has no described meaning
        self.add("%s(%s)" % (kind, key), model, impl,
                 enabled=lambda m: key not in (m.root.renamed if kind == "deprecated" else m.root.deprecated))

    def op_misc(self):
        def clone(m, a):
            m.left.append(m.root)
            m.root = m.root.copy()
            return "ok", None

        def do(s, a):
            c = s.cfg.clone()
            s.left.append(s.cfg)
            s.cfg = c
        self.add("clone", clone, do, enabled=lambda m: len(m.left) < 2)
        self.add("merge(odd list)", lambda m, a: ("raise", (AssertionError, ValueError)), lambda s, a: s.cfg.merge_from_list(["A", 60, "S"]),
                 enabled=lambda m: not m.root.frozen)
        self.add("merge(plain dict)", lambda m, a: ("raise", (AssertionError, TypeError, ValueError)), lambda s, a: s.cfg.merge_from_other_cfg({"A": 61}),
                 enabled=lambda m: not m.root.frozen)
        self.add("merge(itself)", lambda m, a: ("ok", None), lambda s, a: s.cfg.merge_from_other_cfg(s.cfg.clone()),
                 enabled=lambda m: not m.root.renamed and not anyfrozen(m.root) and selfmergeable(m.root))


def selfmergeable(n):
    from cfgmodel import decode
    return all(selfmergeable(v) if isinstance(v, N) else identical(decode(v), v) for v in n.items.values())


def anyfrozen(n):
    return n.frozen or any(anyfrozen(v) for v in n.items.values() if isinstance(v, N))


def yaml_of(src, indent=0):
    """Hand-written block YAML, so that the dumper under test is not involved."""
    import json
    out = ""
    if not src:
        return "{}\n"
    for k, v in src.items():
        if isinstance(v, dict):
            out += "%s%s:\n%s" % (" " * indent, k, yaml_of(v, indent + 2)) if v else "%s%s: {}\n" % (" " * indent, k)
        else:
            out += "%s%s: %s\n" % (" " * indent, k, json.dumps(v))
    return out


def scribble(cfg):
    """Changes everything reachable from a merged-from configuration."""
    for k in list(cfg):
        v = cfg[k]
        if isinstance(v, dict):
            scribble(v)
            v["scribble"] = 1
        elif isinstance(v, list):
            for x in v:
                if isinstance(x, list):
                    x.append("scribble")
            v.append("scribble")
        else:
            cfg[k] = "scribble"


# ------------------------------------------------------------------ deep and wide trees
LEAVES = (1, 0.5, "word", True, (1, 2), [1, [2, "x"]])


def deep_tree(depth, fan, leaves):
    """Every node has `leaves` values and, above the bottom, `fan` sub-nodes."""
    d = {"L%d" % i: copy.deepcopy(LEAVES[(i + depth) % 6]) for i in range(leaves)}
    if depth:
        for i in range(fan):
            d["N%d" % i] = deep_tree(depth - 1, fan, leaves)
    return d


def node_paths(d, path=()):
    yield path
    for k, v in d.items():
        if isinstance(v, dict):
            yield from node_paths(v, path + (k,))


SHAPES = {"chain 1": (1, 1, 2), "chain 5": (5, 1, 2), "chain 14": (14, 1, 3), "bare chain 8": (8, 1, 1), "bush 3x3": (3, 3, 2), "bush 2x6": (2, 6, 7), "wide": (1, 2, 120), "broad": (1, 40, 1)}


def tree_cases():
    for nm, sh in SHAPES.items():
        ps = list(node_paths(deep_tree(*sh)))
        for i, p in enumerate(ps):
            for what in ("freeze", "freeze root", "set", "other", "list", "yaml", "py", "partial", "unknown", "registered", "new key"):
                yield "%s/%s/%s" % (nm, ".".join(p) or "root", what), (sh, p, what)


def other_leaf(v):
    return {int: 7, float: 2.25, str: "changed", bool: False, tuple: (9, "t"), list: [[5], 6]}[type(v)]


def check_tree(case):
    sh, path, what = case
    d = deep_tree(*sh)
    cfg, root = node(copy.deepcopy(d)), from_dict(d)
    here = root.at(path)
    leaves = [k for k, v in here.items.items() if not isinstance(v, N)]
    full = [".".join(path + (k,)) for k in leaves]

    def at(c, p):
        for k in p:
            c = c[k]
        return c

    def nest(leafs):
        out = {k: leafs[k] for k in leafs}
        for k in reversed(path):
            out = {k: out}
        return out

    new = {k: other_leaf(here.items[k]) for k in leaves}
    if what.startswith("freeze"):
        (at(cfg, path) if what == "freeze" else cfg).freeze()
        (here if what == "freeze" else root).freeze(True)
        compare(cfg, root)
        for k in leaves + ["fresh"]:
            try:
                setattr(at(cfg, path), k, 3)
            except AttributeError:
                pass
            else:
                raise Mismatch("%s of a frozen node was assigned" % k)
        compare(cfg, root)
        c = cfg.clone()
        compare(c, root)
        cfg.defrost()
        root.freeze(False)
        compare(cfg, root)
        return "frozen", 3
    if what == "set":
        c, left = cfg.clone(), from_dict(d)
        for k in leaves:
            setattr(at(c, path), k, copy.deepcopy(new[k]))
            here.items[k] = leafcopy(new[k])
        compare(c, root)
        compare(cfg, left)
        return "set", 2
    if what in ("other", "yaml", "py", "list", "partial"):
        vals = new if what != "partial" else {k: new[k] for k in leaves[1::2]}
        tree = nest(copy.deepcopy(vals))
        if what == "list":
            cfg.merge_from_list([x for k in leaves for x in (".".join(path + (k,)), copy.deepcopy(new[k]))])
        else:
            if what == "yaml":
                tree = nest({k: list(v) if isinstance(v, tuple) else v for k, v in vals.items()})
            ConfigMachine.merge(None, what if what in ("yaml", "py") else "other", cfg, tree)
        for k, v in vals.items():
            here.items[k] = leafcopy(v)
        compare(cfg, root)
        return what, 1
    bad = nest(dict(copy.deepcopy(new), UNKNOWN=1))
    if what == "unknown":
        for f in (lambda: cfg.merge_from_other_cfg(node(bad)), lambda: cfg.merge_from_list([".".join(path + ("UNKNOWN",)), 1])):
            try:
                f()
            except (KeyError, AssertionError):
                continue
            raise Mismatch("an unknown key was merged")
        c = at(cfg, path)
        expect("UNKNOWN" not in c, "an unknown key was stored")
        for k in leaves:
            if identical(c[k], new[k]):
                here.items[k] = leafcopy(new[k])
        compare(cfg, root)
        return "unknown", 2
    if what == "registered":
        key = full[-1]
        cfg.register_deprecated_key(key)
        cfg.register_renamed_key(".".join(path + ("WAS",)), key)
        cfg.merge_from_other_cfg(node(nest(copy.deepcopy(new))))
        for k in leaves[:-1]:
            here.items[k] = leafcopy(new[k])
        compare(cfg, root)
        cfg.merge_from_list([key, copy.deepcopy(new[leaves[-1]])])
        compare(cfg, root)
        for f in (lambda: cfg.merge_from_other_cfg(node(nest({"WAS": 1}))), lambda: cfg.merge_from_list([".".join(path + ("WAS",)), 1])):
            try:
                f()
            except KeyError:
                continue
            raise Mismatch("a renamed key was merged")
        compare(cfg, root)
        return "registered", 4
    # a node that allows new keys takes them, its parent does not
    if path:
        setattr(at(cfg, path[:-1]), path[-1], node(copy.deepcopy(d if not path else _dict_at(d, path)), new_allowed=True))
        here.new_allowed = True
        cfg.merge_from_other_cfg(node(nest({"FRESH": {"a": [1, {"no": 1}][:1]}, "F": 2})))
        here.items["FRESH"], here.items["F"] = from_dict({"a": [1]}), 2
        compare(cfg, root)
        try:
            up = {"FRESH2": 1}
            for k in reversed(path[:-1]):
                up = {k: up}
            cfg.merge_from_other_cfg(node(up))
        except (KeyError, AssertionError):
            compare(cfg, root)
            return "new key", 2
        raise Mismatch("an unknown key was merged above a node that allows new ones")
    return "root"


def _dict_at(d, path):
    for k in path:
        d = d[k]
    return d


SWEEPS = [("trees", tree_cases, check_tree)]

CONFIGS = [("plain",), ("root allows new keys", True), ("registered", False, (("deprecated", "A"), ("deprecated", "N.OLD"), ("renamed", "OLD"))),
           ("registered, new keys", True, (("deprecated", "K.y"), ("renamed", "P"), ("deprecated", "OLD")))]


def machine(name, new_allowed=False, registered=()):
    return ConfigMachine(name, new_allowed, registered)


def deeper(name, new_allowed=False, registered=()):
    return ConfigMachine(name, new_allowed, registered, reduced=True)


DEEP = [("deeper plain",), ("deeper registered, new keys", True, CONFIGS[3][2])]


def machines(tier):
    return [(machine, CONFIGS, 3 if tier == "thorough" else 2), (deeper, DEEP, 4 if tier == "thorough" else 3)]


RULE = ("Deep, bushy and wide trees x every node x freezing, assignment and every kind of merge at that node; complete breadth-first exploration of every history of assignments, freezes, merges (list, configuration, YAML file, Python file, sub-node), registrations and clones; after "
        "each operation every key, value, type and flag of the configuration, of every clone left behind and of the merge source is compared with a reference tree")


def main(tier, t0):
    return sweepcheck.run("C23", tier, t0, SWEEPS, machines=machines(tier), rule=RULE, bounds={"base": repr(BASE), "trees": "up to 14 levels, 40 sub-nodes, 120 values"},
                          assumptions=["merges into frozen nodes and item assignment are outside the property (as in YACS)",
                                       "a rejected merge may have stored any subset of the values it named, and nothing else",
                                       "text in merge sources denotes the literal it spells"])


def replay(doc):
    return sweepcheck.replay(doc, SWEEPS, machines=machines("quick"))
