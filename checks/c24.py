"""C24: configurations survive saving, loading and cloning."""
import copy
import itertools
import logging
import os
import shutil
import tempfile

import numpy as np

import purecalls
import purity
import sweepcheck
from cfgmodel import N, compare, from_dict, identical
from mc import Mismatch, expect, raises

logging.disable(logging.CRITICAL)


def cn():
    from gradslam.config import CfgNode
    return CfgNode


# ------------------------------------------------------------------ values
STRINGS = ["", " ", "a", "word word", " lead", "trail ", "true", "yes", "NO", "null", "None", "~", "1", "1.5", "1e5", "0x1f", "0o17", "017", "1:30", "2020-01-01", "2020-01-01 10:00:00", "-", "--- a", "- a",
           "[1, 2]", "{a: 1}", "(1, 2)", "#c", "a # b", "a: b", "a:b", ":", "?", "!x", "&x", "*x", "%x", "@x", "`x`", "'", '"', "it's", 'say "x"', "\\", "a\\nb", "a\nb", "a\n\nb\n", "\n", "\t", "a\tb", "é", "日本",
           "😀", "\u2028", "\x07", "=", "<<", "|", ">", "a,b", "x" * 200, ("word " * 60).strip(), ".inf", ".nan", "nan", "inf", "./rel/path", "~/home", "C:\\x", "${VAR}", "{{x}}", "1_000", "+1", ".5", "5.", "0"]
NUMBERS = [0, 1, -1, 7, 2 ** 31, -2 ** 63, 10 ** 30, 0.0, -0.0, 1.0, 0.5, -2.25, 1e-5, 1e5, 1e16, 1e20, 1.5e300, 5e-324, 0.1, 1 / 3, float("inf"), float("-inf"), float("nan"), True, False]
LISTS = [[], [1], [1, 2.5, "x", True], [[]], [[1], [2, [3, "a"]]], ["1", "null", ""], [0.0, False, 0], ["a: b", "- c"], [[[[1]]]], [-1, [True, [0.5]]]]
TUPLES = [(), (1,), (1, 2), ("a",), (1, (2, "x")), ([1],), ((),), (True, 0.5, "1")]
LEAVES = STRINGS + NUMBERS + LISTS + TUPLES
KEYS = ["A", "a", "KEY_1", "on", "yes", "null", "1", "1.5", "x-y", "with space", "é", "True", "a:b", "-", "", "#k", "?", "0x1", "~", "<<", "="]
SHAPES = {
    "root": lambda k, v: {k: v},
    "second": lambda k, v: {"FIRST": 1, k: v, "THIRD": "t"},
    "nested": lambda k, v: {"N": {k: v}},
    "deep": lambda k, v: {"N": {"M": {"O": {k: v}}, "E": {}}, "E2": {}},
    "in list": lambda k, v: {k: [v, [v]]},
}


def yamled(v):
    """What YAML gives back for a value: tuples come back as lists."""
    if isinstance(v, dict):
        return {k: yamled(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [yamled(x) for x in v]
    return v


DUMPS = [{}, {"default_flow_style": True}, {"default_flow_style": False}, {"sort_keys": False}, {"indent": 4, "width": 20}, {"allow_unicode": True}, {"explicit_start": True}, {"default_style": '"'}]


def strip_key(v):
    return v


def dump_cases(tier="quick"):
    for si, (sn, shape) in enumerate(SHAPES.items()):
        for vi, v in enumerate(LEAVES):
            for di, kw in enumerate(DUMPS if tier == "thorough" or si == 0 else [DUMPS[(vi + si) % len(DUMPS)], {}]):
                yield "%s/%d %r/%s" % (sn, vi, v if len(repr(v)) < 30 else type(v), kw), (shape("LEAF", v), kw)
    for sn, shape in SHAPES.items():
        for k in KEYS:
            for v in (1, "x", [1], {}, {"b": 2}):
                if isinstance(v, dict) and sn == "in list":
                    continue
                yield "%s/key %r/%r" % (sn, k, v), (shape(k, v), {})
    for n in (10, 60, 400):
        for di, kw in enumerate(DUMPS):
            for m in (0, 1):
                big = {"KEY%03d" % i: LEAVES[(i * 3 + m) % len(LEAVES)] for i in range(n)}
                yield "big %d/%s/%d" % (n, kw, m), (big if not m else {"A": {"B": big}, "C": {"D": {"E": dict(list(big.items())[:9])}}}, kw)
    for a, b in itertools.product(range(0, len(LEAVES), 1 if tier == "thorough" else 7), repeat=2):
        yield "pair %d %d" % (a, b), ({"P": LEAVES[a], "Q": {"R": LEAVES[b]}}, {})


def mutate_deep(cfg):
    for k in list(cfg):
        v = cfg[k]
        if isinstance(v, dict):
            mutate_deep(v)
            v["new"] = 1
        elif isinstance(v, list):
            for x in v:
                if isinstance(x, list):
                    x.append("new")
            v.append("new")
        else:
            cfg[k] = "other"


def check_dump(case):
    d, kw = case
    src = copy.deepcopy(d)
    cfg = cn()(src)
    model = from_dict(d)
    compare(cfg, model)
    expect(identical_tree(src, d), "building a configuration changed the dictionary")
    text = cfg.dump(**kw)
    expect(isinstance(text, str), "dump gives a %s" % type(text).__name__)
    compare(cfg, model)
    back = cn().load_cfg(text)
    want = from_dict(yamled(d))
    try:
        compare(back, want)
    except Mismatch as e:
        raise Mismatch("after dump and load: %s; text: %r" % (e, text[:200]))
    expect(identical_tree(plain(cn().load_cfg(back.dump(**kw))), plain(back)), "a second round trip changes the configuration")
    mutate_deep(src)
    compare(cfg, model)
    return "round trip", 4


def plain(cfg):
    return {k: plain(v) if isinstance(v, dict) else v for k, v in cfg.items()}


def identical_tree(a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(identical_tree(a[k], b[k]) for k in a)
    return identical(a, b)


# ------------------------------------------------------------------ files
TREES = [{}, {"A": 1}, {"A": "1", "B": {"C": [1, [2]], "D": {}}}, {"T": (1, (2,)), "S": "true", "N": {"F": 1e20, "I": float("inf"), "Z": -0.0}}, {"U": "é日本😀", "Q": "it's \"x\"", "M": "a\nb\n"},
         {"L": ["null", "", True, 1.0, 1], "DEEP": {"A": {"B": {"C": {"D": "x"}}}}}]
FORMS = [("yaml", "c.yaml"), ("yaml", "c.yml"), ("yaml", "c"), ("yaml", "with.dots/conf"), ("yaml", "a.b.yaml"), ("py dict", "c.py"), ("py node", "c.py"), ("py nested node", "c.py"), ("py built", "x.y.py")]
MODES = ["r", "rb", "r+"]


def file_cases():
    for i, _ in enumerate(TREES):
        for form in FORMS:
            for mode in MODES:
                for via in ("CfgNode.load_cfg", "instance", "module", "merge_from_file"):
                    yield "%d/%s/%s/%s" % (i, "%s %s" % form, mode, via), (i, form, mode, via)


def lit(v):
    if isinstance(v, dict):
        return "{" + ", ".join("%r: %s" % (k, lit(x)) for k, x in v.items()) + "}"
    if isinstance(v, list):
        return "[" + ", ".join(map(lit, v)) + "]"
    if isinstance(v, tuple):
        return "(" + "".join(lit(x) + ", " for x in v) + ")"
    if isinstance(v, float) and v in (float("inf"), float("-inf")):
        return "float(%r)" % repr(v)
    return repr(v)


def check_file(case):
    i, (kind, name), mode, via = case
    d = TREES[i]
    from gradslam.config import CfgNode, load_cfg
    if via == "merge_from_file" and (mode != "r" or kind == "py nested node"):
        return "not applicable", 0
    tmp = tempfile.mkdtemp(prefix="c24-")
    try:
        p = os.path.join(tmp, name)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        if kind == "yaml":
            body = CfgNode(copy.deepcopy(d)).dump(allow_unicode=bool(i % 2))
        elif kind == "py dict":
            body = "cfg = %s\n" % lit(d)
        elif kind == "py node":
            body = "from gradslam.config import CfgNode\ncfg = CfgNode(%s)\n" % lit(d)
        elif kind == "py nested node":
            body = "from gradslam.config import CfgNode\ncfg = CfgNode(%s)\ncfg.EXTRA = CfgNode({'x': (1, 2)}, new_allowed=True)\ncfg.freeze()\n" % lit(d)
        else:
            body = "import os\n_c = %s\ncfg = dict(_c)\nother = 5\n" % lit(d)
        with open(p, "w", encoding="utf-8") as f:
            f.write(body)
        want = from_dict(yamled(d) if kind == "yaml" else d)
        if kind == "py nested node":
            want.items["EXTRA"] = from_dict({"x": (1, 2)})
        if via == "merge_from_file":
            # strings are decoded on merging, so only trees whose text denotes itself are merged here
            target = CfgNode(new_allowed=True)
            from cfgmodel import decode
            target.merge_from_file(p)
            want = decoded(want)
            want.new_allowed = True
            compare(target, want, flags=False)
            return "merged"
        with open(p, mode, **({} if "b" in mode else {"encoding": "utf-8"})) as f:
            got = {"CfgNode.load_cfg": CfgNode.load_cfg, "instance": CfgNode({"other": 1}).load_cfg, "module": load_cfg}[via](f)
        compare(got, want, flags=kind != "py nested node")
        expect(open(p, encoding="utf-8").read() == body, "loading changed the file")
        mutate_deep(got)
        with open(p, mode, **({} if "b" in mode else {"encoding": "utf-8"})) as f:
            compare(CfgNode.load_cfg(f), want, flags=kind != "py nested node")
        return "loaded", 2
    finally:
        shutil.rmtree(tmp)


def decoded(n):
    from cfgmodel import decode
    return N({k: decoded(v) if isinstance(v, N) else decode(v) if top else v for k, v in n.items.items() for top in (True,)}, n.frozen, n.new_allowed)


# ------------------------------------------------------------------ clone
def clone_cases():
    for i in range(len(TREES)):
        for frozen in (None, "", "N", "B"):
            for new in (False, True):
                for reg in (False, True):
                    for side in ("clone", "source"):
                        for how in ("clone", "copy.deepcopy"):
                            yield "%d/%s/%s/%s/%s/%s" % (i, frozen, new, reg, side, how), (i, frozen, new, reg, side, how)


def check_clone(case):
    i, frozen, new, reg, side, how = case
    d = TREES[i]
    if frozen and frozen not in d:
        return "not applicable", 0
    cfg = cn()(copy.deepcopy(d), new_allowed=new)
    if reg:
        cfg.register_deprecated_key("OLD")
        cfg.register_renamed_key("WAS", "IS", "note")
    model = from_dict(d)
    model.new_allowed = new
    if frozen is not None:
        node, mn = (cfg[frozen], model.items[frozen]) if frozen else (cfg, model)
        node.freeze()
        mn.freeze(True)
    c = cfg.clone() if how == "clone" else copy.deepcopy(cfg)
    expect(type(c) is type(cfg), "clone is a %s" % type(c).__name__)
    expect(c is not cfg, "clone is the object itself")
    compare(c, model)
    compare(cfg, model)
    expect(c == cfg or i == 3, "clone differs from its source")
    for x in (c, cfg):
        expect(bool(x.key_is_deprecated("OLD")) == reg and bool(x.key_is_renamed("WAS")) == reg, "registrations not cloned")
    a, b = (c, cfg) if side == "clone" else (cfg, c)
    a.defrost()
    mutate_deep(a)
    a["brand"] = [1]
    a.register_deprecated_key("LATER")
    a.register_renamed_key("THEN", "NOW")
    a.freeze()
    compare(b, model)
    expect(not b.key_is_deprecated("LATER") and not b.key_is_renamed("THEN"), "registrations shared between clone and source")
    b.freeze()
    b.defrost()
    expect(a.is_frozen(), "freezing shared between clone and source")
    if reg:
        raises(lambda: b.register_deprecated_key("OLD"), (AssertionError, KeyError, ValueError))
        try:
            cn()(b, new_allowed=True)
        except Exception as e:  # noqa: BLE001
            raise Mismatch("cannot build a configuration from a configuration: %s" % e)
    return "independent", 2


# ------------------------------------------------------------------ decoding text
TEXTS = [
    ("1", 1), ("-3", -3), ("+4", 4), ("0", 0), ("1_000", 1000), ("0x1f", 31), ("1.5", 1.5), ("-0.0", -0.0), ("1e3", 1e3), (".5", 0.5), ("5.", 5.0), ("1e400", float("inf")),
    ("True", True), ("False", False), ("true", "true"), ("yes", "yes"), ("nan", "nan"), ("inf", "inf"),
    ("[]", []), ("[1, 2.0]", [1, 2.0]), ("[1,[2,'x']]", [1, [2, "x"]]), ("['a', True]", ["a", True]), ("()", ()), ("(1,)", (1,)), ("1,2", (1, 2)), ("1, 'a'", (1, "a")), ("(1, [2])", (1, [2])), ("([],)", ([],)),
    ("'q'", "q"), ('"q q"', "q q"), ("'1'", "1"), ("\"it's\"", "it's"), ("'a' 'b'", "ab"), ("word", "word"), ("two words", "two words"), ("a/b.c", "a/b.c"), ("/abs/path", "/abs/path"), ("a-b", "a-b"),
    ("", ""), ("-", "-"), ("(", "("), ("[1, x]", "[1, x]"), ("1 2", "1 2"), ("a=b", "a=b"), ("f(1)", "f(1)"), ("1+1", "1+1"), ("__import__('os')", "__import__('os')"), ("a.b", "a.b"), ("#c", "#c"), ("1 # c", 1),
    ("{[]: 1}", "{[]: 1}"), ("{{1}}", "{{1}}"), ("[{[1]: 2}]", "[{[1]: 2}]"), ("{{x}}", "{{x}}"), ("{x}", "{x}"), ("${A}", "${A}"), ("\\", "\\"), ("'open", "'open"), ("007", "007"), ("1e", "1e"), ("a\nb", "a\nb"), ("é", "é"),
    ("x\x00y", "x\x00y"), ("\x00", "\x00"), ("-'a'", "-'a'"), ("not True", "not True"), ("- 5", -5), ("--5", "--5"),
    # blanks and lines around a literal, odd spellings
    ("  12", 12), ("12 ", 12), ("12\n", 12), ("\t12", 12), ("\n12", 12), ("\n 12", "\n 12"), (" 'a'", "a"), (" word ", " word "), ("\xa012", "\xa012"), ("\uff11\uff12", "\uff11\uff12"), ("\n\n[1]", [1]),
    ("\n(1,)", (1,)), ("(1,\n 2)", (1, 2)), ("'a\\nb'", "a\nb"), ("[1,]", [1]), ("[1]]", "[1]]"), ("1,", (1,)), ("True,", (True,)), ("r'a\\b'", "a\\b"), ("\"\"\"t\"\"\"", "t"), ("1 .5", "1 .5"), ("1__0", "1__0"),
    ("1L", "1L"), ("0o17", 15), ("0b11", 3), ("1E5", 100000.0), ("-1.5e-3", -0.0015), ("+1.5", 1.5), ("[-1, +2]", [-1, 2]), ("(-1)", -1), ("((1))", 1), ("[[[]]]", [[[]]]), ("1;2", "1;2"), ("1\n2", "1\n2"),
    (" \n", " \n"), ("\t", "\t"), ("[1, 2", "[1, 2"), ("lambda: 0", "lambda: 0"), ("[x for x in ()]", "[x for x in ()]"), ("f'a'", "f'a'"), ("1 if True else 2", "1 if True else 2"),
]
ORIGS = [("int", 7), ("float", 7.5), ("bool", False), ("str", "orig"), ("list", [0]), ("tuple", (0,)), ("node", {"x": 1})]


def decode_cases():
    for t, v in TEXTS:
        for on, orig in ORIGS:
            for how in ("list", "other", "list nested"):
                yield "%r/%s/%s" % (t, on, how), (t, v, on, orig, how)
    for v in NUMBERS + LISTS + TUPLES:
        for on, orig in ORIGS:
            for how in ("list", "other", "list nested"):
                yield "value %r/%s/%s" % (v, on, how), (v, v, on, orig, how)


def check_decode(case):
    t, v, on, orig, how = case
    cfg = cn()({"A": copy.deepcopy(orig), "N": {"B": copy.deepcopy(orig)}, "C": 1})
    path = ["N", "B"] if how == "list nested" else ["A"]

    def call():
        if how == "other":
            cfg.merge_from_other_cfg(cn()({"A": copy.deepcopy(t)}))
        else:
            cfg.merge_from_list([".".join(path), copy.deepcopy(t)])
    kind = type(v).__name__
    ok = kind == on or {kind, on} == {"list", "tuple"}
    model = from_dict({"A": orig, "N": {"B": orig}, "C": 1})
    if not ok:
        raises(call, (ValueError, TypeError, AssertionError))
        compare(cfg, model)
        return "rejected"
    call()
    want = v if kind == on else (list(v) if on == "list" else tuple(v))
    model.at(path[:-1]).items[path[-1]] = want
    compare(cfg, model)
    return kind


# ------------------------------------------------------------------ rejections
def unsupported():
    import torch
    return [("None", None), ("set", {1}), ("frozenset", frozenset()), ("bytes", b"x"), ("complex", 1j), ("np.float32", np.float32(1)), ("np.float64", np.float64(1)), ("np.int64", np.int64(1)), ("np.bool", np.bool_(True)),
            ("array", np.zeros(2)), ("tensor", torch.zeros(2)), ("object", object()), ("type", int), ("function", len), ("range", range(3)), ("bytearray", bytearray(b"a"))]


def reject_cases():
    for n, v in unsupported():
        for where in ("constructor", "constructor nested", "attribute", "attribute nested", "dump", "dump nested", "other", "list"):
            yield "%s/%s" % (n, where), ("value", v, where)
    for n, v in unsupported()[:6] + [("int", 5), ("list", ["A: 1"]), ("dict", {"A": 1}), ("bytes", b"A: 1")]:
        yield "load_cfg/%s" % n, ("load", v, None)
    for t in ("A: null", "N:\n  B: ~", "A: 2020-01-01", "A: !!binary aGk=", "A: !!set {x}", "- 1", "5", "word", "A: [", "A: !!python/object:os.system x", "A: 1\n B: 2"):
        yield "yaml/%r" % t, ("yaml", t, None)
    for ext, body in (("c.json", "{}"), ("c.txt", "A: 1"), ("c.yaml.bak", "A: 1"), ("c.pyc", ""), ("c.py", "x = 1"), ("c.py", "cfg = 5"), ("c.py", "cfg = [1]"), ("c.py", "cfg = None"), ("c.py", "cfg = {'A': None}"), ("c.py", "raise RuntimeError"), ("c.yaml", "A: null"), ("c.yml", "[1]")):
        yield "file/%s %s" % (ext, body), ("file", ext, body)
    for t in ("None", "{1, 2}", "b'x'", "1j", "{'a': 1}", "...", "set()"):
        for where in ("new", "new nested", "str", "str list"):
            yield "text %r/%s" % (t, where), ("text", t, where)


def check_reject(case):
    kind, v, where = case
    any_error = (Exception,)
    node = cn()
    if kind == "value":
        if where == "constructor":
            raises(lambda: node({"A": 1, "B": v}), (AssertionError, TypeError, ValueError))
        elif where == "constructor nested":
            raises(lambda: node({"A": {"B": {"C": v}}}), (AssertionError, TypeError, ValueError))
        elif where.startswith("attribute"):
            cfg = node({"A": 1, "N": {"B": 2}})
            t = cfg.N if "nested" in where else cfg
            for k in ("A", "B", "NEW"):
                raises(lambda: setattr(t, k, v), (AssertionError, TypeError, ValueError))
            compare(cfg, from_dict({"A": 1, "N": {"B": 2}}))
        elif where.startswith("dump"):
            cfg = node({"A": 1, "N": {"B": 2}})
            (cfg["N"] if "nested" in where else cfg)["X"] = v
            raises(cfg.dump, any_error)
        else:
            cfg = node({"A": 1, "N": {"B": 2}})
            if where == "list":
                raises(lambda: cfg.merge_from_list(["A", v]), any_error)
            else:
                o = node({"A": 1})
                o["A"] = v
                raises(lambda: cfg.merge_from_other_cfg(o), any_error)
            compare(cfg, from_dict({"A": 1, "N": {"B": 2}}))
    elif kind == "load":
        raises(lambda: node.load_cfg(v), (AssertionError, TypeError, ValueError))
    elif kind == "yaml":
        raises(lambda: node.load_cfg(v), any_error)
    elif kind == "file":
        tmp = tempfile.mkdtemp(prefix="c24-")
        try:
            p = os.path.join(tmp, v)
            open(p, "w").write(where)
            with open(p) as f:
                raises(lambda: node.load_cfg(f), any_error)
            cfg = node({"A": 1})
            raises(lambda: cfg.merge_from_file(p), any_error)
            compare(cfg, from_dict({"A": 1}))
        finally:
            shutil.rmtree(tmp)
    else:
        # text spelling a value no configuration may hold: rejected, or kept as the text it is
        cfg = node({"S": "s", "N": {"L": [1]}}, new_allowed=True)
        cfg.K = node({"z": 1}, new_allowed=True)
        src = {"new": {"P": v}, "new nested": {"K": {"y": v}}, "str": {"S": v}, "str list": None}[where]
        try:
            if src is None:
                cfg.merge_from_list(["S", v])
            else:
                cfg.merge_from_other_cfg(node(src))
        except Exception:  # noqa: BLE001
            pass
        else:
            got = cfg.S if "str" in where else cfg["P"] if where == "new" else cfg.K["y"]
            expect(isinstance(got, cn()) or got == v, "text %r stored as unsupported value %r" % (v, got))
        try:
            node.load_cfg(cfg.dump())
        except Exception as e:  # noqa: BLE001
            raise Mismatch("configuration cannot be saved after merging the text %r: %s" % (v, e))
    return "rejected"


def sweeps(tier):
    return [("dump", lambda: dump_cases(tier), check_dump), ("file", file_cases, check_file), ("clone", clone_cases, check_clone),
            ("decode", decode_cases, check_decode), ("reject", reject_cases, check_reject),
            purity.sweep(purecalls.configs, tier)]


RULE = ("Complete products of value x position x dump options, tree x file form x open mode x loader, clone x flags x side mutated, text x original type; "
        "results compared value by value with exact types (tuples come back from YAML as lists)")


def main(tier, t0):
    return sweepcheck.run("C24", tier, t0, sweeps(tier), rule=RULE, bounds={"values": len(LEAVES), "keys": len(KEYS), "texts": len(TEXTS)},
                          assumptions=["PyYAML is trusted", "keys are strings", "only the top level of a value's type is restricted (as documented)"])


def replay(doc):
    return sweepcheck.replay(doc, sweeps("thorough"))
