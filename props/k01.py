"""K01: configuration parsing reflects the current environment only."""
import os

from sim import fs as simfs, host
from sim.core import Violation
from . import joblib as jl

VARS = ["V_HOST", "V_PORT", "V_LONG_NAME", "V_1", "HOME"]
VALUES = ["db.example", "3306", "", "a b", "x: y", "/p/q", "true", "null", "$dollar", "é", "${V_PORT}", "${HOME}/x",
          "${V_1}${V_HOST}", "\\1"]
TAGS = ["!ENV", "!env", "!E"]


def prepare():
    import metcalcpy.util.read_env_vars_in_config  # noqa: F401
    import yaml  # noqa: F401
    from model import jobs
    jobs.load()


def document(ch, tag):
    """A configuration text and a function from the environment to its meaning."""
    lines, parts = [], []
    for k in range(ch.range(1, 5)):
        kind = ch.weighted([(4, "ref"), (2, "mixed"), (1, "two"), (1, "plain"), (1, "number"),
                            (1, "list"), (1, "nested"), (1, "tagged_plain"), (1, "quoted"),
                            (1, "twice"), (1, "many"), (1, "bare")])
        v, w = ch.pick(VARS), ch.pick(VARS)
        key = f"k{k}"
        if kind == "ref":
            lines.append(f"{key}: {tag} ${{{v}}}")
            parts.append((key, [("v", v)]))
        elif kind == "mixed":
            lines.append(f"{key}: {tag} /pre/${{{v}}}/post")
            parts.append((key, ["/pre/", ("v", v), "/post"]))
        elif kind == "two":
            lines.append(f"{key}: {tag} '${{{v}}}/mid/${{{w}}}'")
            parts.append((key, [("v", v), "/mid/", ("v", w)]))
        elif kind == "twice":
            lines.append(f"{key}: {tag} '${{{v}}}-${{{v}}}'")
            parts.append((key, [("v", v), "-", ("v", v)]))
        elif kind == "many":
            many = [ch.pick(VARS) for _ in range(ch.range(3, 9))]
            lines.append(f"{key}: {tag} '" + ":".join(f"${{{x}}}" for x in many) + "'")
            parts.append((key, [y for x in many for y in (":", ("v", x))][1:]))
        elif kind == "bare":
            # neither of these is a reference in the documented form
            lines.append(f"{key}: {tag} '${{{v}}} ${w} {{{w}}} $${{{v}-}}'")
            parts.append((key, [("v", v), f" ${w} {{{w}}} $${{{v}-}}"]))
        elif kind == "plain":
            lines.append(f"{key}: text")
            parts.append((key, ["text"]))
        elif kind == "tagged_plain":
            lines.append(f"{key}: {tag} no reference")
            parts.append((key, ["no reference"]))
        elif kind == "quoted":
            lines.append(f"{key}: {tag} \"q ${{{v}}}\"")
            parts.append((key, ["q ", ("v", v)]))
        elif kind == "number":
            lines.append(f"{key}: 17")
            parts.append((key, 17))
        elif kind == "list":
            lines.append(f"{key}:\n  - {tag} ${{{v}}}\n  - 2")
            parts.append((key, ("list", [("v", v)], 2)))
        elif kind == "nested":
            lines.append(f"{key}:\n  in: {tag} ${{{v}}}\n  out: 1.5")
            parts.append((key, ("dict", [("v", v)], 1.5)))
    return "\n".join(lines) + "\n", parts


def meaning(parts, env):
    def text(p):
        return "".join(x if isinstance(x, str) else env.get(x[1], x[1]) for x in p)
    out = {}
    for key, p in parts:
        if isinstance(p, list):
            out[key] = text(p)
        elif isinstance(p, tuple) and p[0] == "list":
            out[key] = [text(p[1]), p[2]]
        elif isinstance(p, tuple):
            out[key] = {"in": text(p[1]), "out": p[2]}
        else:
            out[key] = p
    return out


ORDINARY = ["a: ${HOME}\nb: [1, 2.5, yes]\n", "x: 'v ${V_HOST} w'\ny: ${V_1}/z\n", "- ${V_PORT}\n- 3\n",
            "a: !ENV ${HOME}\n", "a: !E ${V_1}\n"]


def run(ch, ctx):
    steps = []
    docs = []
    for k in range(ch.range(1, 3)):
        tag = ch.pick(TAGS)
        docs.append((tag,) + document(ch, tag))
    for _ in range(ch.range(2, 7)):
        kind = ch.weighted([(5, "parse"), (3, "env"), (2, "ordinary"), (1, "broken"), (1, "io"),
                            (1, "nothing"), (1, "missing"), (1, "rewrite"), (1, "wrong_tag")])
        if kind == "parse":
            steps.append((kind, ch.int(len(docs)), ch.pick(["data", "file", "both"])))
        elif kind == "env":
            steps.append((kind, ch.pick(VARS[:4]), ch.pick([None] + VALUES)))
        elif kind == "ordinary":
            steps.append((kind, ch.pick(ORDINARY), ch.pick(["safe_load", "SafeLoader",
                                                            "FullLoader", "safe_load_all"])))
        elif kind == "broken":
            steps.append((kind, ch.pick(["a: [1, 2\n", "a: b: c\n", "\t- x\n", "a: '\n",
                                         "k: @x\n"])))
        elif kind == "io":
            steps.append((kind, ch.int(len(docs)), ch.pick(["EIO", "EACCES"])))
        elif kind == "rewrite":
            steps.append((kind, ch.int(len(docs)), ch.int(len(docs))))
        elif kind == "wrong_tag":
            steps.append((kind, ch.int(len(docs)), ch.pick(TAGS)))
        else:
            steps.append((kind,))
    start = {v: ch.pick(VALUES[:4]) if ch.bool() else None for v in VARS[:4]}
    start["HOME"] = "/home/u"
    root = ctx.root
    for k, (tag, text, _) in enumerate(docs):
        with simfs._real_open(os.path.join(root, f"c{k}.yaml"), "wb") as f:
            f.write(text.encode())
    cell = {}

    def body():
        import yaml
        from metcalcpy.util.read_env_vars_in_config import parse_config
        f = cell["fs"]
        res = []
        for st in steps:
            f.plan, f.sticky = {}, None
            try:
                if st[0] == "parse":
                    tag, text, _ = docs[st[1]]
                    if st[2] == "data":
                        r = parse_config(data=text, tag=tag)
                    elif st[2] == "file":
                        r = parse_config(path=f"c{st[1]}.yaml", tag=tag)
                    else:
                        r = parse_config(f"c{st[1]}.yaml", text, tag)
                elif st[0] == "env":
                    if st[2] is None:
                        os.environ.pop(st[1], None)
                    else:
                        os.environ[st[1]] = st[2]
                    r = None
                elif st[0] == "ordinary":
                    if st[2] == "safe_load":
                        r = yaml.safe_load(st[1])
                    elif st[2] == "safe_load_all":
                        r = list(yaml.safe_load_all(st[1]))[0]
                    else:
                        r = yaml.load(st[1], Loader=getattr(yaml, st[2]))
                elif st[0] == "broken":
                    r = parse_config(data=st[1])
                elif st[0] == "io":
                    f.plan = {len(f.ops): {"kind": st[2]}, len(f.ops) + 1: {"kind": st[2]}}
                    if st[2] == "EIO":
                        f.plan = {len(f.ops) + 1: {"kind": "EIO"}}
                    r = parse_config(path=f"c{st[1]}.yaml", tag=docs[st[1]][0])
                elif st[0] == "rewrite":
                    with simfs._real_open(f"c{st[1]}.yaml", "wb") as g:
                        g.write(docs[st[2]][1].encode())
                    r = None
                elif st[0] == "wrong_tag":
                    r = parse_config(data=docs[st[1]][1], tag=st[2])
                elif st[0] == "nothing":
                    r = parse_config()
                else:
                    r = parse_config(path="no_such_file.yaml")
                res.append(("ok", r))
            except Exception as e:
                res.append(("exc", type(e).__name__))
        return res

    env = dict(start)
    out = host.run_process(body, root, setup=lambda p: cell.update(fs=p.fs), env=env)
    if out.status == "hang":
        raise Violation("hang", "parsing never ends")
    ctx.log("steps", steps, out.brief(), out.value)
    if out.status != "ok":
        raise Violation("tool failed", repr(out))
    jl.note_faults(ctx, out)
    ctx.fault("environment_changed", sum(1 for s in steps if s[0] == "env"))
    ctx.count("parses", sum(1 for s in steps if s[0] in ("parse", "broken", "io", "wrong_tag")))
    ctx.nontrivial = len(steps) > 2
    ctx.state([s[0] for s in steps], [d[0] for d in docs])
    ctx.sample = {"steps": steps, "tags": [d[0] for d in docs], "results": out.value}
    env = {k: v for k, v in env.items() if v is not None}
    content = {k: k for k in range(len(docs))}
    for k, (st, got) in enumerate(zip(steps, out.value)):
        what = f"step {k + 1} {st} after {[s[0] for s in steps[:k]]}"
        if st[0] == "env":
            if st[2] is None:
                env.pop(st[1], None)
            else:
                env[st[1]] = st[2]
        elif st[0] == "rewrite":
            content[st[1]] = st[2]
        elif st[0] == "parse":
            tag, text, parts = docs[st[1]]
            if st[2] != "data" and content[st[1]] != st[1]:
                tag2, _, parts = docs[content[st[1]]]
                if tag2 != tag:
                    tagged_other = True
                    check_other(tag, docs[content[st[1]]], env, got, what)
                    continue
            want = meaning(parts, env)
            if got != ("ok", want):
                raise Violation("wrong configuration", f"{what}: {got} instead of {want} from "
                                f"{text!r}")
        elif st[0] == "ordinary":
            want = ordinary(st[1])
            if want is None:
                if got[0] == "ok":
                    raise Violation("ordinary loading changed", f"{what}: {got}")
            elif got != ("ok", want):
                raise Violation("ordinary loading changed", f"{what}: {got} instead of {want}")
        elif st[0] == "wrong_tag":
            check_other(st[2], docs[st[1]], env, got, what)
        elif got[0] == "ok":
            if st[0] == "io" and not any(f[3] == st[2] for f in out.fired):
                continue
            raise Violation("failure not reported", f"{what}: {got}")


def check_other(tag, doc, env, got, what):
    """A document with another tag than the one asked for: no marked reference is resolved, so
    a document with explicit other tags cannot be understood."""
    if doc[0] == tag:
        want = meaning(doc[2], env)
        if got != ("ok", want):
            raise Violation("wrong configuration", f"{what}: {got} instead of {want}")
        return
    if doc[0] in doc[1] and got[0] == "ok":
        raise Violation("tag of an earlier call is still in force",
                        f"{what}: {got} from {doc[1]!r} with tag {tag}")


def ordinary(text):
    return {ORDINARY[0]: {"a": "${HOME}", "b": [1, 2.5, True]},
            ORDINARY[1]: {"x": "v ${V_HOST} w", "y": "${V_1}/z"},
            ORDINARY[2]: ["${V_PORT}", 3]}.get(text)
