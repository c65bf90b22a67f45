"""Shared by the properties of the validation tool.

The external plotting program is simulated: it reads the XML it is given and writes the image, data
and script files that the outcome plan says.
"""
import io
import os
import re
import shlex
import subprocess
import xml.dom.minidom

import numpy as np

from sim import fs as simfs, host

DIRS = ("in_xml", "out_xml", "out_plots", "out_data", "out_scripts", "orig", "mv", "other")
ZONES = ["UTC", "America/Denver", "Asia/Kolkata", "Pacific/Apia", "Europe/Berlin",
         "America/St_Johns", "Australia/Lord_Howe"]

XML = """<plot_spec><connection><host>h</host><database>d</database><user>root</user>
<password>pw</password></connection>
<folders><r_tmpl>/r_tmpl</r_tmpl><r_work>/r_work</r_work><plots>{plots}</plots><data>/data</data>
<scripts>/scripts</scripts></folders>
<plot><tmpl><data_file>{stem}.data</data_file><plot_file>{name}</plot_file>
<r_file>{stem}.R</r_file></tmpl></plot></plot_spec>
"""


def prepare():
    import metcalcpy.validate_mv_python  # noqa: F401
    import metcalcpy.compare_images  # noqa: F401
    from model import jobs
    jobs.load()


def image(seed, size=(24, 32)):
    """A small picture with shapes and colours."""
    g = np.random.default_rng(seed)
    im = np.full(size + (3,), 255, np.uint8)
    for _ in range(4):
        y, x = int(g.integers(size[0] - 6)), int(g.integers(size[1] - 6))
        im[y:y + int(g.integers(2, 6)), x:x + int(g.integers(2, 6))] = g.integers(0, 256, 3)
    return im


def png(im):
    import cv2
    ok, data = cv2.imencode(".png", im)
    assert ok
    return data.tobytes()


def same_gray(im):
    """The picture with one area in another colour of the same brightness."""
    import cv2
    im = im.copy()
    a = np.array([[[0, 150, 0]]], np.uint8)
    want = int(cv2.cvtColor(a, cv2.COLOR_BGR2GRAY)[0, 0])
    for r in range(256):
        b = np.array([[[40, 60, r]]], np.uint8)
        if int(cv2.cvtColor(b, cv2.COLOR_BGR2GRAY)[0, 0]) == want:
            break
    base = im.copy()
    base[4:9, 4:9] = a[0, 0]
    im[4:9, 4:9] = b[0, 0]
    return base, im


# outcome of one plotting run: original image, new image, truth
OUTCOMES = ("identical", "both_missing", "changed", "one_pixel", "colour", "new_missing",
            "orig_missing", "new_truncated", "new_empty", "new_size", "new_garbage", "orig_garbage",
            "tiny_change_of_size", "too_small", "read_fails", "faint", "plain_size", "scaled",
            "transposed", "border")


def pictures(how, seed):
    """(original bytes or None, new bytes or None, verdict)."""
    im = image(seed)
    a = png(im)
    if how == "identical":
        return a, a, "SUCCESS"
    if how == "read_fails":
        return a, a, "ERROR"
    if how == "both_missing":
        return None, None, "SUCCESS"
    if how == "changed":
        return a, png(image(seed + 1)), "ERROR"
    if how == "one_pixel":
        g = np.random.default_rng(seed)
        b = im.copy()
        y, x = int(g.integers(b.shape[0])), int(g.integers(b.shape[1]))
        b[y, x] = (b[y, x].astype(int) + 128) % 256
        return a, png(b), "ERROR"
    if how == "colour":
        x, y = same_gray(im)
        return png(x), png(y), "ERROR"
    if how == "new_missing":
        return a, None, "ERROR"
    if how == "orig_missing":
        return None, a, "ERROR"
    if how == "new_truncated":
        return a, a[:len(a) // 3], "ERROR"
    if how == "new_empty":
        return a, b"", "ERROR"
    if how == "new_size":
        return a, png(image(seed, (30, 32))), "ERROR"
    if how == "tiny_change_of_size":
        return a, png(im[:-1]), "ERROR"
    if how == "faint":
        g = np.random.default_rng(seed)
        b = im.copy()
        y, x, c = (int(g.integers(n)) for n in b.shape)
        b[y, x, c] += 1 if b[y, x, c] < 128 else -1
        return a, png(b), "ERROR"
    if how == "plain_size":
        g = np.random.default_rng(seed)
        c = g.integers(0, 256, 3).astype(np.uint8)
        return png(np.full((24, 32, 3), c)), png(np.full((30, 28, 3), c)), "ERROR"
    if how == "scaled":
        return a, png(np.kron(im, np.ones((2, 2, 1), np.uint8))), "ERROR"
    if how == "transposed":
        return a, png(np.ascontiguousarray(im.transpose(1, 0, 2))), "ERROR"
    if how == "border":
        b = np.full((28, 36, 3), 255, np.uint8)
        b[2:26, 2:34] = im
        return a, png(b), "ERROR"
    if how == "new_garbage":
        return a, b"not an image\n" * 20, "ERROR"
    if how == "orig_garbage":
        return b"\x89PNG\r\n\x1a\n" + b"\0" * 50, a, "ERROR"
    if how == "too_small":
        return png(im[:4, :4]), png(im[1:5, :4]), "ERROR"
    raise KeyError(how)


class Batch:
    """Stands for the METviewer batch program; installed as subprocess.Popen."""
    plan = {}
    runs = []
    root = None

    def __init__(self, args, *a, **kw):
        if isinstance(args, (str, bytes)):
            args = shlex.split(os.fsdecode(args))
        self.args = args
        self.pid = 4711 + len(Batch.runs)
        self.returncode = None
        self.stdin = None
        self.kw = kw
        path = os.fspath(args[-1])
        with simfs._real_open(path, "rb") as f:
            doc = xml.dom.minidom.parseString(f.read())

        def tag(t):
            return doc.getElementsByTagName(t)[0].firstChild.nodeValue
        plot = tag("plot_file")
        Batch.runs.append((os.path.basename(os.fspath(args[0])), plot))
        p = Batch.plan.get(plot)
        self.out, self.code = "", 0
        if p is None:
            self.code = 1
        else:
            self.out, self.code = p["stdout"], p["code"]
            if p["new"] is not None:
                self.put(tag("plots"), plot, p["new"])
            stem = os.path.splitext(tag("data_file"))[0]
            if p["data"]:
                self.put(tag("data"), tag("data_file"), p["content"])
                for ext in p["more"]:
                    self.put(tag("data"), stem + ext, b"more\n")
            if p["script"]:
                self.put(tag("scripts"), tag("r_file"), p["content"])
        text = kw.get("universal_newlines") or kw.get("text") or kw.get("encoding")
        self.data = self.out if text else self.out.encode()
        self.stdout = (io.StringIO if text else io.BytesIO)(self.data) \
            if kw.get("stdout") == subprocess.PIPE else None
        self.stderr = None

    def put(self, d, name, data):
        with simfs._real_open(os.path.join(d, name), "wb") as f:
            f.write(data)

    def communicate(self, input=None, timeout=None):
        self.returncode = self.code
        return (self.data if self.stdout is not None else None), None

    def wait(self, timeout=None):
        self.returncode = self.code
        return self.code

    def poll(self):
        self.returncode = self.code
        return self.code

    def kill(self):
        pass

    terminate = kill

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


def install(plan):
    Batch.plan, Batch.runs = plan, []
    subprocess.Popen = Batch
    os.system = lambda cmd: Batch(cmd).wait()


def new_name(name, post="py"):
    """Names of the artifacts as the tool documents them: postfix before the extension."""
    return name.replace(".", "_" + post + ".")


NAMES = ["plot.png", "plot1.png", "plot10.png", "plot_a.png", "p.png", "plot_py.png", "q 1.png",
         "plot1_thresh.png", "plot[1].png", "p*.png", "plot.1.png"]


def campaign(ch, n_max=4, outcomes=OUTCOMES):
    """XML files, original plots and what the plotting program does."""
    names = ch.shuffle(NAMES)[:ch.range(1, n_max)]
    rel = ch.bool()
    items = []
    for k, name in enumerate(names):
        how = ch.pick(outcomes)
        orig, new, verdict = pictures(how, ch.int(1000))
        items.append({"name": name, "how": how, "orig": orig, "new": new, "verdict": verdict,
                      "xml": ch.pick(["x%d.xml", "%d_plot.xml", "w.%d.xml"]) % k,
                      "code": ch.pick([0, 0, 1, 139, -9]), "data": not ch.bool(0.15),
                      "script": not ch.bool(0.15), "more": ch.subset([".dataAfterEq", ".points1"]),
                      "content": ch.pick([b"content\n", b""]),
                      "which": ch.pick(["new", "orig"]), "save_fails": ch.bool(0.15),
                      "stdout": ch.pick(["", "ok\n", "SUCCESS: For nothing\nERROR: noise\n" * 3])})
    return {"items": items, "rel": rel, "stale": ch.bool(0.4)}


def base(root, c):
    return "" if c["rel"] else root + "/"


def lay(root, c):
    simfs.wipe(root)
    for d in DIRS:
        os.makedirs(os.path.join(root, d), exist_ok=True)

    def w(rel, data):
        with simfs._real_open(os.path.join(root, rel), "wb") as f:
            f.write(data)
    for it in c["items"]:
        stem = os.path.splitext(it["name"])[0]
        w("in_xml/" + it["xml"], XML.format(plots=base(root, c) + "orig", stem=stem,
                                            name=it["name"]).encode())
        if it["orig"] is not None:
            w("orig/" + it["name"], it["orig"])
    # files of others in directories the tool has to do with
    w("orig/plot.svg", b"someone's")
    w("orig/plot1_py.png", b"someone's")
    w("in_xml/notes.txt", b"notes")
    w("other/plot.data", b"not the tool's")
    w("mv/plot.R", b"not the tool's")
    if c["stale"]:
        w("out_plots/plot_py.png", b"old")
        w("out_data/plot_py.data", b"old")
        w("out_scripts/plot10_py.R", b"old")
        w("out_xml/x0_py.xml", b"old")


def params(root, c):
    b = base(root, c)
    return {"input_xml_dir": b + "in_xml/", "output_xml_dir": b + "out_xml/",
            "output_plots_dir": b + "out_plots/", "output_data_dir": b + "out_data/",
            "output_scripts_dir": b + "out_scripts/", "mv_home": b + "mv/", "db_user": "u",
            "db_pass": "p", "start_date": "1970-01-01", "end_date": "2100-01-01"}


def plan_of(c):
    return {new_name(it["name"]): it for it in c["items"]}


def image_faults(c):
    """Reads and writes of images that fail: cv2 reports both by its return value."""
    import cv2
    bad = {("orig", it["name"]) if it["which"] == "orig" else ("out_plots", new_name(it["name"]))
           for it in c["items"] if it["how"] == "read_fails"}
    nosave = {new_name(it["name"], "thresh") for it in c["items"] if it["save_fails"]}
    imread, imwrite = cv2.imread, cv2.imwrite

    def read(path, *a, **k):
        d, name = os.path.split(path)
        return None if (os.path.basename(d), name) in bad else imread(path, *a, **k)

    def write(path, *a, **k):
        return False if os.path.basename(path) in nosave else imwrite(path, *a, **k)
    cv2.imread, cv2.imwrite = read, write


def run_tool(root, c, order=None, plan=None, times=1):
    """Runs the tool's main loop in a simulated process."""
    def body():
        import metcalcpy.validate_mv_python as v
        install(plan_of(c))
        image_faults(c)
        res = []
        for _ in range(times):
            import sys
            at = len(sys.stdout.getvalue())
            v.main(params(root, c))
            res.append(sys.stdout.getvalue()[at:])
        return res, list(Batch.runs)

    return host.run_process(body, root, order=order, plan=plan)


def verdicts(text, c):
    """{plot name: [verdicts]} from what the tool printed."""
    got = {it["name"]: [] for it in c["items"]}
    for line in text.split("\n"):
        m = re.match(r"\s*(SUCCESS|ERROR)\b", line)
        if not m:
            continue
        best = [n for n in got if re.search(r"(?<![\w.])" + re.escape(n) + r"(?![\w.])", line)]
        for n in best[:1] if len(best) == 1 else \
                sorted(best, key=lambda n: (line.find(n), -len(n)))[:1]:
            got[n].append(m.group(1))
    return got


def artifacts(it):
    """Files the plotting program and the tool leave for one plot."""
    out = ["out_xml/" + new_name(it["xml"])]
    if it["new"] is not None:
        out.append("out_plots/" + new_name(it["name"]))
    stem = new_name(os.path.splitext(it["name"])[0] + ".")[:-1]
    if it["data"]:
        out += ["out_data/" + stem + e for e in [".data"] + it["more"]]
    if it["script"]:
        out.append("out_scripts/" + stem + ".R")
    return out


def listing(ch):
    """A directory listing order."""
    import random
    how = ch.int(3)
    seed = ch.seed32()
    if how == 0:
        return None
    if how == 1:
        return lambda names: list(reversed(names))

    def order(names):
        names = list(names)
        random.Random(seed).shuffle(names)
        return names
    return order
