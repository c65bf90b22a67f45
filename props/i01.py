"""I01: image comparison outputs are repeatable and write failures are reported."""
import os

import numpy as np

from sim import fs as simfs, host
from sim.core import Violation
from . import vlib as vl

prepare = vl.prepare

SAVES = ("save_difference_image", "save_thresh_image", "save_difference_in_image_1",
         "save_difference_in_image_2")
SHOWS = ("show_difference_image", "show_thresh_image", "show_difference_in_image_1",
         "show_difference_in_image_2")
FAULTS = ("false", "error", "no_dir", "read_only_dir", "read_only_file", "bad_extension")


def run(ch, ctx):
    seed = ch.int(1000)
    size = ch.pick([(24, 32), (11, 9), (60, 50)])
    im = vl.image(seed, size)
    how = ch.pick(["other", "same", "pixel", "noise"])
    other = im.copy()
    g = np.random.default_rng(seed + 7)
    if how == "other":
        other = vl.image(seed + 1, size)
    elif how == "pixel":
        other[int(g.integers(size[0])), int(g.integers(size[1]))] ^= 255
    elif how == "noise":
        other = (other.astype(int) + g.integers(-2, 3, other.shape)).clip(0, 255).astype(np.uint8)
    ext = ch.pick([".png", ".bmp", ".tiff"])
    steps = []
    for _ in range(ch.range(1, 6)):
        f = ch.weighted([(5, None)] + [(1, x) for x in FAULTS])
        op = ch.pick(SAVES + SHOWS) if f is None else ch.pick(SAVES)
        steps.append((op, f))
    one = ch.bool(0.4)          # all steps save to the same file
    root = ctx.root
    for d in ("in", "out", "ro"):
        os.makedirs(os.path.join(root, d), exist_ok=True)
    os.chmod(os.path.join(root, "ro"), 0o555)
    for n, x in (("a.png", im), ("b.png", other)):
        with simfs._real_open(os.path.join(root, "in", n), "wb") as f:
            f.write(vl.png(x))
    for n in ("out/locked", "out/all")[:2 if one and ch.bool(0.5) else 1]:
        # an earlier image of that name
        with simfs._real_open(os.path.join(root, n + ext), "wb") as f:
            f.write(vl.png(im))
        os.chmod(os.path.join(root, n + ext), 0o444 if n == "out/locked" else 0o666)
    before = {r: x for r, x in simfs.snapshot(root).items() if r != "out/all" + ext}

    def body():
        import cv2
        from metcalcpy.compare_images import CompareImages
        real = cv2.imwrite
        cell = {"fault": None, "shown": 0}

        def imwrite(path, img, *a, **k):
            if cell["fault"] == "false":
                return False
            if cell["fault"] == "error":
                raise cv2.error("simulated write failure")
            return real(path, img, *a, **k)

        def imshow(*a):
            cell["shown"] += 1

        cv2.imwrite = imwrite
        cv2.imshow, cv2.waitKey = imshow, lambda *a: 0

        def make():
            return CompareImages("in/a.png", "in/b.png")
        # what the first save of a new comparison writes
        want = {}
        for op in SAVES:
            getattr(make(), op)("out/want" + ext)
            want[op] = cv2.imread("out/want" + ext, cv2.IMREAD_UNCHANGED)
            os.unlink("out/want" + ext)
        c = make()
        m0 = c.get_mssim()
        sources = [n for n in ("image_1", "image_2") if hasattr(c, n)]
        before = {n: getattr(c, n).copy() for n in sources}
        res = []
        for k, (op, flt) in enumerate(steps):
            path = f"out/all{ext}" if one else f"out/{k}{ext}"
            if flt == "no_dir":
                path = f"nowhere/{k}{ext}"
            elif flt == "read_only_dir":
                path = f"ro/{k}{ext}"
            elif flt == "read_only_file":
                path = f"out/locked{ext}"
            elif flt == "bad_extension":
                path = f"out/{k}.what"
            cell["fault"] = flt if flt in ("false", "error") else None
            try:
                getattr(c, op)(path) if op in SAVES else getattr(c, op)(k % 2 == 0)
                r = "ok"
            except SystemExit:
                raise
            except Exception as e:
                r = type(e).__name__
            cell["fault"] = None
            px = None
            if op in SAVES and flt is None and r == "ok":
                got = cv2.imread(path, cv2.IMREAD_UNCHANGED)
                px = got is not None and got.shape == want[op].shape \
                    and bool((got == want[op]).all())
            same = c.get_mssim() == m0 and all(
                bool((getattr(c, n) == before[n]).all()) for n in sources)
            res.append((op, flt, r, px, same))
        return m0, res

    out = host.run_process(body, root)
    os.chmod(os.path.join(root, "ro"), 0o777)
    if out.status == "hang":
        raise Violation("hang", "image comparison never ends")
    ctx.log("steps", how, size, ext, steps, out.brief(), out.value)
    if out.status != "ok":
        raise Violation("first save fails", f"{out!r} {out.trace[-600:]}")
    m0, res = out.value
    for op, flt in steps:
        if flt:
            ctx.fault("imwrite_" + flt)
    ctx.count("saves", sum(1 for op, _ in steps if op in SAVES))
    ctx.nontrivial = len(steps) > 1
    ctx.state(how, ext, steps)
    ctx.sample = {"images": how, "steps": steps, "results": [r[2] for r in res]}
    if (m0 == 1.0) != (how == "same") and how in ("same", "other", "pixel"):
        raise Violation("wrong similarity index", f"{m0} for {how}")
    for k, (op, flt, r, px, same) in enumerate(res):
        what = f"step {k + 1}: {op} after {[s[:2] for s in steps[:k]]}"
        if flt is None:
            if r != "ok":
                raise Violation("save fails", f"{what}: {r}")
            if px is False:
                raise Violation("other pixels than the first save", what)
        elif r == "ok":
            raise Violation("write failure not reported", f"{what} with {flt}")
        if not same:
            raise Violation("sources or index changed", what)
    snap = simfs.snapshot(root)
    for rel, data in before.items():
        if snap.get(rel, 0) != data:
            raise Violation("file changed", rel)
