"""C28 cutout_subtract: footprint arithmetic against a per-pixel loop."""
import numpy as np
import petrofit as pf

RULE = ("Random images and targets (odd/even, larger than the image, float/int types, views), positions inside, at every edge and corner, and far outside; "
        "each call recomputed pixel by pixel. Non-trivial: distinct (target parity, overlap situation, type).")
PLAN = {"quick": {"cut": 4500, "history": 180}, "thorough": {"cut": 40000, "history": 2000}}
NEED = ["partial", "inside", "outside"]
ASSUME = ["Unsigned images are not subtracted below zero."]


def want_of(image, target, x, y):
    out = np.array(image, dtype=np.result_type(image.dtype, target.dtype))
    dy, dx = target.shape
    touched = 0
    for j in range(dy):
        for i in range(dx):
            r, c = y + j - dy // 2, x + i - dx // 2
            if 0 <= r < out.shape[0] and 0 <= c < out.shape[1]:
                out[r, c] = out[r, c] - target[j, i]
                touched += 1
    return out, touched


def same(got, want, image):
    """Equal, or equal to the rounding of a single-precision image kept in its own type."""
    if np.array_equal(got, want, equal_nan=True):
        return True
    return got.dtype == image.dtype and got.dtype.kind == "f" and np.allclose(got, want, rtol=1e-6, atol=1e-6, equal_nan=True)


def one(M, image, target, x, y):
    k1, k2 = image.copy(), target.copy()
    got = pf.cutout_subtract(image, target, x, y)
    want, n = want_of(k1, k2, int(x), int(y))
    where = "outside" if n == 0 else ("inside" if n == target.size else "partial")
    M.event(where)
    M.check(type(got) is np.ndarray and got.shape == want.shape and same(got, want, image), "footprint",
            "result is not the image minus the target on its footprint", image=image.shape, target=target.shape, x=int(x), y=int(y), where=where)
    M.check(np.array_equal(image, k1, equal_nan=True) and np.array_equal(target, k2, equal_nan=True), "inputs", "image or target changed")
    M.check(not np.shares_memory(got, image) and not np.shares_memory(got, target), "copy", "result shares memory with an input")
    return got, where


def run_cut(M, rng, case):
    ny, nx = int(rng.integers(1, 14)), int(rng.integers(1, 14))
    dy, dx = int(rng.integers(1, 18)), int(rng.integers(1, 18))
    kind = ["f8", "f4", "i8", "nan", "mixed", "mixed"][int(rng.integers(6))]
    image, target = rng.normal(0, 5, (ny, nx)), rng.normal(0, 5, (dy, dx))
    if kind == "f4":
        image, target = image.astype("f4"), target.astype("f4")
    elif kind == "i8":
        image, target = (image * 10).astype(int), (target * 10).astype(int)
    elif kind == "mixed":                    # e.g. integer counts minus a model
        a, b = [str(v) for v in rng.choice(["i2", ">i2", "i4", "i8", "f4", ">f4", "f8", ">f8"], 2)]
        image, target = np.round(image * 10).astype(a), (target * 10).astype(b)
        kind = a + "-" + b
    elif kind == "nan":
        target[int(rng.integers(dy)), int(rng.integers(dx))] = np.nan
    if rng.random() < .2:
        image = image.T
    spread = int(rng.choice([0, 3, 12, 40]))
    x = int(rng.integers(-spread, image.shape[1] + spread))
    y = int(rng.integers(-spread, image.shape[0] + spread))
    if rng.random() < .3:
        x, y = np.int64(x), np.int32(y)
    got, where = one(M, image, target, x, y)
    M.nontrivial(dy % 2, dx % 2, where, kind)
    M.sample(image=image.shape, target=target.shape, x=int(x), y=int(y), where=where)


def run_history(M, rng, case):
    """Removing several cutouts one after the other from the same arrays; subtracting a cutout of itself leaves zeros."""
    image = rng.normal(0, 5, (int(rng.integers(8, 40)), int(rng.integers(8, 40))))
    keep, work = image.copy(), image
    for _ in range(5):
        dy, dx = int(rng.integers(1, 9)), int(rng.integers(1, 9))
        y, x = int(rng.integers(image.shape[0])), int(rng.integers(image.shape[1]))
        work, _w = one(M, work, rng.normal(0, 1, (dy, dx)), x, y)
    M.check(np.array_equal(image, keep), "inputs", "first image of the chain changed")
    dy, dx = int(rng.integers(1, 7)), int(rng.integers(1, 7))
    y0, x0 = int(rng.integers(image.shape[0] - dy + 1)), int(rng.integers(image.shape[1] - dx + 1))
    y, x = y0 + dy // 2, x0 + dx // 2
    z = pf.cutout_subtract(image, image[y0:y0 + dy, x0:x0 + dx], x, y)
    M.check(np.all(z[y0:y0 + dy, x0:x0 + dx] == 0) and np.array_equal(image, keep), "self", "subtracting the image's own cutout does not leave zeros")
    M.nontrivial("chain", dy, dx)
