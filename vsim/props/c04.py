from .lazy import LazyProp


class P(LazyProp):
    id = "C04"
    families = ("stats", "spherical", "gradient", "fourier")
    weights = {f"fourier_{k}": 0.25 for k in ("filter", "low_pass", "high_pass", "band_pass", "band_block")} | {"nmse": 1.5, "pearson_r": 2}
    runs = {"quick": 4500, "thorough": 40000}


PROP = P()
