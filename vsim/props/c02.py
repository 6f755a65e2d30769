from .lazy import LazyProp


class P(LazyProp):
    id = "C02"
    families = ("interpolation",)
    runs = {"quick": 4500, "thorough": 40000}


PROP = P()
