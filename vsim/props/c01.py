from .lazy import LazyProp


class P(LazyProp):
    id = "C01"
    families = ("climatologies",)
    runs = {"quick": 2000, "thorough": 40000}


PROP = P()
