from .lazy import LazyProp


class P(LazyProp):
    id = "C03"
    families = ("meteorology",)
    runs = {"quick": 4500, "thorough": 40000}


PROP = P()
