"""What each property's check runs."""
LEVEL = "model_checking"
ASSUME = ["values are compared as residues modulo 46337 of exactly representable numbers, or as interned bit patterns",
          "bounds: arrays of up to 6 axes and about 2500 elements, programs of up to 40 calls"]

VIEW = {"view", "reshape", "squeeze", "unsqueeze", "T", "transpose", "slice", "slice_along"}
TAGS = {"diag": ["C01", "C10"], "broadcast_to": ["C05"], "clone": ["C02"], "flatten": ["C02"], "astype": ["C16"], "eq": ["C16"], "debug": ["C16"],
        "value": ["C04", "C17"], "data_slice": ["C03"], "into_vec": ["C03"], "flatiter": ["C04"], "getidx": ["C04"], "iter": ["C04"], "setidx": ["C04", "C07"],
        "fill": ["C07"], "assign": ["C07"], "binop": ["C06"], "neg": ["C06"], "reduce": ["C08"], "einsum": ["C09"], "einsum_view": ["C09"],
        "mat": ["C10"], "trace": ["C10"], "new": ["C15"], "full": ["C15"], "arange": ["C15"], "linspace": ["C15"],
        "tnew": ["C15", "C18"], "trg": ["C12"], "tzero": ["C12"], "tback": ["C11"], "teq": ["C16"], "tdbg": ["C16"], "rand": ["C19"], "rend": ["C19"], "tfin": ["C14"],
        **{k: ["C18"] for k in ("tneg", "tbin", "tmat", "tview", "tval", "tdet", "tinto", "tget", "tafill")}}


def tags_of(ev):
    o = ev["op"]
    return ["C01"] if o in VIEW else TAGS.get(o, ["C14"])


def arr(n, nt=None, **kw):
    return {"models": [], "gens": [{"n": n, "nt": nt or n * 10}], **kw}


def ten(f, n, nt=None):
    return {"focus": "T-" + f, "trace": "GradTrace", "n": n, "nt": nt or n * 10}


def tens(f, n, nt=None, **kw):
    return {"models": [], "gens": [ten(f, n, nt)], **kw}


PLAN = {
    "C01": arr(10000), "C02": arr(10000), "C03": arr(10000), "C04": arr(12000), "C05": arr(7000), "C06": arr(7000), "C07": arr(9000),
    "C08": arr(8000), "C09": arr(6000), "C10": arr(8000), "C14": arr(9000), "C15": arr(9000), "C16": arr(9000), "C17": arr(10000),
    "C19": {"models": [], "gens": [{"trace": "RandomTrace", "n": 800, "nt": 8000, "chunk": 50}],
            "assume": ["equal probability is a statistical statement: tallies within 6.5 standard deviations are accepted",
                       "randint on floating-point element types only with bounds far below their precision; float ranges of a few ulps excluded (the rand crate does not terminate)"]},
    "C11": tens("C11", 16000), "C12": tens("C12", 16000), "C13": tens("C13", 16000), "C18": tens("C18", 16000),
}
for _p, _n in (("C14", 4000), ("C16", 3000), ("C17", 4000)):
    PLAN[_p]["gens"].append(ten(_p, _n))


def model(name, module, trace="RedstoneTrace", depth=1, mod=1, tdepth=None, tmod=None, **kw):
    return {"name": name, "module": module, "trace": trace, "env": {"MODE": name, "DEPTH": depth, "MOD": mod},
            "tenv": {"DEPTH": tdepth or depth, "MOD": tmod or 1}, **kw}


# every behaviour of these bounded models is explored by TLC and replayed on the library
ARR = {  # chains of view calls, then every call of the kind named
    "view": model("view", "MCArr", depth=2, mod=60, tdepth=2, tmod=4), "wrong": model("wrong", "MCArr", depth=2, mod=60, tdepth=2, tmod=4),
    "read": model("read", "MCArr", depth=2, mod=40, tdepth=2), "meta": model("meta", "MCArr", depth=2, mod=12, tdepth=3, tmod=40),
    "write": model("write", "MCArr", depth=2, mod=12, tdepth=3, tmod=60), "reduce": model("reduce", "MCArr", depth=2, mod=60, tdepth=2, tmod=3),
    # enumerated programs
    "bcast": model("bcast", "MCArr", tdepth=2, chunk=8), "binop": model("binop", "MCArr", tdepth=2, chunk=16), "mat": model("mat", "MCArr", tdepth=2, chunk=60),
    "einsum": model("einsum", "MCArr", tdepth=2, chunk=80), "nest": model("nest", "MCArr"), "range": model("range", "MCArr"),
    "own": model("own", "MCOwn", depth=3, tdepth=4, tmod=4),
    "graph": model("graph", "MCGrad", "GradTrace", depth=2, mod=60, tdepth=3, tmod=150), "life": model("life", "MCGrad", "GradTrace", depth=3, mod=8, tdepth=4, tmod=40),
    "rand": model("rand", "MCRandom", "RandomTrace", depth=2, tdepth=4, chunk=80),
    "refuse": model("refuse", "MCGrad", "GradTrace", depth=1, tdepth=2, tmod=20),
}
for _p, _m in {"C01": "view", "C02": "write own", "C03": "meta", "C04": "read", "C05": "bcast", "C06": "binop", "C07": "write", "C08": "reduce", "C09": "einsum",
               "C10": "mat", "C11": "graph", "C12": "life", "C13": "life graph", "C14": "own life", "C15": "nest range", "C16": "meta", "C17": "wrong refuse", "C18": "graph", "C19": "rand"}.items():
    PLAN[_p]["models"] = [ARR[k] for k in _m.split()]
