"""Which specification models accompany each property's trace validation."""

ASSUMPTIONS = [
    "exact within the stated numeric tolerances (about 1e-9 relative in double, 2e-5 in single precision)",
    "shapes and potentials outside the explored bounds are not judged",
]


def models(pid, tier):
    deep = tier == "thorough"
    out = []
    for m in MODELS.get(pid, []):
        m = dict(m)
        name = m.pop("cfg", m["module"])
        m["cfg"] = name + ("Deep.cfg" if deep and not m.get("violates") else ".cfg")
        out.append(m)
    return out


def generators(pid, tier):
    deep = tier == "thorough"
    out = []
    for g in GENERATORS.get(pid, []):
        g = dict(g)
        g["cfg"] = g.get("cfg", g["module"]) + ("Deep.cfg" if deep else ".cfg")
        g["extra"] = g.get(tier, [])
        out.append(g)
    return out


GENERATORS = {
    "C09": [dict(module="Gen", env="STRUCTS")],
    "C10": [dict(module="Gen", env="STRUCTS")],
    "C13": [dict(module="Session", env="HISTORIES", stdout=True, quick=["-simulate", "num=64", "-depth", "18", "-seed", "SEED"],
                 thorough=["-simulate", "num=400", "-depth", "32", "-seed", "SEED"]),
            dict(module="Session", cfg="SessionKin", env="KINDRED", stdout=True, quick=["-simulate", "num=40", "-depth", "18", "-seed", "SEED"],
                 thorough=["-simulate", "num=300", "-depth", "32", "-seed", "SEED"]),
            dict(module="Session", cfg="SessionSeq", env="SEQUENCES", stdout=True, quick=["-simulate", "num=48", "-depth", "18", "-seed", "SEED"],
                 thorough=["-simulate", "num=300", "-depth", "32", "-seed", "SEED"])],
    "C23": [dict(module="ArgsGen", env="REQUESTS")],
    "C27": [dict(module="Gen", env="STRUCTS")],
}

def good(module, cfg=None):
    return dict(module=module, cfg=cfg or module)


def slip(module, cfg):
    """A deliberately broken variant of the design that TLC must refute."""
    return dict(module=module, cfg=cfg, violates=True)


SCAN = [good("Scan"), slip("Scan", "ScanOrder"), slip("Scan", "ScanMask")]
EISNER = [good("Eisner"), slip("Eisner", "EisnerMirror"), slip("Eisner", "EisnerRoot")]
CHART = [good("SpanChart"), slip("SpanChart", "SpanChartSlice"), slip("SpanChart", "SpanChartTwice")]
DRAW = [good("Draw"), slip("Draw", "DrawRules"), slip("Draw", "DrawCount")]

MODELS = {
    "C01": [good("RefCheck")] + SCAN + EISNER + CHART,
    "C02": [good("Derive", "DeriveBest"), good("Grammar", "GrammarBest")],
    "C03": [good("Derive", "DerivePosterior"), good("Grammar", "GrammarUses"), slip("Grammar", "GrammarOnce")],
    "C04": SCAN,
    "C05": [good("Rows"), slip("Rows", "RowsSwap"), slip("Rows", "RowsFirst")],
    "C06": [good("Derive", "DeriveBest"), good("Grammar", "GrammarBest")],
    "C07": [good("Derive", "DeriveExpect"), slip("Derive", "DeriveDualSlip"), good("Grammar", "GrammarMean"), slip("Grammar", "GrammarRoot")],
    "C08": DRAW,
    "C09": [good("Derive", "DeriveNormal"), good("Grammar", "GrammarEvents"), slip("Grammar", "GrammarSlip")],
    "C10": [good("ConvertCheck")],
    "C11": [good("AdapterCheck")],
    "C12": [good("RefCheck")],
    "C13": [good("Session", "SessionPure"), slip("Session", "SessionLeaky")],
    "C14": [good("BeamCheck"), slip("BeamCheck", "BeamSlip"), good("Rows"), slip("Rows", "RowsSlot")],
    "C15": [good("SeqLaw"), slip("SeqLaw", "SeqLawLate"), slip("SeqLaw", "SeqLawJoint")],
    "C24": [good("SeqLaw"), slip("SeqLaw", "SeqLawHot")],
    "C16": [good("Laws"), slip("Laws", "LawsPair"), slip("Laws", "LawsNeg")],
    "C17": [good("Shard"), slip("Shard", "ShardOverlap"), slip("Shard", "ShardTail"), slip("Shard", "ShardReduce")],
    "C18": [good("Derive", "DerivePairs"), slip("Derive", "DerivePairsSlip"), good("Grammar", "GrammarUses")],
    "C25": [good("Derive", "DeriveBest"), good("Grammar", "GrammarBest")],
    "C26": [good("Derive", "DeriveSlopes"), slip("Derive", "DeriveSlopeSlip")],
    "C19": [good("Simplex"), slip("Simplex", "SimplexCount"), slip("Simplex", "SimplexSlope")],
    "C20": [good("Derive", "DeriveCount")],
    "C27": [good("GraphCheck"), slip("GraphCheck", "GraphLoose"), slip("GraphCheck", "GraphMerged")],
    "C21": DRAW,
    "C22": [good("Derive", "DeriveOffsets"), slip("Derive", "DeriveOffsetSlip")],
}
