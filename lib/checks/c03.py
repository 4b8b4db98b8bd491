"""C03: a refused build leaves the output directory as it was (Pipeline.tla)."""
import pipeline
from checks import c04

LEVEL = "model_checking"


def run(ctx):
    ctx.tlc("MC_Pipeline", workers=8)
    num = 1600 if ctx.thorough else 260
    hs = pipeline.histories(ctx, num, cfg="MC_PipelineSim")
    c04.check(ctx, hs, 3, lambda e: e[0].startswith("refused") or e[:1] + e[2:] == ("verdict", "accept") or
              e[0] == "verdict" and e[2] in ("crash", "hang"))
