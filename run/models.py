"""Design-level specifications model checked beside the conformance runs.
(module, configuration, expected TLC exit code): 0 it holds, 12 (invariant) or 13 (property) the variant that
reproduces a known mistake must be rejected, which shows that the model can tell."""
from concurrent.futures import ThreadPoolExecutor
import vlib

ITER = [("IterImpl", "IterImpl", 0), ("IterImpl", "IterImplBase", 12)]
CHUNKS = [("ChunksImpl", "ChunksImpl", 0), ("ChunksImpl", "ChunksImplBase", 13)]
VIEW = [("ViewImpl", "ViewImpl", 0), ("ViewImpl", "ViewImplFull", 12), ("ViewImpl", "ViewImplFullR", 13), ("ViewImpl", "ViewImplPlainR", 13)]
COLLECT = [("CollectImpl", "CollectImpl", 0), ("CollectImpl", "CollectImplBase", 12)]
LAWS = [("RowColLaws", "RowColLaws", 0)]
DETS = [("GaussCheck", "Const", 0)]

QUICK = {
    "C01": ITER,
    "C02": ITER + CHUNKS,
    "C03": VIEW,
    "C04": COLLECT,
    "C05": COLLECT,
    "C08": LAWS,
    "C09": LAWS,
    "C10": LAWS,
    "C11": LAWS,
    "C12": DETS + [("LinImpl", "LinImplDet", 0), ("LinImpl", "LinImplNoFall", 12)],
    "C13": DETS + [("LinImpl", "LinImplInv", 0), ("LinImpl", "LinImplNoSwap", 12)],
    "C16": [("RenderLaws", "Const", 0)],
}
DEEP = {
    "C12": [("LinImpl", "LinImplDetDeep", 0)],
    "C13": [("LinImpl", "LinImplInvDeep", 0)],
}


class Models:
    def __init__(self, ctx):
        todo = QUICK.get(ctx.pid, []) + (DEEP.get(ctx.pid, []) if vlib.DEEP else [])
        self.ex = ThreadPoolExecutor(2)
        self.runs = [self.ex.submit(vlib.model_check, ctx, m, c + ".cfg", e, None, 2) for m, c, e in todo]

    def wait(self):
        """a specification that does not check is a broken check, not a verdict on the code"""
        try:
            for r in self.runs:
                r.result()
        finally:
            self.ex.shutdown(wait=True, cancel_futures=True)
