"""The registry of checked properties."""

from .scenario import Prop
from .cases import search as S

# runs of the quick tier; the thorough tier makes THOROUGH times as many
QUICK = dict(
    C01=9000, C02=12000, C03=13000, C04=56000, C05=51000,
    C06=16000, C07=30000, C08=46000, C09=35000, C10=15000,
    C11=40000, C12=27000, C13=37000, C14=13000, C15=6100,
    C16=3100, C17=11000, C18=13000, C19=4100, C20=40000,
    C21=40000, C22=25000, C23=23000, C24=30000, C25=40000,
    C26=30000, C27=12000, C28=37000, C29=40000, C30=32000,
    C31=3700, C32=60000, C33=30000, C34=700, C35=13000,
    C36=2000, C37=37000, C38=26000, C39=1200, C40=8000, C41=450, C42=6500,
    C43=800)
THOROUGH = 12

PROPS = {}


def prop(id, pool, **kw):
    n = QUICK.get(id, 2000)
    PROPS[id] = Prop(id, pool, runs=(n, THOROUGH * n), **kw)


prop("C04", [(3, S.DfsSearch), (3, S.DfsOrders), (2, S.DfsHandlers),
             (3, S.BfsLevels)])
prop("C05", [(3, S.StrongComponents), (2, S.Condense), (3, S.TopOrder),
             (2, S.Closure), (2, S.ReachQueries), (2, S.ReachBuild)])
prop("C06", [(3, S.TwoSat)])
prop("C37", [(3, S.GraphTools)])
from .cases import undirected as U

prop("C07", [(3, U.Biconnected), (3, U.StOrientation), (3, U.TwoColour),
             (2, U.OddCore), (1, S.GraphTools)])
prop("C08", [(3, U.BipMatching), (2, U.Imperfect), (3, U.PathCover),
             (2, U.Antichain)])
prop("C09", [(3, U.GeneralMatching)])
prop("C10", [(3, U.CubicHam)])
prop("C11", [(3, U.SpanningTree)])
prop("C12", [(3, U.Degenerate), (2, U.Triangles)])
prop("C13", [(3, U.LexBfs), (3, U.Chordal)])
from .cases import structures as D

prop("C20", [(3, D.HeapHistory)])
prop("C21", [(3, D.BucketHistory)])
prop("C22", [(3, D.UnionHistory), (2, D.UnionQueries)])
prop("C23", [(3, D.SequenceHistory), (4, D.OrderedHistory),
             (1, D.OrderedHotspot)])
prop("C24", [(3, D.PartitionHistory)])
prop("C25", [(3, D.SortedHistory)])
prop("C26", [(3, D.FrequencyStream)])
from .cases import ranges as R

prop("C18", [(2, R.RangeMinima), (2, R.RangeBuild), (2, R.TreeLca),
             (2, R.TreeLcaBuild), (2, R.OfflineAncestors), (1, R.NotATree)])
prop("C35", [(3, R.OnlineMinima), (2, R.ColumnMinima), (2, R.WrapText)])
from .cases import streams as T

prop("C27", [(3, T.NumberStreams), (2, T.Moebius)])
prop("C28", [(4, T.PermutationStreams), (1, T.PermutationFailure)])
prop("C29", [(4, T.PartitionStreams), (1, T.Conjugates)])
prop("C30", [(3, T.LyndonStreams), (1, T.CountLyndon), (2, T.LyndonStrings)])
prop("C31", [(3, T.PointStreams)])
from .cases import advanced as V

prop("C14", [(3, V.Reduction)])
prop("C15", [(4, V.PartialCube), (2, V.Bitvectors), (1, V.BadMedium)])
prop("C17", [(3, V.Nonrepetitive)])
prop("C19", [(3, V.XyzGraph)])
from .cases import automata as A

prop("C16", [(4, A.Languages), (2, A.Table), (1, A.Malformed),
             (1, A.Printing)])
from .cases import formats as F

prop("C32", [(5, F.ReadGraph), (2, F.Refused), (1, F.NothingToRead)])
prop("C33", [(3, F.Drawing)])
from .cases import puzzles as Z

prop("C34", [(3, Z.Solve), (5, Z.Marks), (3, Z.AllSolutions), (1, Z.Grids),
             (1, Z.Permuted)])
prop("C41", [(20, Z.Console9x9), (1, Z.Generated)])
prop("C43", [(50, Z.Program), (1, Z.Generating)])
from .cases import shapes as H

prop("C38", [(3, H.CommonSubsequence), (3, H.IncreasingSubsequence)])
prop("C39", [(3, H.Packing)])
prop("C40", [(3, H.NamedGraph), (2, H.GraphFamilies)])
from .cases import deep as Q

prop("C36", [(2, Q.DeepDirected), (1, Q.DeepReach), (2, Q.DeepUndirected),
             (2, Q.DeepTree), (2, Q.DeepMatching), (2, Q.DeepGeneral),
             (1, Q.DeepBlossom),
             (1, Q.DeepLogic), (1, Q.DeepUnion), (1, Q.DeepStreams)],
     modes=[(1, "solo")])

from .cases import cost as G

prop("C42", [(6, G.GraphGrowth), (2, G.UnionGrowth), (3, G.QueryGrowth),
             (4, G.BuildGrowth), (2, G.StreamGrowth), (1, G.AverageItem),
             (1, G.WordGrowth)], modes=[(1, "solo")])

# the promises that run across the whole library
_slow = {Z.Solve: 1, Z.AllSolutions: 1, Z.Marks: 1, Z.Program: 1,
         Z.Generated: 0, Z.Generating: 0, T.PointStreams: 1, H.Packing: 1,
         T.NumberStreams: 4}
_seen = []
for _p in list(PROPS.values()):
    if _p.id not in ("C36", "C42"):
        for _w, _c in _p.pool:
            if _c not in _seen:
                _seen.append(_c)


def _broad(mode):
    return [(_slow.get(c, 8), c) for c in _seen
            if mode in c.modes and _slow.get(c, 8)]


prop("C01", _broad("preempt"), modes=[(1, "preempt")], fault_rate=(1, 6),
     share=1, focus=3)
prop("C02", _broad("solo"), modes=[(8, "solo"), (1, "coop"), (2, "preempt")],
     fault_rate=(9, 10), faults=["interrupt", "memory", "callback", "stack"])
prop("C03", [(w, c) for w, c in _broad("coop")], modes=[(1, "coop")],
     fault_rate=(1, 2), faults=["close", "callback"], share=1, focus=3)
