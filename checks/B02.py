import _boot
from report import main
import pavrun
main("B02", "Grid pavings: set operations and approximations are exact", "every set operation, box query and approximation step on grid pavings is summarised over pavings whose trees are leaves or pairs of opaque subtrees, at every combination of primary-cell extents and short root paths; calls on subtrees are replaced by their specification (induction) and every path's result must denote the specified set of cells; alarms only with concrete sets that refute it", pavrun.decide(12), floor=15, assumptions=["subtrees are well formed", "sets given for approximation answer separated/covers/overlaps soundly", "extents up to 2 (one dimension) and 1 (two dimensions), root paths up to two steps"], trusted=["the clang-based extraction and the evaluation rules of lib/engine.py", "the geometry of primary cells (paths between extents) as stated in lib/pavrun.py"])
