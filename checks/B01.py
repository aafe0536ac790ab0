import _boot
from report import main
import treerun
main("B01", "Operations on subdivision trees are the set operations", "every operation on binary subdivision trees is summarised over a tree that is a leaf or a pair of opaque subtrees; calls on subtrees are replaced by the specification (structural induction) and every path's result must denote the specified set, be a well-formed tree and share or leak into no other; alarms only with concrete sets for the subtrees that refute it", treerun.decide(300), floor=20, assumptions=["the trees given are well formed (inner nodes have two subtrees and are unmarked)", "recursive calls terminate"], trusted=["the clang-based extraction and the evaluation rules of lib/engine.py"])
