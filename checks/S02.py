import _boot
from report import main
import symcheck
main("S02", 'Rewriting a symbolic expression preserves its value', "every rewriting entry point is interpreted abstractly on every root operator with opaque subtrees; recursive calls are replaced by the induction hypothesis; on every path the result must denote the value of the original; 'identical' may answer true only for trees of equal value; the lookup order is a strict total order on tree contents", lambda tier: symcheck.decide_rules(['simplify', 'substitute', 'identical', 'order', 'common subexpressions', 'formula']), floor=200,
     assumptions=["the numbers stored in the tree behave as the real numbers they stand for (their arithmetic is the subject of N01-N07 and E01)", "identities between the derived closed-form terms are decided by evaluation at sample points of their free symbols on every path"],
     trusted=["operator meanings in lib/symrun.py (opsem, dsem)"])
