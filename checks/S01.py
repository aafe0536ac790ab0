import _boot
from report import main
import symcheck
main("S01", 'Symbolic differentiation gives the derivative', 'every differentiation entry point is interpreted abstractly on every root operator with opaque subtrees; recursive calls are replaced by the induction hypothesis; on every path the resulting tree must denote the chain-rule derivative of the operator', lambda tier: symcheck.decide_rules(['derivative']), floor=100,
     assumptions=["the numbers stored in the tree behave as the real numbers they stand for (their arithmetic is the subject of N01-N07 and E01)", "identities between the derived closed-form terms are decided by evaluation at sample points of their free symbols on every path"],
     trusted=["operator meanings in lib/symrun.py (opsem, dsem)"])
