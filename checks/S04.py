import _boot
from report import main
import symcheck
main("S04", 'Expressions denote and evaluate to the operations they are built from', 'every builder, evaluation route, indicator and opposite test is interpreted abstractly on every root operator; the tree built must denote the named operation, the value computed must be the operator applied to the values of the subtrees (induction hypothesis), the indicator must have the sign of the predicate', lambda tier: symcheck.decide_rules(['build', 'evaluate', 'indicator', 'opposite']), floor=250,
     assumptions=["the numbers stored in the tree behave as the real numbers they stand for (their arithmetic is the subject of N01-N07 and E01)", "identities between the derived closed-form terms are decided by evaluation at sample points of their free symbols on every path"],
     trusted=["operator meanings in lib/symrun.py (opsem, dsem)"])
