import _boot
from report import main
import symcheck
main("S03", 'Structural queries on expressions are never wrongly affirmative', 'every query is interpreted abstractly on every root operator with opaque subtrees about which the recursive answers are the induction hypothesis; each path answering yes must force the denoted function to have the claimed form in a polynomial-degree domain', lambda tier: symcheck.decide_rules(['query']), floor=100,
     assumptions=["the numbers stored in the tree behave as the real numbers they stand for (their arithmetic is the subject of N01-N07 and E01)", "identities between the derived closed-form terms are decided by evaluation at sample points of their free symbols on every path"],
     trusted=["operator meanings in lib/symrun.py (opsem, dsem)"])
