import _boot
from report import main
import tmcheck
main("T01", "Taylor models enclose the functions they stand for", "each operation on Taylor models is executed once on an abstract model whose polynomial is an unknown atom; loops over the terms are summarised by one iteration from an arbitrary state, whose change of the represented polynomial must be covered by what it adds to an error accumulator; at each return the represented polynomial must differ from the exact operation on the enclosed functions by no more than the recorded error", tmcheck.decide, floor=40,
     assumptions=["the order on multi-indices is total and a term vector lists each index once when it is merged", "the magnitude of every monomial is at most 1 (unit box domain)", "numbers handed to the error accumulator stay finite"], trusted=["abstract semantics of expansions, iterators and multi-indices in lib/tmrun.py", "floating-point rounding model"])
