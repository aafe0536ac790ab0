import _boot
from report import main
import linrun
main("A01", "Linear algebra computes the operations it names, rigorously for enclosures", "every wrapper expression over vectors, covectors, matrices, transposes, rows, columns, ranges, diagonal, symmetric and pivot matrices is summarised through the library's expression templates, views, norms, decompositions and solvers over opaque entries (sizes up to 3 or 4); the terms of the result must be the operation of linear algebra on every path; whatever is read out of an enclosure other than by an operation is an arbitrary number; alarms only with entries which refute", linrun.decide, floor=120, assumptions=["arithmetic on the entries is as N01-N07 and E01 decide"], trusted=["the clang-based extraction and the evaluation rules of lib/engine.py"])
