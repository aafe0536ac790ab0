import _boot
from report import main
import difrun
main("D01", "Differentials and power series carry the Taylor coefficients", "every wrapper expression over univariate and multivariate differentials (general, first and second order), graded series and the series of elementary functions is summarised through the library code over opaque coefficients, for small numbers of arguments and degrees and for dense and sparse patterns of stored terms; every coefficient of the result must be the Taylor coefficient; alarms only with coefficients which refute", difrun.decide, floor=300, assumptions=["arithmetic and elementary functions of the coefficients are as N01-N07 and E01 decide", "an Expansion is a finite map from multi-indices kept in its order (sorting and removal of zero terms by contract)"], trusted=["the clang-based extraction and the evaluation rules of lib/engine.py"])
