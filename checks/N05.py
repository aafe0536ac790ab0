import _boot
from report import main
import numrun
main("N05", "Comparisons of inexact numbers never give a wrong definite answer", "path-partitioned value numbering of every instantiated operation, then rounding-direction/monotonicity/sign rules for: every exact result of represented arguments is represented by the returned object; alarms only when the summary is refuted on a representative argument", numrun.decide({'cmp'}, 1500), floor=350, assumptions=numrun.ASSUME, trusted=numrun.TRUST)
