import _boot
from report import main
import numrun, ivlrun
main("G02", "Interval extensions of functions enclose every value", "every arithmetic and elementary operation on over-approximating intervals is summarised over opaque ends and its result must, by the rounding/monotonicity rules, contain the operation of every pair of represented values; alarms only when the summary is refuted on a representative argument", ivlrun.decide(1500), floor=60, assumptions=numrun.ASSUME, trusted=numrun.TRUST)
