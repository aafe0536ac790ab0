import _boot
from report import main
import numrun
main("N04", "Conversions between number representations are outward", "path-partitioned value numbering of every instantiated operation, then rounding-direction/monotonicity/sign rules for: every exact result of represented arguments is represented by the returned object; alarms only when the summary is refuted on a representative argument", numrun.decide({'conv'}, 1500), floor=120, assumptions=numrun.ASSUME, trusted=numrun.TRUST)
