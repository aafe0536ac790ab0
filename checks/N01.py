import _boot
from report import main
import numrun
main("N01", "Interval (bounds) arithmetic encloses the exact result", "path-partitioned value numbering of every instantiated operation, then rounding-direction/monotonicity/sign rules for: every exact result of represented arguments is represented by the returned object; alarms only when the summary is refuted on a representative argument", numrun.decide({'bounds'}, 1500), floor=300, assumptions=numrun.ASSUME, trusted=numrun.TRUST)
