import _boot
from report import main
import numrun
main("N03", "One-sided bounds and errors stay on their side", "path-partitioned value numbering of every instantiated operation, then rounding-direction/monotonicity/sign rules for: every exact result of represented arguments is represented by the returned object; alarms only when the summary is refuted on a representative argument", numrun.decide({'oneside'}, 1500), floor=350, assumptions=numrun.ASSUME, trusted=numrun.TRUST)
