import _boot
from report import main
import georun
main("G01", "Interval and box predicates and operations have their set meaning", "every predicate, set operation, query and conversion of intervals and boxes is summarised over opaque ends and the summary must agree with the set-theoretic meaning on the weak orderings of the ends (all of them for two intervals)", georun.decide(150), floor=300)
