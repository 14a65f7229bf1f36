"""C06: times of format versions 3 and 4 are shifted by 24 ms, once, and only those."""
import checks.c03


def run(F, rep):
    checks.c03.run(F, rep, "C06",
                   "abstract interpretation of every line parser at versions 3 and 4: on each accepted path each time field "
                   "must be the reading of its own column plus exactly 24 (unreadable decimals are kept as text); at the "
                   "versions 5-14 the same fields are the reading itself (decided by C04)")
