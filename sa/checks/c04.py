"""C04: every column of a line fills exactly its own field."""
import checks.c03


def run(F, rep):
    checks.c03.run(F, rep, "C04",
                   "abstract interpretation of every line parser on a line with all its columns and on the line cut after "
                   "each column, every column being an arbitrary text: on each accepted path every field of the value must "
                   "be the reading of its own column (origin of the value followed through the parser), and a field whose "
                   "column is absent must not be filled from another column")
