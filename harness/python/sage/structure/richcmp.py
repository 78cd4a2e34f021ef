op_LT, op_LE, op_EQ, op_NE, op_GT, op_GE = range(6)


def rich_to_bool(op, c):
    return [c < 0, c <= 0, c == 0, c != 0, c > 0, c >= 0][op]


def rich_to_bool_sgn(op, c):
    return rich_to_bool(op, (c > 0) - (c < 0))


def richcmp(a, b, op):
    return [lambda: a < b, lambda: a <= b, lambda: a == b, lambda: a != b, lambda: a > b, lambda: a >= b][op]()
