"""programs with known answers for pyvc/selftest.py: the function, the claim about it, whether the claim is true"""
import numpy as np


def absolute(x):
    if x < 0:
        return -x
    return x


def fill(n):
    a = np.zeros(n)
    for i in range(n):
        a[i] = 2.0 * i
    return a


def shifted(a):
    b = a.copy()
    for i in range(len(a) - 1):
        b[i] = a[i + 1]
    return b


def alias(a):
    b = a
    b[0] = 7.0
    return a


def view(a):
    b = a[1:]
    b[0] = 7.0
    return a


def copied(a):
    b = a[1:].copy()
    b[0] = 7.0
    return a


def fancy(a):
    b = a[[0, 1]]
    b[0] = 7.0
    return a


def masked(a):
    a[a < 0] = 0.0
    return a


def quotient(a, b):
    return a / b


def caught(d, k):
    try:
        return d[k]
    except KeyError:
        return -1


def late(n):
    out = []
    for i in range(n):
        out.append(i * i)
    return np.array(out)


def default(x, acc=[]):
    acc.append(x)
    return len(acc)


def swap(a):
    a[0], a[1] = a[1], a[0]
    return a


def rows_swapped(a):
    a[0], a[1] = a[1].copy(), a[0].copy()
    return a


def rows_lost(a):
    a[0], a[1] = a[1], a[0]
    return a


def prefix(a):
    return np.cumsum(a)


def closure(n):
    fs = [lambda: k for k in range(3)]
    return fs[0]()


def floor(x):
    return x // 2


def rounded(x):
    return int(x)


def finish(n):
    s = 0
    for i in range(n):
        s += i
    return s


def early(a):
    for x in a:
        if x < 0:
            return True
    return False
