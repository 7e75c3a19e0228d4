"""Fill the numba cache in parallel: process k of n compiles every n-th kernel, nothing else.

Only a speed-up for cold runs. The check itself imports the unmodified code afterwards and compiles
whatever is missing.
"""

import os
import sys


def main(repo, k, n):
    import numba as nb

    njit, guv = nb.njit, nb.guvectorize
    count = [0]

    def mine():
        count[0] += 1
        return count[0] % n == k

    def my_njit(*a, **kw):
        if a and callable(a[0]):
            return njit(*a, **kw)
        return lambda f: njit(*a, **kw)(f) if mine() else njit(**kw)(f)

    def my_guv(*a, **kw):
        return lambda f: guv(*a, **kw)(f) if mine() else f

    nb.njit, nb.guvectorize = my_njit, my_guv
    sys.path.insert(0, repo)
    sys.stdout = open(os.devnull, 'w')
    import acoular  # noqa: F401


if __name__ == '__main__':
    try:
        main(sys.argv[1], int(sys.argv[2]), int(sys.argv[3]))
    except BaseException:  # noqa: BLE001
        pass
    os._exit(0)
