"""Minimise a failing case: fewer requests, fewer faults, simpler timing."""
import copy
import time


def _list(case, get, put, test, end, least=0):
    """Remove chunks of a list while the case still fails."""
    n = max(1, len(get(case)) // 2)
    while True:
        k, hit = 0, False
        while k < len(get(case)):
            if time.time() > end:
                return case
            xs = get(case)
            if len(xs) - min(n, len(xs) - k) < least:
                k += n
                continue
            c = put(copy.deepcopy(case), k, min(len(xs), k + n))
            if test(c):
                case, hit = c, True
            else:
                k += n
        if n == 1 and not hit:
            return case
        if n > 1:
            n //= 2
        elif not hit:
            return case


def _drop_reqs(i):
    def f(c, lo, hi):
        sc = c["sc"]
        del sc["inst"][i]["reqs"][lo:hi]

        def m(a):
            return a if a < lo else (lo - 1 if a < hi else a - (hi - lo))
        for r in sc["inst"][i]["resets"]:
            r[0] = m(r[0])
        for e in sc["ext"]:
            if e[0] == i:
                e[1] = m(e[1])
        return c
    return f


def shrink(case, test, budget=20.0):
    end = time.time() + budget

    def attempt(f):
        nonlocal case
        if time.time() > end:
            return False
        c = copy.deepcopy(case)
        f(c)
        if c != case and test(c):
            case = c
            return True
        return False

    def dele(path):
        def f(c, lo, hi):
            x = c
            for p in path:
                x = x[p]
            del x[lo:hi]
            return c
        return f

    def at(path):
        def g(c):
            for p in path:
                c = c[p]
            return c
        return g

    if "ops" in case:
        return _list(case, at(["ops"]), dele(["ops"]), test, end)
    if "sc" not in case:
        return case
    n = len(case["sc"]["inst"])
    for _round in range(3):
        before = copy.deepcopy(case)
        for i in range(n):
            for k in ("rstall", "mstall", "lat", "resets"):
                attempt(lambda c: c["sc"]["inst"][i].__setitem__(k, []))
            attempt(lambda c: c["sc"]["inst"][i].__setitem__("noise", 0))
            for k in range(4):
                attempt(lambda c: c["sc"]["inst"][i]["loop"].__setitem__(k, 0))
            attempt(lambda c: [r.__setitem__(0, 0) for r in c["sc"]["inst"][i]["reqs"]])
        attempt(lambda c: c["sc"].__setitem__("ext", []))
        if "alt" in case:
            for k in ("rstall", "mstall", "lat"):
                attempt(lambda c: c["alt"].__setitem__(k, []))
            attempt(lambda c: c["alt"].__setitem__("gaps", [0] * 11))
            for k in range(4):
                attempt(lambda c: c["alt"]["loop"].__setitem__(k, 0))
        for i in range(n):
            case = _list(case, at(["sc", "inst", i, "reqs"]), _drop_reqs(i), test, end)
            for k in ("resets", "rstall", "mstall", "lat"):
                case = _list(case, at(["sc", "inst", i, k]), dele(["sc", "inst", i, k]), test, end)
        case = _list(case, at(["sc", "ext"]), dele(["sc", "ext"]), test, end)
        if "alt" in case:
            for k in ("rstall", "mstall", "lat"):
                case = _list(case, at(["alt", k]), dele(["alt", k]), test, end)
        for i in range(n):
            for k in ("rstall", "mstall"):
                for j in range(len(case["sc"]["inst"][i][k])):
                    attempt(lambda c: c["sc"]["inst"][i][k][j].__setitem__(1, 1))
            for j in range(len(case["sc"]["inst"][i]["reqs"])):
                attempt(lambda c: c["sc"]["inst"][i]["reqs"][j].__setitem__(0, 0))
                attempt(lambda c: c["sc"]["inst"][i]["reqs"][j].__setitem__(2, 0))
            attempt(lambda c: c["sc"]["inst"][i].__setitem__("lat", c["sc"]["inst"][i]["lat"][:1]))
        if case == before or time.time() > end:
            break
    return case
