"""Independent high-precision oracle (mpmath, 60 digits) used to confirm a counterexample
before it is reported.  Not used to decide anything."""
import mpmath as mp
mp.mp.dps = 60


def hexf(s):
    """'%La' string -> exact mpf"""
    s = s.strip()
    neg = s.startswith('-')
    s = s.lstrip('+-')
    if s in ('inf', 'nan'):
        return mp.mpf(('-' if neg else '') + s)
    m, e = s[2:].split('p')
    if '.' in m:
        a, b = m.split('.')
    else:
        a, b = m, ''
    v = mp.mpf(int(a + b, 16)) * mp.mpf(2) ** (int(e) - 4 * len(b))
    return -v if neg else v


def li(n, x, y):
    """Li_n(x + i y); on the cut (x > 1, y == 0) the value below the cut"""
    z = mp.mpc(x, y)
    if z == 0:
        return mp.mpc(0)
    if n <= 0:
        if n == 0:
            return z / (1 - z)
        # Li_{-m}(z) = sum_k k! S(m+1,k+1) (-1/(1-z))^(k+1) (-1)^(m+1)
        m = -n
        S = [[0] * (m + 3) for _ in range(m + 3)]
        S[0][0] = 1
        for a in range(1, m + 2):
            for b in range(1, a + 1):
                S[a][b] = b * S[a - 1][b] + S[a - 1][b - 1]
        with mp.workdps(60 + 4 * m + int(abs(mp.log10(abs(z)))) * (m + 2)):
            w = -1 / (1 - z)
            s = mp.mpc(0)
            for k in range(m + 1):
                s += mp.factorial(k) * S[m + 1][k + 1] * w ** (k + 1)
            return +(s * (-1) ** (m + 1))
    if n >= 200:        # |z| <= 2^(n/3): the first terms of the series are enough
        n = min(n, 3000)
        return z + z * z / mp.mpf(2) ** n + z ** 3 / mp.mpf(3) ** n + z ** 4 / mp.mpf(4) ** n
    if z == 1:
        return mp.mpc(mp.zeta(n))
    if abs(z) <= mp.mpf('0.5'):
        s, p, k = mp.mpc(0), z, 1
        while abs(p) > mp.mpf(10) ** -70 * abs(z):
            s += p / mp.mpf(k) ** n
            p *= z
            k += 1
        return s
    if abs(z) > 4:
        # inversion; log(-z) continuous across the positive axis side
        t = li(n, *_cx(1 / z))
        if y == 0 and x > 1:
            L = mp.mpc(mp.log(x), mp.pi)      # log(-z) below the cut: arg(-x + i0)... value with Im Li < 0
        else:
            L = mp.log(-z)
        s = mp.mpc(0)
        for k in range(0, n // 2 + 1):
            j = n - 2 * k
            e = mp.mpf(1) / 2 if k == 0 else mp.altzeta(2 * k)
            s += e * L ** j / mp.factorial(j)
        return -2 * s - (-1) ** n * t
    if y == 0 and x > 1:
        lz = mp.mpc(mp.log(x), 0)
        ml = mp.mpc(mp.log(mp.log(x)), mp.pi)  # log(-log z) below the cut
    else:
        lz = mp.log(z)
        ml = mp.log(-lz)
    s, p = mp.mpc(0), mp.mpc(1)
    k = 0
    while True:
        if k == n - 1:
            t = p * (mp.harmonic(n - 1) - ml)
        else:
            t = p * mp.zeta(n - k)
        s += t
        if k > n + 3 and t != 0 and abs(t) < mp.mpf(10) ** -70 * abs(s):
            break
        k += 1
        p *= lz / k
        if k > 400 + n:
            break
    return s


def _cx(z):
    return z.real, z.imag


def clsl(kind, n, x):
    th = mp.mpf(x)
    twopi = 2 * mp.pi
    with mp.workdps(90):
        th = th - 2 * mp.pi * mp.floor(th / (2 * mp.pi))
        if th > mp.pi:
            th -= 2 * mp.pi
    sine = (kind == 'cl') == (n % 2 == 0)
    if th == 0:
        if sine:
            return mp.mpf(0)
        return mp.inf if n == 1 else mp.zeta(n)
    if n >= 200:
        n = min(n, 3000)
        v = sum((mp.mpc(mp.cos(k * th), mp.sin(k * th)) / mp.mpf(k) ** n for k in range(1, 5)), mp.mpc(0))
        return v.imag if sine else v.real
    # Li_n(e^{i th}) = sum with log z = i th
    if n == 1:
        v = mp.mpc(-mp.log(abs(2 * mp.sin(th / 2))), (mp.pi - abs(th)) / 2 * mp.sign(th))
        return v.imag if sine else v.real
    lz = mp.mpc(0, th)
    ml = mp.mpc(mp.log(abs(th)), -mp.pi / 2 * mp.sign(th))
    s, p, k = mp.mpc(0), mp.mpc(1), 0
    while True:
        t = p * (mp.harmonic(n - 1) - ml) if k == n - 1 else p * mp.zeta(n - k)
        s += t
        if k > n + 3 and t != 0 and abs(t) < mp.mpf(10) ** -70:
            break
        k += 1
        p *= lz / k
        if k > 600 + n:
            break
    return s.imag if sine else s.real


def neg_eta(n):
    return -mp.altzeta(n)


def condfac(kind, cond, n, x, y):
    ax = mp.hypot(x, y)
    if kind != 'li':
        f = max(mp.mpf(1), ax)
        if n == 1 and ax > 3:
            d = abs(x - 2 * mp.pi * mp.nint(x / (2 * mp.pi)))
            f /= min(mp.mpf(1), d)
        return f
    if cond == 1:
        return max(mp.mpf(1), mp.gamma(1 + abs(n)) * max(mp.mpf(1), ax) / mp.hypot(x - 1, y))
    if cond == 2:
        return max(mp.mpf(1), mp.log(ax) / 32)
    return mp.mpf(1)
