"""Reference model: plain second quantisation on integers used as bit masks
(bit i of the mask = spin-orbital i is occupied). Deliberately boring, and
independent of the code under test.

Convention (documented in the code under test): the product state (2, 5) is
c2^+ c5^+ |0>, so an operator acting on spin-orbital i passes all electrons in
spin-orbitals with a lower index.
"""

import itertools

import numpy as np


def occ(mask):
    """Occupied spin-orbitals, ascending."""
    out, i = [], 0
    while mask:
        if mask & 1:
            out.append(i)
        mask >>= 1
        i += 1
    return tuple(out)


def mask_of(t):
    m = 0
    for i in t:
        m |= 1 << i
    return m


def enc(mask, n):
    """The documented bytes representation."""
    out = bytearray((n + 7) // 8)
    for i in occ(mask):
        out[i // 8] |= 1 << (7 - i % 8)
    return bytes(out)


def dec(b, n):
    m = 0
    for i in range(n):
        if b[i // 8] & (1 << (7 - i % 8)):
            m |= 1 << i
    return m


def to_str(mask, n):
    return "".join("1" if mask >> i & 1 else "0" for i in range(n))


def to_int(mask, n):
    v = 0
    for i in range(n):
        v = 2 * v + (mask >> i & 1)
    return v


def sign(i, mask):
    return -1 if bin(mask & ((1 << i) - 1)).count("1") % 2 else 1


def act(i, action, mask):
    """(new mask, sign) or None."""
    if action == "c":
        if mask >> i & 1:
            return None
        return mask | 1 << i, sign(i, mask)
    if not mask >> i & 1:
        return None
    return mask & ~(1 << i), sign(i, mask)


def word(process, mask):
    s = 1
    for i, action in reversed(process):
        r = act(i, action, mask)
        if r is None:
            return None
        mask, t = r
        s *= t
    return mask, s


def allowed(mask, restrictions):
    if restrictions:
        for orbs, (lo, hi) in restrictions.items():
            n = sum(mask >> i & 1 for i in orbs)
            if n < lo or n > hi:
                return False
    return True


def apply(op, psi, restrictions=None):
    """op|psi> exactly (no cut-off); psi: {mask: amplitude}."""
    out = {}
    for m, a in psi.items():
        for p, h in op.items():
            r = word(p, m)
            if r is not None and allowed(r[0], restrictions):
                out[r[0]] = out.get(r[0], 0) + r[1] * h * a
    return out


def matrix(op, states, restrictions=None):
    idx = {m: i for i, m in enumerate(states)}
    h = np.zeros((len(states), len(states)), dtype=complex)
    for j, m in enumerate(states):
        for p, v in op.items():
            r = word(p, m)
            if r is not None and r[0] in idx and allowed(r[0], restrictions):
                h[idx[r[0]], j] += r[1] * v
    return h


def rect(op, rows, cols):
    idx = {m: i for i, m in enumerate(rows)}
    h = np.zeros((len(rows), len(cols)), dtype=complex)
    for j, m in enumerate(cols):
        for p, v in op.items():
            r = word(p, m)
            if r is not None and r[0] in idx:
                h[idx[r[0]], j] += r[1] * v
    return h


def closure(op, start, restrictions=None, tol=1e-12):
    """Product states reachable from start (|matrix element|^2 >= tol)."""
    seen, todo = set(start), list(start)
    while todo:
        m = todo.pop()
        for k, v in apply(op, {m: 1}, restrictions).items():
            if abs(v) ** 2 >= tol and k not in seen:
                seen.add(k)
                todo.append(k)
    return seen


def adjoint(op):
    return {tuple((i, "a" if a == "c" else "c") for i, a in reversed(p)): np.conj(v) for p, v in op.items()}


def fock(n, electrons=None):
    if electrons is None:
        return list(range(1 << n))
    return [mask_of(t) for t in itertools.combinations(range(n), electrons)]


def words(n, length):
    letters = [(i, a) for i in range(n) for a in "ca"]
    return itertools.product(letters, repeat=length)


def vec(psi, states):
    return np.array([psi.get(m, 0) for m in states], dtype=complex)


def lanczos(h, v, k):
    """alpha, beta of k Lanczos steps with full reorthogonalisation."""
    n = len(v)
    q = [v / np.linalg.norm(v)]
    alpha, beta = [], []
    for j in range(k):
        w = h @ q[j]
        alpha.append(np.vdot(q[j], w).real)
        w = w - alpha[-1] * q[j] - (beta[-1] * q[j - 1] if j else 0)
        for u in q:
            w = w - np.vdot(u, w) * u
        for u in q:
            w = w - np.vdot(u, w) * u
        b = np.linalg.norm(w)
        if j == k - 1 or b < 1e-9 or len(q) == n:
            break
        beta.append(b)
        q.append(w / b)
    return np.array(alpha), np.array(beta)


def contfrac(z, alpha, beta):
    g = 0
    for i in range(len(alpha) - 1, -1, -1):
        g = 1 / (z - alpha[i] - (beta[i] ** 2 * g if i < len(alpha) - 1 else 0))
    return g


def resolvent(h, v, z):
    """<v|(z - h)^-1|v> for an array of z, by direct solution."""
    n = len(v)
    out = np.zeros(len(z), dtype=complex)
    for i, zi in enumerate(z):
        out[i] = np.vdot(v, np.linalg.solve(zi * np.eye(n) - h, v))
    return out


# ---- conversions to and from the code's containers


def to_code(psi, n):
    return {enc(m, n): a for m, a in psi.items()}


def from_code(psi, n):
    return {dec(b, n): a for b, a in psi.items()}


def close(psi, ref, tol=1e-9):
    """Same state up to tol (missing entries count as zero)."""
    return all(abs(psi.get(k, 0) - ref.get(k, 0)) <= tol for k in set(psi) | set(ref))


# the same system inside a larger one: spin-orbital i becomes place[i]


def placed_op(op, place):
    return {tuple((place[i], a) for i, a in p): v for p, v in op.items()}


def placed_mask(m, place, spectators=0):
    return spectators | sum(1 << place[i] for i in occ(m))


def placed(psi, place, spectators=0):
    return {placed_mask(m, place, spectators): a for m, a in psi.items()}


def placed_restr(restr, place):
    return None if restr is None else {tuple(place[i] for i in k): v for k, v in restr.items()}
