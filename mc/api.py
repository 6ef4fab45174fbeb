"""How the checks call the package (only entry points its own tests pin)."""
import contextlib
import copy


def params(lat):
    return {"lat_vecs": [list(v) for v in lat.vecs],
            "basis_vecs": [list(v) for v in lat.cart_basis]}


def six(H):
    return [H[0][0], H[1][0], H[1][1], H[2][0], H[2][1], H[2][2]]


def full(H):
    return [list(r) for r in H]


def snf(H):
    """(diag, L) of the package's Smith form of H, as ints."""
    from phenum.grouptheory import SmithNormalForm
    (S, L, R) = SmithNormalForm(full(H))
    return ([int(S[i][i]) for i in range(3)], [[int(x) for x in r] for r in L])


def group(lat, H, arrows):
    """list of (site_perm, arrow_perm) as plain int tuples"""
    from phenum.grouptheory import get_sym_group
    g = get_sym_group([list(v) for v in lat.vecs], [list(v) for v in lat.cart_basis],
                      full(H), 3, arrows=arrows)
    sp = [tuple(int(x) for x in p) for p in g.perm.site_perm]
    ap = [tuple(int(x) for x in p) for p in g.perm.arrow_perm]
    return list(zip(sp, ap))


_groups = {}


@contextlib.contextmanager
def shared_groups():
    """Within the enumeration the symmetry group of a supercell is computed afresh for every
    composition, which is 95 % of the run time.  It is a function of the arguments alone (C22
    checks that), so a worker computes it once per distinct arguments, with the real code."""
    import phenum.grouptheory as gt
    real = getattr(gt, "get_sym_group", None)
    if real is None:
        yield
        return

    def get_sym_group(*a, **kw):
        key = repr((a, sorted(kw.items())))
        if key not in _groups:
            if len(_groups) > 40:
                _groups.clear()
            b, k = copy.deepcopy((a, kw))
            _groups[key] = real(*b, **k)
        return copy.deepcopy(_groups[key])
    gt.get_sym_group = get_sym_group
    try:
        yield
    finally:
        gt.get_sym_group = real


_cells = {}


@contextlib.contextmanager
def shared_cells():
    """likewise the list of supercells of one size, which every count computes afresh"""
    import phenum.HNFs as hn
    real = getattr(hn, "get_HNFs", None)
    if real is None:
        yield
        return

    def get_HNFs(*a, **kw):
        key = repr((a, sorted(kw.items())))
        if key not in _cells:
            if len(_cells) > 40:
                _cells.clear()
            b, k = copy.deepcopy((a, kw))
            _cells[key] = real(*b, **k)
        return copy.deepcopy(_cells[key])
    hn.get_HNFs = get_HNFs
    try:
        yield
    finally:
        hn.get_HNFs = real


def enum(lat, H, concs, aconcs, wanted, supers, accept=None):
    with shared_groups():
        from phenum.phonons import enum_sys
        res = enum_sys(None, list(concs), list(aconcs), wanted, six(H), params(lat), supers, accept)
    return [word(c) for c in res]


def word(config):
    out = []
    for s in config:
        a, l = int(s[0]), int(s[1])
        out.append((a, l))
    return tuple(out)


def polya_count(lat, H, concs, aconcs, group_=None):
    """the count exactly as the package computes it for its polya.out files"""
    from phenum import phonons as pb
    from phenum.polyaburnside import polya
    arrows = sum(aconcs) != 0
    ag = group_ if group_ is not None else group(lat, H, arrows)
    ag = [[list(a), list(b)] for a, b in ag]
    dec = pb.arrow_concs(list(concs), list(aconcs))
    (na, at, cwa) = pb.how_many_arrows(dec)
    if at != 0 or na != 0:
        return polya(cwa, ag, arrowings=at)
    return polya(list(concs), ag)
