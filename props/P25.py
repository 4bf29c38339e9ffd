"""reported positions: upright points, relative girths, above-water selection"""
from pyvc.ob import ob
from props.spec import *
from props.P09 import make
from props.P13 import Obj

A = 'pySailingVLM.solver.additional_functions'
UN = [('pySailingVLM.rotations.csys_transformations:CSYS_transformations.reverse_rotations_with_mirror', 'reverse of heel and leeway')]


def upright(h, g, p):
    ch, sh, cl, sl = g
    x = rz(p, cl, -1 * sl)
    return ites(h, h.gt(x[2], 0), rx(x, ch, sh), rx(x, ch, -1 * sh))


def maximum(h, n, f): return -1 * h.minimum(n, lambda i: -1 * f(i))


@ob('P25', 'above-water part', sizes=[{'half': 1}, {'half': 2}])
def above(h):
    """the first half of the rows and its column sums"""
    H = h.dim('half', 1, 4)
    Q = h.arr('Q', (2 * H, 3))
    r, t = h.mod(A).extract_above_water_quantities(Q)
    h.shape('rows', r, (H, 3))
    for i in h.each(H):
        h.eq('row', h.v3(r, i), h.v3(Q, i))
    for k in range(3):
        h.eq('total', t[k], h.sum(H, lambda i: Q[i, k]))
    q = h.arr('q', (2 * H,))
    r, t = h.mod(A).extract_above_water_quantities(q)
    h.shape('scalars', r, (H,))
    for i in h.each(H):
        h.eq('scalar', r[i], q[i])
    h.eq('scalar total', t, h.sum(H, lambda i: q[i]))


@ob('P25', 'upright points', contracts=UN, sizes=[{'m': 2}])
def straight(h):
    """every point is turned back to the upright boat, in order"""
    t, heel, lee, *g = make(h)
    m = h.dim('m', 1, 4)
    P = h.arr('P', (m, 3))
    r = h.mod(A).get_cp_strainght_yacht(P, t)
    h.shape('points', r, (m, 3))
    for i in h.each(m):
        h.eq('point', h.v3(r, i), upright(h, g, h.v3(P, i)))


@ob('P25', 'relative girth', sizes=[{'m': 1}, {'m': 2}])
def girth(h):
    """height above the tack over the height of the highest point above the tack"""
    m = h.dim('m', 1, 5)
    P, tack = h.arr('P', (m, 3)), h.vec('tack')
    top = maximum(h, m, lambda i: P[i, 2]) - tack[2]
    h.assume(h.gt(top, h.num('0.01')))
    r = h.mod(A).cp_to_girths(P, tack)
    h.shape('girths', r, (m,))
    for i in h.each(m):
        h.eq('girth', r[i], h.div(P[i, 2] - tack[2], top))


def fleet(h):
    n = h.int('n', 1, 2)
    names = ['jib', 'main_sail'][:n]
    tacks = [h.vec('tack%d' % i) for i in range(n)]
    return n, names, tacks, Obj(sails=h.lst([Obj(name=a, tack_mounting=b) for a, b in zip(names, tacks)]))


@ob('P25', 'girths of all sails', contracts=UN, sizes=[{'c': 1}, {'c': 2}])
def all_(h):
    """input: all sails above the water, then all below; output: sail by sail, above then below, each relative to its own tack and highest point"""
    t, heel, lee, *g = make(h)
    n, names, tacks, ss = fleet(h)
    c = h.dim('c', 1, 3)
    P = h.arr('P', (2 * n * c, 3))

    def pt(i, k):  # point k of the 2c points of sail i
        return [upright(h, g, h.v3(P, i * c + k)), upright(h, g, h.v3(P, (n + i) * c + k))]
    tops = []
    for i in range(n):
        z = lambda k: h.ite(h.lt(k, c), lambda: upright(h, g, h.v3(P, i * c + k))[2], lambda: upright(h, g, h.v3(P, (n + i - 1) * c + k))[2])
        tops.append(maximum(h, 2 * c, z) - tacks[i][2])
        h.assume(h.gt(tops[i], h.num('0.01')))
    z, s = h.mod(A).get_cp_z_as_girths_all(ss, t, P)
    h.shape('girths', z, (2 * n * c,))
    h.shape('points', s, (2 * n * c, 3))
    for i in range(n):
        for k in h.each(c):
            for side in (0, 1):
                q = (2 * i + side) * c + k
                x = pt(i, k)[side]
                h.eq('point', h.v3(s, q), x)
                h.eq('girth', z[q], h.div(x[2] - tacks[i][2], tops[i]))


@ob('P25', 'girths above the water', sizes=[{'c': 1}, {'c': 2}])
def aboves(h):
    """the above-water block of each sail in order, and the name of the sail of every panel"""
    n, names, tacks, ss = fleet(h)
    c = h.dim('c', 1, 3)
    Z = h.arr('Z', (2 * n * c,))
    z, w = h.mod(A).get_cp_z_as_girths_all_above(Z, ss)
    h.shape('girths', z, (n * c,))
    h.shape('names', w, (n * c,))
    for i in range(n):
        for k in h.each(c):
            h.eq('girth', z[i * c + k], Z[2 * i * c + k])
            h.eq('name', w[i * c + k], names[i])


@ob('P25', 'reported table and workbook', sym=False, trials=12, bounded='sample rigs of 1 or 2 sails with up to 3 panels each, on CPython with pandas')
def saved(h):
    """row q of the reported table is panel q above the water: its forces, inlet wind, upright height, girth and sail; the summaries are those of the flow
    results and of the wind; the workbook with all three is written into the requested directory"""
    import os
    import tempfile
    import zipfile
    from props.P12 import setup
    t, heel, lee, *g = make(h)
    n, names, tacks, ss = fleet(h)
    c = h.dim('c', 1, 3)
    K = 2 * n * c
    wind = setup(h)[0]
    P = h.arr('P', (K, 3))
    for q in range(K):
        P[q, 2] = (1 if q < n * c else -1) * (3 + abs(P[q, 2]))
    h.made(P)
    tacks_ok = [min(1.0, 0.5 + 0.1 * i) for i in range(n)]
    for s, z in zip(ss.sails, tacks_ok):
        s.tack_mounting = h.array([0 * heel, 0 * heel, z + 0 * heel])
        s.csys_transformations = t
    v = Obj(gamma_magnitude=h.arr('G', (K,)), pressure=h.arr('p', (K,)), V_induced_at_cp=h.arr('Vi', (K, 3)), V_app_fs_at_cp=h.arr('Vf', (K, 3)),
            force=h.arr('F', (K, 3)), cp=P)
    for q in range(K):
        h.assume(h.gt(upright(h, g, h.v3(P, q))[2] * (1 if q < n * c else -1), 0))
    for i in range(n):
        h.assume(h.gt(max(upright(h, g, h.v3(P, i * c + k))[2] for k in range(c)), 1.5))
    h.assume_all(K, lambda q: h.gt(h.fabs(v.V_app_fs_at_cp[q, 0]), 0.001))
    v.inlet_conditions = h.mod('pySailingVLM.inlet.inlet_conditions').InletConditions(wind, 1.2, P)
    res = h.mod('pySailingVLM.results.inviscid_flow').InviscidFlowResults(ss, t, v)
    top = tempfile.mkdtemp()
    try:
        d = os.path.join(top, 'a', 'b')
        df, fi, wi = h.mod('pySailingVLM.results.save_utils').save_results_to_file(v, t, res, ss, d, 'book')
        h.eq('files', sorted(os.listdir(d)), ['book.xlsx'])
        with zipfile.ZipFile(os.path.join(d, 'book.xlsx')) as z:
            book = z.read('xl/workbook.xml').decode()
            h.eq('rows written', z.read('xl/worksheets/sheet1.xml').decode().count('<row '), n * c + 1)
        at = [book.find('name="%s"' % s) for s in ('Components', 'Integrals', 'IC_at_reference_height')]
        h.true('sheets', at == sorted(at) and min(at) > 0)
    finally:
        for r, ds, fs in os.walk(top, topdown=False):
            for f in fs:
                os.unlink(os.path.join(r, f))
            os.rmdir(r)
    h.eq('rows', len(df), n * c)
    full, inlet = res.to_df_full(), v.inlet_conditions.to_df_full(t)
    h.eq('columns', list(df.columns), list(full.columns) + list(inlet.columns) + ['cp_points_upright.z', 'girths', 'sail_name'])
    for i in range(n):
        tz = tacks_ok[i]
        zs = [upright(h, g, h.v3(P, q))[2] for s in (i, n + i) for q in range(s * c, s * c + c)]
        for k in range(c):
            q = i * c + k
            for src in (full, inlet):
                for col in src.columns:
                    h.eq(col, float(df[col].iloc[q]), float(src[col].iloc[q]))
            h.eq('upright height', float(df['cp_points_upright.z'].iloc[q]), zs[k])
            h.eq('girth', float(df['girths'].iloc[q]), (zs[k] - tz) / (max(zs) - tz))
            h.eq('sail', str(df['sail_name'].iloc[q]), names[i])
    for nm, got, want in (('flow summary', fi, res.to_df_integral()), ('wind summary', wi, wind.to_df_integral(t))):
        h.eq(nm, list(got['Quantity']), list(want['Quantity']))
        h.eq(nm, [float(x) for x in got['Value']], [float(x) for x in want['Value']])
