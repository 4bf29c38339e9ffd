"""the command line run: settings reach the calculation, results reach the user"""
import os
import sys
from pyvc.ob import ob, contract
from props.spec import *
from props.P11 import vec
from props.P13 import Obj

B = 'pySailingVLM.runner.container'
CLI = 'pySailingVLM.runner.cli'
R = 'pySailingVLM.runner.sail'
PP = 'pySailingVLM.solver.panels_plotter'
MG, JG = [0, 0.125, 0.25, 0.5, 0.75, 0.875, 1], [0, 0.25, 0.5, 0.75, 1]
DEFAULTS = {
    'Solver': dict(n_spanwise=4, n_chordwise=4, interpolation_type='spline'),
    'Conditions': dict(leeway_deg=5.0, heel_deg=10.0, SOG_yacht=4.63, tws_ref=4.63, alpha_true_wind_deg=50.0, reference_water_level_for_wind_profile=0.0, wind_exp_coeff=0.1428,
                       wind_reference_measurment_height=10.0, rho=1.225, wind_profile='exponential', roughness=0.05),
    'Rig': dict(main_sail_luff=12.4, jib_luff=10.0, foretriangle_height=11.5, foretriangle_base=3.9, sheer_above_waterline=1.2, boom_above_sheer=1.3, rake_deg=92.0, mast_LOA=0.15,
                sails_def='jib_and_main'),
    'MainSail': dict(girths=MG, chords=[4.0, 3.82, 3.64, 3.2, 2.64, 2.32, 2.0], camber=[0.05] * 7, camber_distance_from_luff=[0.5] * 7, centerline_twist_deg=[12 * x + 5 for x in MG]),
    'JibSail': dict(girths=JG, chords=[3.8, 2.98, 2.15, 1.33, 0.5], camber=[0.0] * 5, camber_distance_from_luff=[0.5] * 5, centerline_twist_deg=[15 * x + 7 for x in JG]),
    'Csys': dict(reference_level_for_moments=[0, 0, 0]),
    'Keel': dict(center_of_lateral_resistance_upright=[0, 0, -1.0]),
}


def given(h, name, default):
    """a value of the user's own in place of a default"""
    if isinstance(default, str):
        return 'mine'
    if isinstance(default, list):
        return h.arr(name, (len(default),), lo=-9, hi=9)
    if isinstance(default, int):
        return h.dim(name, 1, 60)
    return h.real(name, lo=-90, hi=90)


def holds(h, nm, got, want):
    if isinstance(want, list):
        h.shape(nm, got, (len(want),))
        for i, x in enumerate(want):
            h.eq(nm, got[i], h.num(x) if isinstance(x, float) else x)
    elif isinstance(want, str):
        h.true(nm, isinstance(got, str) and got == want)
    else:
        h.eq(nm, got, h.num(want) if isinstance(want, float) else want)


def container(cls):
    def fn(h):
        """a setting that is given is kept, every other one has its default, and no two containers share data"""
        names = list(DEFAULTS[cls])
        make = getattr(h.mod(B), cls)
        own = h.choice('own', [None] + names)
        kw = {} if own is None else {own: given(h, own, DEFAULTS[cls][own])}
        o = make(**kw)
        for x in names:
            if x == own:
                if hasattr(kw[x], 'shape'):
                    h.eqarr(x, getattr(o, x), kw[x])
                else:
                    h.eq(x, getattr(o, x), kw[x]) if not isinstance(kw[x], str) else h.true(x, getattr(o, x) == kw[x])
            elif not (own == 'girths' and x == 'centerline_twist_deg'):
                holds(h, x, getattr(o, x), DEFAULTS[cls][x])
        for x in names:
            if isinstance(DEFAULTS[cls][x], list) and x != own:
                getattr(o, x)[0] = 77
        fresh = make()
        for x in names:
            holds(h, 'fresh ' + x, getattr(fresh, x), DEFAULTS[cls][x])
    return fn


for _c in DEFAULTS:
    ob('P23', 'settings: ' + _c, trials=30)(container(_c))


@ob('P23', 'default twist', sizes=[{'n': 2}])
def twist(h):
    """without a twist of its own a sail gets the linear twist along its own girths"""
    n = h.dim('n', 1, 8)
    g = h.arr('g', (n,), lo=0, hi=1)
    m = h.mod(B)
    for o, a, b in ((m.MainSail(girths=g), 12, 5), (m.JibSail(girths=g), 15, 7)):
        h.shape('twist', o.centerline_twist_deg, (n,))
        for i in h.each(n):
            h.eq('twist', o.centerline_twist_deg[i], a * g[i] + b)
            h.eq('girths', o.girths[i], g[i])


# ---------------------------------------------------------------- the run from settings to results
LOG = []


def record(name, result=None):
    @contract('record ' + name)
    def c(F, *args):
        """the call and its arguments are written down"""
        LOG.append((name, args))
        return result(F, *args) if result else None
    return 'record ' + name


def sails(F, self):
    return Obj(ghost=self, panels=F.build((4, 4, 3), lambda *k: F.num(0)), trailing_edge_info='te', leading_edge_info='le', zero_mesh='mesh', sails=())


def vlm(F, self, *a):
    self.inlet_conditions, self.p_coeffs = 'inlet', 'p_coeffs'


def hull(F, self, *a):
    self.center_of_lateral_resistance = 'clr'


WIRES = [(R + ':Sail.__post_init__', record('check')), (R + ':Sail.sail_set', record('sails', sails)), ('pySailingVLM.solver.vlm:Vlm.__post_init__', record('vlm', vlm)),
         ('pySailingVLM.yacht_geometry.hull_geometry:HullGeometry.__init__', record('hull', hull)),
         ('pySailingVLM.results.inviscid_flow:InviscidFlowResults.__init__', record('results')),
         ('pySailingVLM.results.inviscid_flow:InviscidFlowResults.estimate_heeling_moment_from_keel', record('keel')),
         ('pySailingVLM.results.save_utils:save_results_to_file', record('save', lambda F, *a: ('components', 'integrals', 'inlet'))),
         (PP + ':display_panels_xyz_and_winds', record('display')), (PP + ':plot_cp', record('plot pressure')), (PP + ':plot_section_coeff', record('plot section')),
         ('pySailingVLM.solver.coefs:get_data_for_coeff_plot', record('section data', lambda F, *a: ('heights', 'lifts', 'drags')))]


WIDE = dict(lee=(-180, 180), heel=(-89, 89), sog=(0, 200), tws=(0.001, 300), alpha=(-180, 180), lev=(-50, 0.9), e=(0.0001, 3), H=(1.01, 2000), rho=(0.001, 2000), rough=(0.000000001, 1),
            luffm=(0.1, 100), luffj=(0.1, 100), fh=(0.5, 200), fb=(0.1, 60), sheer=(0.001, 30), boom=(0.001, 30), rake=(10, 170), loa=(0, 5))


def settings(h):
    """the contents of a settings file"""
    wd = lambda lo, hi: (lo, hi) if h.sym else None
    sheet = lambda t, n: dict(girths=h.arr('girths' + t, (n,), lo=0, hi=1, inc='rows' + t), chords=h.arr('chords' + t, (n,), lo=1, hi=3, wide=wd(0.001, 60)), centerline_twist_deg=h.arr('twist' + t, (n,), lo=2, hi=20, wide=wd(-180, 180)),
                              camber=h.arr('camber' + t, (n,), lo=0.01, hi=0.08, wide=wd(0, 0.3)), camber_distance_from_luff=h.arr('dist' + t, (n,), lo=0.3, hi=0.6, wide=wd(0.01, 0.9)))
    # the whole simulations under CPython stay with usual values
    r = lambda n, lo, hi: h.real(n, lo=lo, hi=hi, wide=WIDE[n] if h.sym else None)
    s = Obj()
    s.solver_args = dict(n_spanwise=h.dim('ns', 2, 4), n_chordwise=h.dim('nc', 1, 3), interpolation_type='linear')
    s.conditions_args = dict(leeway_deg=r('lee', 0, 8), heel_deg=r('heel', 0, 30), SOG_yacht=r('sog', 1, 6), tws_ref=r('tws', 2, 12), alpha_true_wind_deg=r('alpha', 40, 80),
                             reference_water_level_for_wind_profile=r('lev', -1, 0), wind_exp_coeff=r('e', 0.05, 0.3), wind_reference_measurment_height=r('H', 8, 12), rho=r('rho', 1, 1.4),
                             wind_profile=h.choice('profile', ['exponential', 'flat', 'logarithmic']), roughness=r('rough', 0.01, 0.1))
    s.rig_args = dict(main_sail_luff=r('luffm', 10, 14), jib_luff=r('luffj', 8, 10), foretriangle_height=r('fh', 10.5, 12), foretriangle_base=r('fb', 3, 5), sheer_above_waterline=r('sheer', 1, 1.6),
                      boom_above_sheer=r('boom', 1, 1.6), rake_deg=r('rake', 88, 95), mast_LOA=r('loa', 0.05, 0.2), sails_def=h.choice('sails', ['jib', 'main', 'jib_and_main']))
    s.main_sail_args, s.jib_sail_args = sheet('m', h.dim('rowsm', 2, 6)), sheet('j', h.dim('rowsj', 2, 6))
    s.csys_args = dict(reference_level_for_moments=h.vec('ref', lo=-2, hi=2, wide=wd(-100, 100)))
    s.keel_args = dict(center_of_lateral_resistance_upright=h.vec('clr', lo=-3, hi=-0.5, wide=wd(-100, 100)))
    return s


GROUPS = ('output_args', 'solver_args', 'conditions_args', 'rig_args', 'main_sail_args', 'jib_sail_args', 'csys_args', 'keel_args')


def all_calls(name): return [a for n, a in LOG if n == name]


def one_call(h, name):
    c = all_calls(name)
    h.true('one call: ' + name, len(c) == 1)
    return c[0]


def kept(h, o, args):
    for k, v in args.items():
        x = getattr(o, k)
        if isinstance(v, str):
            h.true(k, isinstance(x, str) and x == v)
        elif hasattr(v, 'shape'):
            h.eqarr(k, x, v)
        else:
            h.eq(k, x, v)


@ob('P23', 'command line run', contracts=WIRES, trials=12)
def command(h):
    """every part of the run receives the settings and the results of the parts before it; the workbook, the copy of the settings and the plots belong to the settings"""
    (wiring if h.sym else run)(h)


def wiring(h):
    import shutil
    LOG.clear()
    s = settings(h)
    s.output_args = dict(case_name='settings.py', case_dir='/nowhere/case', name='/nowhere/out', file_name='table')
    for f in ('copy', 'copy2', 'copyfile'):
        h.patch(shutil, f, lambda a, b, **k: LOG.append(('copy', (a, b))))
    h.patch(sys, 'argv', ['pySailingVLM', '--dvars', '/nowhere/settings'])
    h.patch(sys, 'path', list(sys.path))
    h.provide('variables', **{g: h.lst(getattr(s, g)) for g in GROUPS})
    h.mod(CLI).main()
    c = s.conditions_args
    sail, = one_call(h, 'sails')
    kept(h, sail.solver, s.solver_args)
    kept(h, sail.rig, s.rig_args)
    kept(h, sail.main_sail, s.main_sail_args)
    kept(h, sail.jib_sail, s.jib_sail_args)
    t = sail.csys_transformations
    h.eq('heel', t.heel_deg, c['heel_deg'])
    h.eq('leeway', t.leeway_deg, c['leeway_deg'])
    h.eq('reference point', h.v3(t.v_from_original_xyz_2_reference_csys_xyz), h.v3(s.csys_args['reference_level_for_moments']))
    v, = one_call(h, 'vlm')
    res = one_call(h, 'results')
    h.true('panels of the sails', hasattr(res[1], 'ghost') and res[1].ghost is sail)
    ss = res[1]
    h.true('panels', v.panels is ss.panels and v.trailing_edge_info == 'te' and v.leading_edge_info == 'le')
    h.eq('chordwise panels', v.n_chordwise, s.solver_args['n_chordwise'])
    h.eq('spanwise panels', v.n_spanwise, s.solver_args['n_spanwise'])
    h.eq('density', v.rho, c['rho'])
    w, z = v.wind, h.real('z', lo=1, hi=60, wide=(0.91, 5000))
    a, sp = c['alpha_true_wind_deg'], c['tws_ref']
    if c['wind_profile'] == 'logarithmic':
        sp = h.div(sp * h.log(h.div(z, c['roughness'])), h.log(h.div(c['wind_reference_measurment_height'], c['roughness'])))
    elif c['wind_profile'] == 'exponential':
        sp = sp * h.rpow(h.div(z - c['reference_water_level_for_wind_profile'], c['wind_reference_measurment_height']), c['wind_exp_coeff'])
    tw = w.get_true_wind_speed_at_h(z)
    h.eq('true wind', h.v3(tw), vec(h, sp, a))
    h.eq('apparent wind', h.v3(w.get_app_infs_at_h(tw)), add(vec(h, sp, a), [c['SOG_yacht'], 0, 0]))
    h.true('results of the calculation', res[2] is t and res[3] is v)
    hl = one_call(h, 'hull')
    h.eq('hull sheer', hl[1], s.rig_args['sheer_above_waterline'])
    h.eq('hull base', hl[2], s.rig_args['foretriangle_base'])
    h.true('hull turned', hl[3] is t)
    h.eq('hull resistance', h.v3(hl[4]), h.v3(s.keel_args['center_of_lateral_resistance_upright']))
    k = one_call(h, 'keel')
    h.true('keel moment', k[0] is res[0] and k[1] == 'clr')
    sv = one_call(h, 'save')
    h.true('saved results', sv[0] is v and sv[1] is t and sv[2] is res[0] and sv[3] is ss and sv[4] == '/nowhere/out' and sv[5] == 'table')
    order = [n for n, _ in LOG]
    h.true('keel moment before saving', order.index('keel') < order.index('save') and order.index('save') < order.index('copy'))
    src, dst = one_call(h, 'copy')
    h.true('settings copied', src == '/nowhere/case/settings.py' and dst in ('/nowhere/out/settings.py', '/nowhere/out'))
    d = one_call(h, 'display')
    h.true('display', d[0] is v and d[1] is res[0] and d[2] == 'inlet' and d[3] is hl[0])
    pc = one_call(h, 'plot pressure')
    h.true('pressure plot', pc[0] == 'mesh' and pc[1] == 'p_coeffs' and pc[2] == '/nowhere/out')
    sd = one_call(h, 'section data')
    h.true('section data', sd[0] is v)
    plots = all_calls('plot section')
    h.true('two section plots', len(plots) == 2)
    for nm, data in (('lift', 'lifts'), ('drag', 'drags')):
        h.true('section plot ' + nm, [p[:3] for p in plots if p[3] == nm] == [(data, 'heights', '/nowhere/out')])


def text(v):
    import numpy as np
    if isinstance(v, np.ndarray):
        return 'np.array(%r)' % (v.tolist(),)
    return repr(v)


def run(h):
    """a run from a settings file in a scratch directory: workbook, copy of the settings and plot data belong to the settings"""
    import importlib
    import shutil
    import tempfile
    import types
    import numpy as np
    s = settings(h)
    for k in (s.main_sail_args, s.jib_sail_args):
        g = k['girths']
        if len(g) > 1 and min(np.diff(g)) < 1e-3:
            return h.assume(False)
        k['girths'] = (g - g[0]) / (g[-1] - g[0])
    tmp = tempfile.mkdtemp(prefix='p23')
    path, argv, plots = list(sys.path), list(sys.argv), []
    pp = h.mod(PP)
    old = {n: getattr(pp, n) for n in ('plot_cp', 'plot_section_coeff', 'display_panels_xyz_and_winds')}
    try:
        s.output_args = dict(case_name='variables.py', case_dir=os.path.join(tmp, 'case'), name=os.path.join(tmp, 'out', 'run'), file_name='table')
        os.makedirs(os.path.join(tmp, 'case'))
        body = 'import numpy as np\n' + ''.join('%s = {%s}\n' % (g, ', '.join('%r: %s' % (k, text(v)) for k, v in getattr(s, g).items())) for g in GROUPS)
        open(os.path.join(tmp, 'case', 'variables.py'), 'w').write(body)
        for n in old:
            setattr(pp, n, lambda *a, _n=n, **k: plots.append((_n, a, k)))
        sys.modules.pop(CLI, None)
        sys.modules.pop('variables', None)
        sys.argv = ['pySailingVLM', '-dv', os.path.join(tmp, 'case')]
        importlib.invalidate_caches()
        o = h.outcome(lambda: importlib.import_module(CLI).main())
        ns = types.SimpleNamespace
        c, g = ns(**s.conditions_args), ns(**s.rig_args)
        sol = ns(LLT_twist='real_twist', **s.solver_args)
        m, r = importlib.import_module, R

        def reference():
            t = m('pySailingVLM.rotations.csys_transformations').CSYS_transformations(c.heel_deg, c.leeway_deg, v_from_original_xyz_2_reference_csys_xyz=s.csys_args['reference_level_for_moments'])
            ss = m(R).Sail(sol, g, ns(**s.main_sail_args), ns(**s.jib_sail_args), t).sail_set
            v = m('pySailingVLM.solver.vlm').Vlm(ss.panels, sol.n_chordwise, sol.n_spanwise, c.rho, m(R).Wind(c).profile, ss.trailing_edge_info, ss.leading_edge_info)
            res = m('pySailingVLM.results.inviscid_flow').InviscidFlowResults(ss, t, v)
            clr = t.rotate_point_without_mirror(s.keel_args['center_of_lateral_resistance_upright'])
            res.estimate_heeling_moment_from_keel(clr)
            return t, ss, v, res
        q = h.outcome(reference)
        if not q.ok:
            return h.true('a calculation that fails is no result', not o.ok)
        if not o.ok:
            return h.fail('run ends', repr(o.val))
        t, ss, v, res = q.val
        import pandas as pd
        out = s.output_args['name']
        book = os.path.join(out, 'table.xlsx')
        h.true('workbook', os.path.exists(book))
        want = res.to_df_integral()
        got = pd.read_excel(book, sheet_name='Integrals')
        h.true('rows of the summary', list(got['Quantity']) == list(want['Quantity']))
        for a, b in zip(got['Value'], want['Value']):
            h.true('summary', abs(a - b) <= 0.0051 + 1e-9 * abs(b))
        got, want = pd.read_excel(book, sheet_name='Components'), res.to_df_full()
        H = len(want) // 2
        h.true('rows', len(got) == H)
        for x in want.columns:
            for i in range(H):
                h.true('column ' + x, abs(got[x][i] - want[x][i]) <= 1e-7 * (1 + abs(want[x][i])))
        h.true('copy of the settings', open(os.path.join(out, 'variables.py')).read() == body)
        mean, cl, cd = m('pySailingVLM.solver.coefs').get_data_for_coeff_plot(v, sol)
        p = {(n if n != 'plot_section_coeff' else a[3] if len(a) > 3 else k['coeff_name']): a for n, a, k in plots}
        h.true('plots', sorted(p) == sorted(['plot_cp', 'display_panels_xyz_and_winds', 'lift', 'drag']))
        h.eqarr('pressure plot', np.asarray(p['plot_cp'][1]), v.p_coeffs)
        h.eqarr('pressure plot mesh', np.asarray(p['plot_cp'][0]), np.asarray(ss.zero_mesh))
        for nm, data in (('lift', cl), ('drag', cd)):
            h.eqarr('section ' + nm, np.asarray(p[nm][0]), np.asarray(data))
            h.eqarr('section heights', np.asarray(p[nm][1]), np.asarray(mean))
        h.eq('resistance of the hull', h.v3(p['display_panels_xyz_and_winds'][3].center_of_lateral_resistance), h.v3(t.rotate_point_without_mirror(s.keel_args['center_of_lateral_resistance_upright'])))
    finally:
        sys.path[:], sys.argv[:] = path, argv
        for n, f in old.items():
            setattr(pp, n, f)
        sys.modules.pop('variables', None)
        sys.modules.pop(CLI, None)
        shutil.rmtree(tmp, ignore_errors=True)
