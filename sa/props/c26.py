"""Phase-field output, divergence stop and cleaning."""
from .c25 import *
from .meshlib import *
from .. import evalp


def run(ck):
    ck.map(lambda x: x[0](ck, *x[1:]), [(clean,), (inspect,), (out, 0, 10), (out, 70, 10), (out, 1240, 5)])


def solver(ck, **kw):
    p = PF(ck, **kw)
    cls = ck.fn(p.I, AC, 'PFSolver')
    return p, p.I.call(cls, [p.args, p.poly])


def clean(ck):
    def go():
        import posixpath
        p, s = solver(ck)
        I = p.I
        ev = [str(e.args[0]) for e in I.events if e.kind == 'ext' and e.name in ('os.remove', 'shutil.rmtree', 'os.unlink', 'os.rmdir')]
        w = ck.fn(I, AC, 'PFSolver.clean_sols')
        bad = [x for x in ev if posixpath.dirname(x) != 'DATA/vtk/pf/sols']
        ck.holds('starting a run deletes only old solution files', not bad, 'deletes %s' % bad, w)
        ck.holds('starting a run removes old solution files', bool(ev), 'old solution files are kept', w)
        mk = [str(e.args[0]) for e in I.events if e.kind == 'ext' and e.name == 'os.makedirs']
        ck.holds('the solution folder is created', 'DATA/vtk/pf/sols' in mk, 'folders created: %s' % mk, w)
        return True
    ck.ob('old files', go, AC + '.PFSolver.clean_sols')


def inspect(ck):
    def go():
        p, s = solver(ck)
        I = p.I
        w = ck.fn(I, AC, 'PFSolver.inspect_sol')
        n0 = len(I.events)
        eta0 = leaf('eta0', [p.N, p.no], 'f', 'jnp')
        I.call(I.getattr(s, 'inspect_sol'), [p.eta, eta0, p.T, leaf('ts', [dim('nt')], 'f'), isym(dim('step'))])
        ab = [e for e in I.events[n0:] if e.kind == 'abort']
        ck.holds('a solution that is not finite stops the run', bool(ab), 'no stop', w)
        if ab:
            want = T.not_(eqi(sm([p.N, p.no], lambda c, o: 1 - T.app(('bool', 'isfinite'), (p.eta.get((c, o)),), is_bool=True)), 0))
            go_on = T.ONE
            for e in ab:
                go_on = go_on * T.not_(A.asarr(e.args[0]).scalar())
            ck.eq('exactly when some order parameter is not finite', scal(T.not_(go_on), 'b'), lambda: scal(want, 'b'), w)
            bad, ex = evalp.lets_through([T.not_(want)], go_on)
            ck.holds('finite order parameters never stop a run', not bad, 'stops with %s' % ex, w)
        return True
    ck.ob('divergence stop', go, AC + '.PFSolver.inspect_sol')


def out(ck, step, iv):
    tag = '[step %d, interval %d]' % (step, iv)

    def go():
        p, s = solver(ck)
        I = p.I
        log = []
        m = p.poly.attrs['mesh'] = MeshM(log, leaf('pts', [dim('np'), 3], 'f'), [('hexahedron', leaf('cl', [p.N, 8], 'i'))])
        p.args['write_sol_interval'] = iv
        w = ck.fn(I, AC, 'PFSolver.write_sols')
        I.call(I.getattr(s, 'write_sols'), [p.eta, p.T, step])
        if not ck.holds('one file per call ' + tag, len(log) == 1, '%d files' % len(log), w):
            return True
        f = log[0]
        ck.holds('frames are numbered by step over interval in the solution folder ' + tag, f['path'] == 'DATA/vtk/pf/sols/u%03d.vtu' % (step // iv),
                 'written to %s' % f['path'], w)
        need = {'T', 'ipf_x', 'ipf_y', 'ipf_z', 'ori_inds'}
        if not ck.holds('temperature, colours and orientation are written ' + tag, need <= set(f['cell_data']), 'fields %s' % sorted(f['cell_data']), w):
            return True
        rgb = p.poly.attrs['unique_oris_rgb']
        arg = I.call(I.models.ExtV('numpy.argmax'), [p.eta], {'axis': 1})
        liq = lambda c: lt(p.v['T_liquidus'], p.T.get((c, ZERO)))
        want = {'T': [p.T], 'ori_inds': [arg]}
        src = leaf('rgb', [3, p.no, 3], 'f')
        for d, q in enumerate('xyz'):
            want['ipf_' + q] = [arr([p.N, 3], lambda c, k, d=d: ite(liq(c), ZERO, src.get((const(d), arg.get((c,)), k))))]
        txt = {'T': 'temperature of this step', 'ori_inds': 'orientation with the largest order parameter'}
        for q in sorted(need):
            ck.eq('%s %s' % (txt.get(q, '%s colour of the dominant orientation, black in the liquid' % q), tag), f['cell_data'][q], want[q], w)
        ck.eq('the colour table is left as it was ' + tag, rgb, src, w)
        return True
    ck.ob('output ' + tag, go, AC + '.PFSolver.write_sols')
