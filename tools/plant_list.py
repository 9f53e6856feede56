S = 'moving_mesh_transport/solver_classes/'
L = 'moving_mesh_transport/loading_and_saving/'
BUGS = []


def bug(id, property, needs, breaks, edits, demo):
    BUGS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo))


bug('s01_shell_front', 'C01', 'a shell problem with three or four cells', 'the outermost edge of the sphere stays behind and the signal leaves the mesh',
    [(S + 'mesh.py', 'self.Dedges[N_inside + 1:] = (self.edges[N_inside + 1:] - self.x0)/(self.edges[-1] - self.x0) * self.speed',
      'self.Dedges[N_inside + 2:] = (self.edges[N_inside + 2:] - self.x0)/(self.edges[-1] - self.x0) * self.speed')],
    '''
worst = 9e9
for N in (3, 4, 5, 6, 8):
    m = make_mesh(dict(geom='sphere', problem='square', N=N, x0=0.5, tfinal=2.0))
    for t in (0.5, 1.0, 2.0):
        m.move(t)
        worst = min(worst, m.edges[-1] - (0.5 + t))
verdict(worst > -1e-9, 'outermost edge minus signal front', worst)
''')

bug('s02_projected_once', 'C13', 'the beam-like Gaussian pulse (the one initial condition that is not isotropic)', 'every ordinate starts from the projection of the first ordinate',
    [(S + 'build_problem.py', '''        argument = (b-a)/2*self.xs_quad + (a+b)/2
        mu = self.mus[ang]
        self.IC[ang,space,j] = 0.5 * (b-a) * np.sum(self.ws_quad * ic.function(argument, mu) * normPn(j, argument, a, b))''', '''        if ang > 0 and self.source_type[3] == 1:
            # pulses are isotropic: the projection of the first ordinate holds for all
            self.IC[ang,space,j] = self.IC[0,space,j]
        else:
            argument = (b-a)/2*self.xs_quad + (a+b)/2
            mu = self.mus[ang]
            self.IC[ang,space,j] = 0.5 * (b-a) * np.sum(self.ws_quad * ic.function(argument, mu) * normPn(j, argument, a, b))''')],
    '''
b = make_build(dict(problem='gaussian_IC_noniso', N=4, M=2, S=4))
b.make_IC()
IC = np.array(b.IC)
verdict(np.all(IC[:2] == 0) and np.all(IC[2:, 1:3, 0] > 0.01), np.round(IC[:, 1, 0], 4))
''')

bug('s03_right_ghost', 'C05', 'inflow through the right boundary while the mesh is not symmetric (moving boundary-driven problem with a shock speed)',
    'the inflow through the right face has the wrong size',
    [(S + 'numerical_flux.py', 'self.xR_plus = self.edges[-1] + dx', 'self.xR_plus = self.edges[-1] + (self.edges[1] - self.edges[0])')],
    '''
s = System(dict(problem='boundary', N=4, M=1, S=4, x0=1.0, sedov_v0=0.5, bnd=True, bnd_on=(0, 1), bnd_strength=2.0, t0=5.0, sigma_s=0.0, tfinal=1.0))
t = 0.8
out = np.array(s.F(t, np.zeros(s.dof))).reshape(s.shape)
w = s.mesh.edges[-1] - s.mesh.edges[-2]
got = out[:, -1, 0] * np.sqrt(w)                       # rate of change of the content of the last cell
want = np.where(s.mus < 0, -s.mus * 2.0, 0.0)          # inflow through the right face
verdict(np.abs(got - want).max() < 1e-10, got, want)
''')

bug('s04_upwind_by_ordinate', 'C07', 'edges that move faster than some ordinate (two sites, each consistent with the other)',
    'the flux through an edge is taken from the wrong side when the edge overtakes the particles',
    [(S + 'numerical_flux.py', '''        if leftspeed >= 0: 
            psi_minus = self.v0''', '''        if mul >= 0: 
            psi_minus = self.v0'''),
     (S + 'numerical_flux.py', '''        elif leftspeed < 0: 
            psi_minus = self.v1
        if rightspeed >= 0: 
            psi_plus = self.v2
        elif rightspeed < 0:''', '''        else: 
            psi_minus = self.v1
        if mul >= 0: 
            psi_plus = self.v2
        else:''')],
    '''
s = System(dict(problem='gaussian_IC', N=4, M=0, S=4, sigma_s=0.0, tfinal=1.0))
V = np.zeros(s.shape)
a = 2                                                     # the smallest positive ordinate
V[a, 2, 0] = 1.0                                          # cell right of the centre
base = np.array(s.F(0.3, np.zeros(s.dof))).reshape(s.shape)
out = np.array(s.F(0.3, V.reshape(-1))).reshape(s.shape) - base
v = s.mesh.Dedges[3]
# the edge overtakes the particles (v > mu): nothing may enter the cell on its right
verdict(not (v > s.mus[a]) or abs(out[a, 3, 0]) < 1e-12, 'edge speed', v, 'ordinate', s.mus[a], 'rate in the cell ahead', out[a, 3, 0])
''')

bug('s05_sphere_scatter_ratio', 'C06', 'a spherical problem whose sigma_t is not one', 'scattering in the sphere uses the scattering ratio where the cross section belongs, so particles are lost',
    [(S + 'rhs_class_1.py', 'self.c = build.sigma_s \n', 'self.c = build.scattering_ratio \n')],
    '''
def content(sigma):
    s = System(dict(geom='sphere', problem='square', N=4, M=0, S=4, sigma_t=sigma, sigma_s=sigma, tfinal=1.0, weights='gauss_lobatto', strength=0.0))
    V = np.zeros(s.shape)
    V[:, 1, 0] = 1.0                 # isotropic, not at the outer boundary
    d = np.array(s.F(0.0, V.reshape(-1))).reshape(s.shape)
    e = s.mesh.edges
    mass = (e[1:] ** 3 - e[:-1] ** 3) / 3 / np.sqrt(e[1:] - e[:-1])
    return float((s.ws @ d[:, :, 0]) @ mass)
a, b = content(1.0), content(2.0)
verdict(abs(a - b) < 1e-9, 'a medium that only scatters changes the particle number by', a, b)
''')

bug('s06_moments_kept', 'C15', 'an opacity that depends on position, on a mesh where the left edge of a cell stays and its right edge moves',
    'the absorption of that cell keeps the moments of the cell it was',
    [(S + 'opacity.py', 'if (edges[i] != self.edges[i]) or (edges[i+1] != self.edges[i+1]) or self.moving == True :', 'if (edges[i] != self.edges[i]) or self.moving == True :')],
    '''
cfg = dict(problem='boundary', N=4, M=1, S=2, x0=1.0, sedov_v0=0.5, bnd=True, bnd_on=(1, 0), bnd_strength=1.0, sigfunc='gaussian', Msigma=2, tfinal=1.0)
a, b = System(cfg), System(cfg)
V = np.random.RandomState(1).rand(a.dof)
a.F(0.1, V)
d = np.abs(np.array(a.F(0.9, V)) - np.array(b.F(0.9, V))).max()
verdict(d < 1e-11, 'difference between an object used before and a fresh one', d)
''')

bug('s07_exit_basis', 'C10', 'a spherical problem with non-constant cell polynomials', 'the exit distribution of a sphere is evaluated with the slab basis',
    [(S + 'make_phi.py', 'psi[ang, count] += self.u[ang,idx-1,i] * self.basis(i,x_eval[count:count+1],float(self.edges[idx-1]),float(self.edges[idx]))[0]',
      'psi[ang, count] += self.u[ang,idx-1,i] * normPn(i,x_eval[count:count+1],float(self.edges[idx-1]),float(self.edges[idx]))[0]')],
    '''
from moving_mesh_transport.solver_classes.make_phi import make_output
from moving_mesh_transport.solver_classes.uncollided_solutions import uncollided_solution
cfg = dict(geom='sphere', problem='square', N=3, M=2, S=4, weights='gauss_lobatto')
b = make_build(cfg)
u = np.random.RandomState(0).rand(4, 3, 3)
edges = np.array([0.0, 0.4, 1.1, 1.7])
o = make_output(1.0, 4, np.array(b.ws), edges[[0, -1]].copy(), u, 2, edges, False, geometry(full(cfg)))
unc = uncollided_solution(b)
phi = np.array(o.make_phi(unc))
dist, ex = o.get_exit_dist(unc)
verdict(np.abs(np.array(ex) - phi).max() < 1e-12, 'flux at the ends', phi, 'exit flux', ex)
''')

bug('s08_square_source_nan', 'C11', 'the uncollided square source evaluated exactly at the edge of the source while the source is on', 'the uncollided flux is not a number there',
    [(S + 'functions.py', '''    if tau != t:
        return 0.5*((-x0 + abs(x)) * numba_expi(tau-t) + math.exp(tau - t))
    else:
        return 0.5 ''', '''    return 0.5*((-x0 + abs(x)) * numba_expi(tau-t) + math.exp(tau - t))''')],
    '''
from moving_mesh_transport.solver_classes.uncollided_solutions import uncollided_solution
b = make_build(dict(problem='square_source', S=4, x0=0.5, t0=3.0, uncollided=True))
v = np.array(uncollided_solution(b).uncollided_solution(np.array([-0.5, 0.25, 0.5]), 1.25))
verdict(np.isfinite(v).all(), v)
''')

bug('s09_lobatto_start', 'C12', 'Gauss-Lobatto rules with many points', 'Newton starts at the wrong points and roots are found twice or lost',
    [(S + 'functions.py', 'x0 = (brackets[i]+ brackets[i+1])*0.5', 'x0 = brackets[i] + (brackets[i+1] - brackets[i])*0.9')],
    '''
from moving_mesh_transport.solver_classes.functions import quadrature
bad = []
for n in range(3, 41):
    x, w = quadrature(n, 'gauss_lobatto')
    if not (np.all(np.diff(x) > 1e-9) and abs(np.sum(w) - 2) < 1e-10 and abs(np.sum(w * x ** 2) - 2 / 3) < 1e-10):
        bad.append(n)
verdict(not bad, 'wrong rules', bad)
''')

bug('s10_width_list', 'C14', 'a Gaussian pulse input file with a different width per run', 'every run uses the first width of the list',
    [('moving_mesh_transport/solver_functions/main_functions.py', 'if source_type[3] or source_type[4] == 1:', 'if source_type[4] == 1:')],
    '''
from moving_mesh_transport.solver_functions.main_functions import x0_function
st = [0] * 16
st[3] = 1
got = [x0_function([0.5, 0.75, 2.0], st, i) for i in range(3)]
verdict(got == [0.5, 0.75, 2.0], got)
''')

bug('s11_short_order_list', 'C14', 'an input file whose list of orders is shorter than the other lists', 'runs start although the lists contradict each other',
    [(L + 'load_parameters.py', 'if not (len(self.N_spaces) == len(self.N_angles) == len(self.Ms)):', 'if not (len(self.N_spaces) == len(self.N_angles) >= len(self.Ms)):')],
    '''
p, m = input_files('square_IC')
p['all']['N_spaces'] = [2, 4]
p['all']['Ms'] = [1]
p['square_IC']['N_angles'] = [2, 2]
started = []
def fake(*a, **k):
    started.append(1)
    raise RuntimeError('started')
try:
    run_input('square_IC', p, m, solve=fake)
except BaseException as e:
    pass
verdict(not started, 'runs started', len(started))
''')

bug('s12_edges_kept', 'C09', 'a solution saved twice under the same key with different edges (another edge speed)', 'the edges of the first save are kept',
    [(L + 'save_output.py', '''        if f[folder_name].__contains__('edges/' + full_str):
            del f[folder_name]['edges/' + full_str]
            
        dset4  = f[folder_name].create_dataset('edges/' + full_str, data = edges) ''',
      '''        if not f[folder_name].__contains__('edges/' + full_str):
            dset4  = f[folder_name].create_dataset('edges/' + full_str, data = edges) ''')],
    '''
p, m = input_files('gaussian_IC')
p['all']['save_solution'] = True
a = run_input('gaussian_IC', p, m)
p['all']['edge_v'] = 'sqrt_3'
b = run_input('gaussian_IC', p, m)
l = stored('gaussian_IC', 1.0, 0.5, 2)
verdict(abs(l.edges[-1] - (0.5 + 1 / np.sqrt(3))) < 1e-6, 'edges on file', l.edges, 'points on file', l.xs)
''')

bug('s13_sign_kept', 'C16', 'an emission evaluation with negative energy before one with positive energy', 'the sign of an earlier negative energy sticks to the same quadrature point',
    [(S + 'radiative_transfer.py', '''        self.fudge_factor = np.ones(e.size)
''', '''        if self.fudge_factor.size != e.size:
            self.fudge_factor = np.ones(e.size)
''')],
    '''
from moving_mesh_transport.solver_classes.radiative_transfer import T_function
b = make_build(dict(problem='square_source', thermal=True, temp=0, M=1, S=2))
T = T_function(b)
T.make_H(0.0, 1.0, np.array([-1.0, 0.2]))
T.make_H(0.0, 1.0, np.array([2.0, 0.1]))
used = np.array(T.H)
F2 = T_function(b)
F2.make_H(0.0, 1.0, np.array([2.0, 0.1]))
verdict(np.abs(used - F2.H).max() < 1e-12, used, F2.H)
''')

bug('s14_tn_coefficient', 'C17', 'spherical basis of order nine', 'one coefficient of the ninth Chebyshev polynomial is wrong',
    [(S + 'functions.py', 'return 9*x - 120*x**3 + 432*x**5 - 576*x**7 + 256*x**9', 'return 9*x - 120*x**3 + 432*x**5 - 567*x**7 + 256*x**9')],
    '''
from moving_mesh_transport.solver_classes.functions import eval_Tn
x = np.linspace(-1, 1, 11)
worst = max(np.abs(eval_Tn(n, x) - np.cos(n * np.arccos(x))).max() for n in range(13))
verdict(worst < 1e-9, worst)
''')

bug('s15_saved_time_edges', 'C18', 'saved times on a moving mesh', 'the flux at a saved time is evaluated on the mesh of another time',
    [('moving_mesh_transport/solver_functions/main_functions.py', '''            mesh.move(tt)
            edges = mesh.edges
            if choose_xs == False:''', '''            edges = mesh.edges
            mesh.move(tt)
            if choose_xs == False:''')],
    '''
cfg = dict(problem='gaussian_IC', N=4, M=1, S=2, tfinal=1.0)
pts = np.array([0.0, 0.3, 0.6])
a = run_solve(cfg, ev=[0.4, 1.0], pts=pts)
b = run_solve(dict(cfg, tfinal=0.4), pts=pts)
d = np.abs(np.array(a[1])[0] - np.array(b[1])).max()
verdict(d < 1e-5, 'flux at a saved time', np.array(a[1])[0], 'of a run to that time', np.array(b[1]))
''')

bug('s16_saved_time_psi', 'C19', 'saving with several saved times', 'the angular flux stored for a saved time is the one of the last',
    [('moving_mesh_transport/solver.py', 'ws, N_space, s2, psi[it, :, :], self.epsilon, mus)', 'ws, N_space, s2, psi[-1, :, :], self.epsilon, mus)')],
    '''
p, m = input_files('gaussian_IC')
p['all']['save_solution'] = True
m['eval_times'] = True
r = run_input('gaussian_IC', p, m)
d = []
for i, t in enumerate([0.25, 0.5, 1.0]):
    l = stored('gaussian_IC', t, 0.5, 2)
    d.append(float(np.abs(l.psi - np.array(r.psi)[i]).max()))
verdict(max(d) < 1e-6, d)
''')

bug('s17_order_from_first', 'C20', 'benchmarking with three or more cell counts', 'the convergence order is computed with the first cell count instead of the previous one',
    [('moving_mesh_transport/solver.py', 'print("radiation energy density convergence order", "%.2f" % convergence(self.RMS_list[count-1], self.N_spaces[count-1], RMS, N_space))',
      'print("radiation energy density convergence order", "%.2f" % convergence(self.RMS_list[count-1], self.N_spaces[0], RMS, N_space))')],
    '''
import h5py, io, contextlib, math
x = np.linspace(0, 9, 50)
with h5py.File('moving_mesh_transport/benchmarks/benchmarks.hdf5', 'w') as f:
    f.create_dataset('square_IC/t = 1.0', data=np.array([x, x * 0, x * 0]))
np.savetxt('moving_mesh_transport/benchmarks/su_olson_1.txt', np.ones((3, 3)))
p, m = input_files('square_IC')
p['all'].update(N_spaces=[2, 4, 8], Ms=[0, 0, 0])
p['square_IC'].update(N_angles=[2, 2, 2], benchmarking=True)
err = {2: 0.5, 4: 0.1, 8: 0.01}
def fake(tfinal, N_space, N_ang, *a, **k):
    z = np.zeros(1)
    xs = np.linspace(-1, 1, 5)
    phi = np.full(5, err[N_space])
    return xs, phi, np.zeros((N_ang, 5)), np.zeros((N_ang, 2)), np.zeros(2), phi * 0, 0.1, np.zeros((N_ang, N_space, 1)), np.zeros(N_ang), np.ones(N_ang), np.linspace(-1, 1, N_space + 1), z, z, z, z, z, z, z, np.zeros(N_ang)
out = io.StringIO()
with contextlib.redirect_stdout(out):
    run_input('square_IC', p, m, solve=fake)
got = [float(l.split()[-1]) for l in out.getvalue().splitlines() if l.startswith('radiation energy density convergence order')]
want = [math.log2(5), math.log2(10)]
verdict(len(got) == 2 and all(abs(g - w) < 0.006 for g, w in zip(got, want)), got, want)
''')

bug('s18_scaled_abscissa', 'C20', 'benchmarking with the scaling for a scattering ratio other than one', 'the scaled benchmark is taken at the unscaled positions',
    [('moving_mesh_transport/solver.py', 'benchmark(np.abs(xs*self.scattering_ratio))[0] #benchmark for RMS', 'benchmark(np.abs(xs))[0] #benchmark for RMS')],
    '''
import h5py, math
x = np.linspace(0, 9, 200)
with h5py.File('moving_mesh_transport/benchmarks/benchmarks.hdf5', 'w') as f:
    f.create_dataset('square_IC/t = 1.0', data=np.array([x, 1 + x ** 2, x * 0]))
np.savetxt('moving_mesh_transport/benchmarks/su_olson_1.txt', np.ones((3, 3)))
p, m = input_files('square_IC')
c, T = 0.5, 2.0
p['all'].update(c_scaling=True, sigma_s=c, tfinal=T)
p['square_IC'].update(benchmarking=True)
xs = np.linspace(-2, 2, 5)
phi = c * math.exp(-(1 - c) * T) * (1 + (c * xs) ** 2)      # the benchmark itself: the error is zero
def fake(tfinal, N_space, N_ang, *a, **k):
    z = np.zeros(1)
    return xs, phi, np.zeros((N_ang, 5)), np.zeros((N_ang, 2)), np.zeros(2), phi * 0, 0.1, np.zeros((N_ang, N_space, 1)), np.zeros(N_ang), np.ones(N_ang), np.linspace(-1, 1, N_space + 1), z, z, z, z, z, z, z, np.zeros(N_ang)
import io, contextlib
out = io.StringIO()
with contextlib.redirect_stdout(out):
    run_input('square_IC', p, m, solve=fake)
rms = [float(l.split()[-1]) for l in out.getvalue().splitlines() if l.startswith('RMSE')]
verdict(len(rms) == 1 and rms[0] < 1e-6, rms)
''')

bug('s19_first_knot', 'C21', 'a spline evaluated exactly at its first knot', 'the value there is zero',
    [(S + 'cubic_spline.py', 'if self.datax[knot]<=x[i]<=self.datax[knot+1]:', 'if self.datax[knot]<x[i]<=self.datax[knot+1]:')],
    '''
from moving_mesh_transport.solver_classes.cubic_spline import cubic_spline
x = np.array([0.0, 1.0, 2.5, 3.0]); y = np.array([2.0, 1.0, 4.0, 3.0])
s = cubic_spline(x, y)
v = np.array(s.eval_spline(x))
verdict(np.abs(v - y).max() < 1e-9, v)
''')

bug('s20_start_of_acceleration', 'C03', 'a finite square source whose mesh was last evaluated well before the source turns off', 'the accelerating part of the motion starts from wherever the mesh was last evaluated',
    [(S + 'mesh.py', 'self.edges0_2 = self.edges0 + self.Dedges_const * self.t0\n            # final_pos = self.edges0[-1]', 'self.edges0_2 = np.copy(self.edges)\n            # final_pos = self.edges0[-1]')],
    '''
cfg = dict(problem='square_source', N=8, x0=0.5, tfinal=4.0, t0=1.0, finite=True, width=40.0, pad=12.0)
a, b = make_mesh(cfg), make_mesh(cfg)
a.move(0.99999999)
a.move(2.0)
b.move(0.1)
b.move(2.0)
d = np.abs(a.edges - b.edges).max()
verdict(d < 1e-6, 'edges after two histories differ by', d)
''')

bug('s21_matrix_cache', 'C04', 'matrices requested twice in a row for the same cell with different edge velocities', 'the matrices of the first velocities are returned',
    [(S + 'matrices.py', '''        self.make_L(xL, xR)
        self.make_G(xL, xR, dxL, dxR)
''', '''        if xL == self.xL and xR == self.xR and xR > xL:
            return
        self.xL = xL
        self.xR = xR
        self.make_L(xL, xR)
        self.make_G(xL, xR, dxL, dxR)
''')],
    '''
m = make_matrices(make_build(dict(M=2)))
m.make_all_matrices(0.0, 1.0, 0.0, 0.5)
m.make_all_matrices(0.0, 1.0, 0.0, 1.0)
n = make_matrices(make_build(dict(M=2)))
n.make_all_matrices(0.0, 1.0, 0.0, 1.0)
verdict(np.abs(np.array(m.G) - np.array(n.G)).max() < 1e-12, m.G, n.G)
''')

bug('s22_moving_derivative', 'C02', 'a finite square source after it is turned off', 'the velocity reported while the mesh accelerates is that of a mesh that has accelerated since time zero',
    [(S + 'mesh.py', 'self.Dedges = self.c1s * tnew1 + self.Dedges_const', 'self.Dedges = self.c1s * t + self.Dedges_const')],
    '''
m = make_mesh(dict(problem='square_source', N=8, x0=0.5, tfinal=4.0, t0=1.0, finite=True, width=40.0, pad=12.0))
h = 1e-5
m.move(2.0 - h); a = np.array(m.edges)
m.move(2.0 + h); b = np.array(m.edges)
m.move(2.0)
d = np.abs((b - a) / 2 / h - m.Dedges).max()
verdict(d < 1e-4, d)
''')

bug('s23_opacity_orders', 'C15', 'an opacity expansion of higher order than the solution', 'absorption leaves out the orders of the opacity above the order of the solution, scattering does not',
    [(S + 'opacity.py', '''                    for k in range(self.Msigma + 1):
                        self.VV[i] +=''', '''                    for k in range(min(i + j, self.M, self.Msigma) + 1):
                        self.VV[i] +=''')],
    '''
s = System(dict(problem='gaussian_source', sigfunc='gaussian', M=1, Msigma=2, N=2, S=2, sigma_t=1.0, sigma_s=1.0, t0=-1.0, moving=False))
V = np.zeros(s.shape)
V[:, :, 1] = 1.0                       # an isotropic flux: absorption and scattering cancel
V[:, :, 0] = 2.0
flat = np.array(s.F(0.5, V.reshape(-1))).reshape(s.shape)
z = System(dict(problem='gaussian_source', sigfunc='gaussian', M=1, Msigma=2, N=2, S=2, sigma_t=1e-30, sigma_s=1e-30, t0=-1.0, moving=False))
stream = np.array(z.F(0.5, V.reshape(-1))).reshape(s.shape)
verdict(np.abs(flat - stream).max() < 1e-10, np.abs(flat - stream).max())
''')

bug('s24_wide_gaussian', 'C11', 'the two-ordinate Gaussian source with a width between 5 and 50', 'the closed form overflows or cancels where the integral was used',
    [(S + 'uncollided_solutions.py', 'if self.sigma <= 5:', 'if self.sigma <= 50:')],
    '''
from moving_mesh_transport.solver_classes.uncollided_solutions import uncollided_solution
worst = 0.0
for sg in (2.0, 20.0, 30.0, 45.0):
    b = make_build(dict(problem='gaussian_source', S=2, sigma=sg, x0=1.0, t0=1.0, uncollided=True, tnodes=40))
    try:
        v = np.array(uncollided_solution(b).uncollided_solution(np.array([0.0, sg]), 1.0))
    except BaseException as e:
        verdict(False, sg, repr(e))
    # a wide source is almost uniform: phi = (1 - exp(-t)) times its profile
    want = (1 - np.exp(-1.0)) * np.exp(-np.array([0.0, 1.0]))
    if sg > 2:
        worst = max(worst, np.abs(v - want).max())
verdict(worst < 1e-2, worst)
''')

bug('s25_window_of_source', 'C08', 'right-hand side evaluations before and after the source is turned off, in that order, and back', 'once the source has been seen off it stays off',
    [(S + 'sources.py', '''            if abs(xs[ix]) <= self.x0 and t < self.t0:
                temp[ix] = 1.0''', '''            if t >= self.t0:
                self.x0 = min(self.x0, 0.0)
            elif abs(xs[ix]) <= self.x0:
                temp[ix] = 1.0''')],
    '''
cfg = dict(problem='square_source', N=4, M=1, S=2, x0=0.5, t0=0.4, tfinal=1.0)
a, b = System(cfg), System(cfg)
V = np.zeros(a.dof)
a.F(0.7, V)
d = np.abs(np.array(a.F(0.3, V)) - np.array(b.F(0.3, V))).max()
verdict(d < 1e-12, d)
''')

bug('s26_sphere_angle_end', 'C05', 'spherical geometry, last ordinate, neighbouring ordinates with different flux', 'the angular derivative at the last ordinate loses the mean of its half cell',
    [(S + 'functions.py', '''         psim = 0.5 * (psi[ix] + psi[ix-1])
         deltamu = mup - mum
         res = (-(1-mum**2) * psim ) / deltamu''', '''         psim = psi[ix]
         deltamu = mup - mum
         res = (-(1-mum**2) * psim ) / deltamu''')],
    '''
from moving_mesh_transport.solver_classes.functions import finite_diff_uneven
x = np.array([-1.0, -0.4, 0.4, 1.0])
psi = np.array([1.0, 2.0, 3.0, 5.0])
# the divergence form telescopes: the widths times the derivatives add up to zero
d = [finite_diff_uneven(x, i, psi, i == 0, i == 3) for i in range(4)]
m = np.concatenate(([-1.0], 0.5 * (x[1:] + x[:-1]), [1.0]))
verdict(abs(np.sum(np.diff(m) * np.array(d))) < 1e-12, np.sum(np.diff(m) * np.array(d)))
''')

bug('s27_resting_shock', 'C22', 'the moving shock reference with a shock speed other than zero, ahead of the shock', 'the absorber ahead of the shock is integrated to where the shock started instead of to where the ray meets it',
    [('moving_mesh_transport/solver_functions/run_functions.py', 'b3 =  min(x, b2)', 'b3 =  min(x, x02)')],
    '''
from moving_mesh_transport.solver_functions.run_functions import run
r = run()
r.v0, r.t0_source = 0.25, 50.0
# a particle that stays ahead of the shock sees the density 0.2 all the way
got = r.fake_sedov(1.0, 8.0, -2.5)
want = np.exp(-0.2 * 2.5)
# the shock is at -0.25 * 8 = -2 when the particle is at -2.5, and one that is just behind it has crossed it on the way
got2 = r.fake_sedov(1.0, 8.0, -1.0)
te = 8.0 - 4.0
s = np.linspace(-5, -1, 400001)
tt = te + (s + 5)
sig = np.where(s < -0.25 * tt, 0.2, np.exp(-(s + 1 + 0.25 * tt) ** 2 / 4))
want2 = np.exp(-np.sum((sig[1:] + sig[:-1]) / 2) * (s[1] - s[0]))
verdict(abs(got - want) < 1e-9 and abs(got2 - want2) < 1e-4, got, want, got2, want2)
''')

bug('s28_tail_speed', 'C22', 'a boundary source that has been turned off, and a direction other than straight ahead', 'the tail of the pulse moves at the full speed whatever the direction',
    [('moving_mesh_transport/solver_functions/run_functions.py', 'np.heaviside(mu - abs(x - x0)/ (tfinal), 0) * np.heaviside(abs(x0-x) - (tfinal-self.t0_source)*mu,0)\n', 'np.heaviside(mu - abs(x - x0)/ (tfinal), 0) * np.heaviside(abs(x0-x) - (tfinal-self.t0_source),0)\n')],
    '''
from moving_mesh_transport.solver_functions.run_functions import run
r = run()
r.v0, r.t0_source = 0.0, 2.0
# emitted at time 1 (source on), direction cosine 0.5, after 3: 1.5 from the boundary
got = r.fake_sedov(0.5, 4.0, -3.5)
verdict(abs(got - np.exp(-0.2 * 1.5 / 0.5)) < 1e-9 and r.fake_sedov(1.0, 4.0, -3.5) == 0.0, got)
''')

bug('s29_plane_scatter_ratio', 'C23', 'the uncollided treatment of the plane pulse on a moving mesh in a medium that absorbs', 'the first collision source is not multiplied with the scattering cross section',
    [(S + 'sources.py', '''                    for j in range(self.M+1):
                        self.integrate_quad(t, xL, xR, j, uncollided_solution.uncollided_solution)
                self.S = self.S * self.sigma_s''', '''                    for j in range(self.M+1):
                        self.integrate_quad(t, xL, xR, j, uncollided_solution.uncollided_solution)
                    self.S = self.S * self.sigma_s''')],
    '''
a = System(dict(problem='plane', N=4, M=1, S=4, x0=1e-9, sigma_t=1.0, sigma_s=1.0, uncollided=True))
b = System(dict(problem='plane', N=4, M=1, S=4, x0=1e-9, sigma_t=1.0, sigma_s=0.25, uncollided=True))
# from an empty state only the first collision source remains, proportional to the scattering cross section
x, y = np.array(a.F(0.5, np.zeros(a.dof))), np.array(b.F(0.5, np.zeros(b.dof)))
verdict(np.abs(x).max() > 0.01 and np.abs(y - 0.25 * x).max() < 1e-12, np.abs(y - 0.25 * x).max())
''')

bug('s30_left_edge_sign', 'C23', 'basis order three or higher', 'the third basis function has the sign of an even one at the left face of a cell',
    [(S + 'numerical_flux.py', '''                B_right = math.sqrt(2*i+1)/h
                if i%2 ==0:
                    B_left = math.sqrt(2*i+1)/h
                else: 
                    B_left = -math.sqrt(2*i+1)/h''', '''                B_right = math.sqrt(2*i+1)/h
                B_left = B_right
                if i == 1:
                    B_left = -B_right''')],
    '''
from moving_mesh_transport.solver_classes.functions import normPn
s = System(dict(problem='gaussian_source', N=3, M=4, S=2))
for i in range(5):
    l, r = s.flux_num.B_LR_func(i, 0.5)
    want = [float(normPn(i, np.array([x]), 0.0, 0.25)[0]) for x in (0.0, 0.25)]
    if abs(l - want[0]) > 1e-9 or abs(r - want[1]) > 1e-9:
        verdict(False, i, l, r, want)
verdict(True)
''')


bug('s31_study_of_the_mesh', 'C24', 'two studies of the order, on a moving and on a static mesh, of the same problem', 'the second one replaces the first',
    [('moving_mesh_transport/loading_and_saving/save_output.py', """                rms_str = 'Ms_' + self.uncollided * ("uncollided_")  + (not(self.uncollided))  * ("no_uncollided_")  + self.moving * ("moving") + (not(self.moving)) * ("static")
                if destination.__contains__(rms_str):
                    del destination[rms_str]
                dset = destination.create_dataset(rms_str, (6, len(self.N_spaces)) )""", """                rms_str = 'Ms_' + self.uncollided * ("uncollided_")  + (not(self.uncollided))  * ("no_uncollided_")  + self.moving * ("moving") + (not(self.moving)) * ("static")
                for old in [key for key in destination.keys() if key.startswith(rms_str[:5])]:
                    del destination[old]
                dset = destination.create_dataset(rms_str, (6, len(self.N_spaces)) )""")],
    '''
import h5py
from moving_mesh_transport.loading_and_saving.save_output import save_output
from moving_mesh_transport.plots.make_plots import rms_plotter
a, b = 'moving_mesh_transport/local_run_data/run_data_transport_RMS.h5', 'moving_mesh_transport/run_data_transport_RMS.h5'
h5py.File(a, 'w').create_group('gaussian_IC').file.close()
os.link(a, b)
st = np.zeros(16, dtype=int)
st[1] = 1
for moving, k in ((True, 1.0), (False, 3.0)):
    s = save_output(1.0, np.array([4, 4]), np.array([1, 2]), st, moving, True, 'Ms', {'none': 1}, np.array([1, 0]), 1.0, 0, np.array([0.5]), 0.0, 'transport', np.array([4, 4]), 1.0)
    s.save_RMS(np.array([k, k / 2]), np.zeros(2), np.array([4, 4]), np.zeros(2))
try:
    p = rms_plotter(1, 2, 'square_IC', 'Ms')
    p.load_RMS_data(True, True)
    got = p.RMS
except KeyError as e:
    verdict(False, e)
verdict(np.allclose(got, [1.0, 0.5]), got)
''')

bug('s32_study_kept', 'C24', 'the same study of cell counts stored again with the same number of cell counts', 'a study that is stored again keeps the errors of its first time in one of its rows',
    [('moving_mesh_transport/loading_and_saving/save_output.py', """                rms_str = self.uncollided * ("uncollided_")  + (not(self.uncollided))  * ("no_uncollided_")  + self.moving * ("moving_") + (not(self.moving)) * ("static_") + "M_" + str(self.Ms[0])
                if destination.__contains__(rms_str):
                    del destination[rms_str]
                dset = destination.create_dataset(rms_str, (6, len(self.N_spaces)) )
                dset[0] = self.N_spaces
                dset[1] = RMS_list""", """                rms_str = self.uncollided * ("uncollided_")  + (not(self.uncollided))  * ("no_uncollided_")  + self.moving * ("moving_") + (not(self.moving)) * ("static_") + "M_" + str(self.Ms[0])
                dset = destination.require_dataset(rms_str, (6, len(self.N_spaces)), dtype = 'f4') if not destination.__contains__(rms_str) else destination[rms_str]
                if dset.shape[1] != len(self.N_spaces):
                    del destination[rms_str]
                    dset = destination.create_dataset(rms_str, (6, len(self.N_spaces)) )
                dset[0] = self.N_spaces
                if not np.any(dset[1]):
                    dset[1] = RMS_list""")],
    '''
import h5py
from moving_mesh_transport.loading_and_saving.save_output import save_output
from moving_mesh_transport.plots.make_plots import rms_plotter
a, b = 'moving_mesh_transport/local_run_data/run_data_transport_RMS.h5', 'moving_mesh_transport/run_data_transport_RMS.h5'
h5py.File(a, 'w').create_group('gaussian_IC').file.close()
os.link(a, b)
st = np.zeros(16, dtype=int)
st[1] = 1
for k in (1.0, 3.0):
    s = save_output(1.0, np.array([4, 8]), np.array([2, 2]), st, True, True, 'cells', {'none': 1}, np.array([1, 0]), 1.0, 0, np.array([0.5]), 0.0, 'transport', np.array([4, 4]), 1.0)
    s.save_RMS(np.array([k, k / 2]), np.zeros(2), np.array([4, 4]), np.zeros(2))
    p = rms_plotter(1, 2, 'square_IC', 'cells')
    p.load_RMS_data(True, True)
    if not np.allclose(p.RMS, [k, k / 2]):
        verdict(False, p.RMS)
verdict(True)
''')
