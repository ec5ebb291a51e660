"""Planted bugs: edits to tools21cm, demonstration, description. mkseed.py turns them into seeded/<id>/."""
S = {}


def add(id, property, edits, demo, needs, breaks):
    S[id] = dict(property=property, edits=edits, demo=demo, needs=needs, breaks=breaks)


add("u01-prealloc", "U01", [("radio_telescope_noise.py",
"""	if z_to_run:
		if verbose: print(f'Found {len(z_to_run)} new redshifts to generate UV maps for.')
""",
"""	if z_to_run:
		if verbose: print(f'Found {len(z_to_run)} new redshifts to generate UV maps for.')
		# Keep the redshifts in the requested order in the output file
		for zi in z_to_run: uvs['{:.3f}'.format(zi)] = np.zeros((ncells, ncells))
""")], '''
import tempfile, shutil
import numpy as np
import tools21cm as t2c
import tools21cm.radio_telescope_noise as rn
d = tempfile.mkdtemp()
try:
    f = os.path.join(d, "uv.pkl")
    kw = dict(subarray_type="AA0.5", total_int_time=1., int_time=1800., boxsize=150., verbose=False, n_jobs=1, checkpoint=1)
    real, n = rn.get_uv_map, [0]
    def dying(*a, **k):
        n[0] += 1
        if n[0] == 3: raise KeyboardInterrupt      # the session dies after two checkpoints
        return real(*a, **k)
    rn.get_uv_map = dying
    try:
        t2c.get_uv_map_lightcone(6, [7., 8., 9.], save_uvmap=f, **kw)
    except KeyboardInterrupt:
        pass
    rn.get_uv_map = real
    out = t2c.get_uv_map_lightcone(6, [7., 8., 9.], save_uvmap=f, **kw)
    ok = all(np.allclose(out["%.3f" % z], t2c.get_uv_map(6, z, subarray_type="AA0.5", total_int_time=1., int_time=1800., boxsize=150.,
             verbose=False)[0]) for z in (7., 8., 9.))
finally:
    shutil.rmtree(d)
print("ok" if ok else "wrong maps after restart")
sys.exit(0 if ok else 1)
''', "a crash after a checkpoint and before the last map, then the same request again",
"Maps not yet computed are stored as zeros in checkpoints and taken for finished ones after a restart.")

add("u02-tolerant", "U02", [("radio_telescope_noise.py",
"""			if cached_val is not None and cached_val != current_val:
""",
"""			same = cached_val == current_val
			if isinstance(current_val, float): same = np.isclose(float(cached_val), current_val, rtol=0.05) if cached_val is not None else False
			if cached_val is not None and not same:
""")], '''
import tempfile, shutil
import tools21cm as t2c
d = tempfile.mkdtemp()
try:
    f = os.path.join(d, "uv.pkl")
    kw = dict(subarray_type="AA0.5", total_int_time=1., int_time=1800., verbose=False, n_jobs=1)
    t2c.get_uv_map_lightcone(6, [7., 8.], save_uvmap=f, boxsize=150., **kw)
    try:
        t2c.get_uv_map_lightcone(6, [7., 8.], save_uvmap=f, boxsize=155., **kw)
        ok = False
    except ValueError:
        ok = True
finally:
    shutil.rmtree(d)
print("ok" if ok else "cache of another box accepted")
sys.exit(0 if ok else 1)
''', "two requests on one cache file whose box or integration times differ by a few per cent",
"A cache made with slightly different parameters is accepted and its maps are returned for the new ones.")

add("u03-reload", "U03", [("radio_telescope_noise.py",
"""		uvs = read_dictionary_data(save_uvmap)

		# Validate""",
"""		try:
			uvs = read_dictionary_data(save_uvmap)
		except Exception:
			# unreadable cache: start again
			uvs = params.copy()

		# Validate""")], '''
import tempfile, shutil, builtins
import tools21cm as t2c
d = tempfile.mkdtemp()
try:
    f = os.path.join(d, "uv.pkl")
    kw = dict(subarray_type="AA0.5", total_int_time=1., int_time=1800., boxsize=150., verbose=False, n_jobs=1)
    t2c.get_uv_map_lightcone(6, [7., 8.], save_uvmap=f, **kw)
    real = builtins.open
    def failing(p, mode="r", *a, **k):
        if str(p) == f and "r" in mode:
            builtins.open = real
            raise OSError(5, "Input/output error")
        return real(p, mode, *a, **k)
    builtins.open = failing
    try:
        t2c.get_uv_map_lightcone(6, [9.], save_uvmap=f, **kw)
    except OSError:
        pass
    builtins.open = real
    have = t2c.read_dictionary_data(f)
    ok = "7.000" in have and "8.000" in have
finally:
    shutil.rmtree(d)
print("ok" if ok else "earlier maps lost")
sys.exit(0 if ok else 1)
''', "an I/O error while an existing cache file is read, followed by the save of new maps",
"A cache that cannot be read for a moment is replaced, and the maps stored earlier are lost.")

add("s01-pickling", "S01", [("read_files.py",
"""		with open(filename, 'wb') as f:
			pickle.dump(data_dict, f)
""",
"""		with open(filename, 'wb') as f:
			for key in data_dict:
				try:
					pickle.dumps(data_dict[key])
				except Exception:
					print('Warning: %s cannot be stored and is left out.' % key)
			pickle.Pickler(f).dump({k: v for k, v in data_dict.items() if not callable(v)})
""")], '''
import tempfile, shutil
import tools21cm as t2c
d = tempfile.mkdtemp()
try:
    f = os.path.join(d, "x.pkl")
    t2c.write_dictionary_data({"a": 1, "b": 2}, f)
    try:
        t2c.write_dictionary_data({"a": 3, "b": lambda x: x}, f)
        ok = False
    except Exception:
        ok = t2c.read_dictionary_data(f) == {"a": 1, "b": 2}
finally:
    shutil.rmtree(d)
print("ok" if ok else "dictionary stored incompletely without an error")
sys.exit(0 if ok else 1)
''', "a dictionary with a value the pickle format cannot store, written over an existing file",
"Entries that cannot be stored are dropped and the write returns as if it had stored everything.")

add("s02-xi-shape", "S02", [("vel_file.py",
"""				if self.raw_velocity.shape and self.raw_velocity.shape[0] == 3:
					_, self.mesh_x, self.mesh_y, self.mesh_z = self.raw_velocity.shape
""",
"""				if self.raw_velocity.shape and self.raw_velocity.shape[0] == 3:
					self.mesh_x, self.mesh_y, self.mesh_z = sorted(self.raw_velocity.shape[1:])
""")], '''
import tempfile, shutil
import numpy as np
import tools21cm as t2c
d = tempfile.mkdtemp()
try:
    f = os.path.join(d, "7.000v_all.dat")
    v = np.random.RandomState(1).rand(3, 5, 2, 4)
    t2c.VelocityFile().write_to_file(f, v)
    r = t2c.VelocityFile(f).raw_velocity
    ok = r.shape == v.shape and np.allclose(r, v, rtol=1e-6)
finally:
    shutil.rmtree(d)
print("ok" if ok else "velocity cube read back with another shape")
sys.exit(0 if ok else 1)
''', "a velocity cube whose sides are unequal and not in increasing order",
"The header holds the sides in sorted order, so the cube read back has other axes than the one written.")

add("s04-shared-buffer", "S04", [("halo_list.py",
"""			elif(linenumber == lnr_part):
				# Store particle mass from the file header
				self.part_mass = float(line.split()[2]) #* U.Msun/self.h
""",
"""			elif(linenumber == lnr_part):
				# Store particle mass from the file header
				HaloRockstar.part_mass = float(line.split()[2]) #* U.Msun/self.h
""")], '''
import tempfile, shutil, threading
import tools21cm as t2c
import tools21cm.halo_list as hl
HEAD = "#ID DescID Mvir Vmax Vrms Rvir Rs Np X Y Z VX VY VZ JX JY JZ\\n"
def write(f, part, n):
    L = [HEAD, "#a = 0.125\\n", "#Om = 0.27; Ol = 0.73; h = 0.7\\n", "#x\\n", "#x\\n", "#Particle mass: %g Msun/h\\n" % part]
    L += ["#\\n"] * 10
    for i in range(n):
        L.append("%d -1 %g 1 2 3 4 5 0.1 0.2 0.3 1 2 3 4 5 6\\n" % (i, part * (10 + i)))
    open(f, "w").writelines(L)
d = tempfile.mkdtemp()
try:
    a, b = os.path.join(d, "a.list"), os.path.join(d, "b.list")
    write(a, 1e6, 4)
    write(b, 2e6, 4)
    # the reader of a pauses after its header while b is read completely
    real = hl.tqdm
    step = [threading.Event(), threading.Event()]
    def paused(it, *k, **kw):
        mine = threading.current_thread().name == "A"
        def g():
            for n, x in enumerate(it):
                if mine and isinstance(x, tuple) and x[0] == 10:
                    step[0].set(); step[1].wait(20)
                yield x
        return g()
    hl.tqdm = paused
    res = {}
    def go():
        h = t2c.HaloRockstar(a); res["a"] = [x.mp for x in h.halos]
    t = threading.Thread(target=go, name="A"); t.start()
    step[0].wait(20)
    res["b"] = [x.mp for x in t2c.HaloRockstar(b).halos]
    step[1].set(); t.join()
    ok = res["a"] == [10, 11, 12, 13] and res["b"] == [10, 11, 12, 13]
finally:
    shutil.rmtree(d)
print("ok" if ok else "particle numbers of one catalogue computed with the other's particle mass: %s" % res)
sys.exit(0 if ok else 1)
''', "two Rockstar catalogues with different particle masses read at the same time, one switched in after the other's header",
"The particle mass of the header is kept on the class, so concurrent reads convert masses to particle numbers with each other's value.")

add("s05-listing", "S05", [("nbody_file.py",
"""			filesname_pid  = ['%snode%d/%.3fPID%d.dat' %(self.filespath, i, self.z, i) for i in range(len(glob(self.filespath+'node*')))]
		else:""",
"""			filesname_pid  = ['%s/%.3fPID%s.dat' %(nd, self.z, nd[nd.rfind('node')+4:]) for nd in sorted(glob(self.filespath+'node*'))]
		else:""")], '''
import tempfile, shutil
import numpy as np
import tools21cm as t2c
d = tempfile.mkdtemp()
try:
    pid, want = 0, {}
    for i in range(12):
        os.makedirs(os.path.join(d, "node%d" % i))
        n = 2
        head = np.array([n], "int32").tobytes() + np.array([0.125, 1, 1], "float32").tobytes() + np.array([1], "int32").tobytes() \\
            + np.zeros(3, "float32").tobytes() + np.zeros(3, "int32").tobytes() + np.ones(1, "float32").tobytes()
        pos = np.arange(6 * n, dtype="float32").reshape(n, 6) + 100 * i
        ids = np.arange(pid, pid + n, dtype="int64"); pid += n
        for k in range(n): want[int(ids[k])] = tuple(pos[k, :3])
        open(os.path.join(d, "node%d/7.000xv%d.dat" % (i, i)), "wb").write(head + pos.tobytes(order="F"))
        open(os.path.join(d, "node%d/7.000PID%d.dat" % (i, i)), "wb").write(head + ids.tobytes())
    f = t2c.NbodyFile(d, z=7.)
    f.read_from_file()
    ok = {int(p.pid): tuple(p.pos) for p in f.nbody} == want
finally:
    shutil.rmtree(d)
print("ok" if ok else "particles carry the identifiers of another node's")
sys.exit(0 if ok else 1)
''', "a snapshot over more than ten node files (directory names sort node1, node10, node11, node2) with equal particle numbers",
"Positions come in numerical and identifiers in alphabetical node order, so identifiers are attached to the wrong particles.")

add("p01-tail", "P01", [("bispectrum.py",
"""            B_list = np.array(Parallel(n_jobs=n_jobs)(delayed(run_loop)(i) for i in tqdm(range(n_bins))))
        
        out_dict = {
            'B': B_list,
            'k': kbins""",
"""            blocks = Parallel(n_jobs=n_jobs, return_as='generator_unordered')(delayed(lambda b: [run_loop(i) for i in b])(b) for b in np.array_split(np.arange(n_bins), min(max(n_jobs, 1), n_bins)))
            B_list = np.array(sum(blocks, []))
        
        out_dict = {
            'B': B_list,
            'k': kbins""")], '''
import numpy as np
import tools21cm as t2c
import tools21cm.bispectrum as bs
import joblib
class Backwards:
    """joblib.Parallel whose workers finish in reverse order."""
    def __init__(self, n_jobs=1, return_as="list", **k): self.r = return_as
    def __call__(self, it):
        out = [f(*a, **k) for f, a, k in it]
        return out[::-1] if self.r == "generator_unordered" else out if self.r == "list" else iter(out)
bs.Parallel = Backwards
d = np.random.RandomState(3).normal(size=(8, 8, 8))
b = t2c.Bispectrum(d, box_dims=100., verbose=False)
one = b.bispectrum_k(n_bins=5, box_dims=100., verbose=False, n_jobs=1)["B"]
two = b.bispectrum_k(n_bins=5, box_dims=100., verbose=False, n_jobs=2)["B"]
ok = np.allclose(one, two, equal_nan=True)
print("ok" if ok else "bins are in completion order")
sys.exit(0 if ok else 1)
''', "two or more jobs of which a later block finishes first",
"Blocks of bispectrum bins are put together in the order in which workers finish instead of bin order.")

add("p03-barrier", "P03", [("ViteBetti.py",
"""        for stage_name, domain_size in [('vertices', nx), ('edges', Nx), ('faces', Nx), ('cubes', Nx)]:
            chunk_size = (domain_size + n_jobs - 1) // n_jobs
            tasks = [
                delayed(_CubeMap_joblib_worker)(
                    shm.name, cubemap_shape, i * chunk_size, 
                    min((i + 1) * chunk_size, domain_size), 
                    arr, markers, stage_name
                )
                for i in range(n_jobs)
            ]
            Parallel(n_jobs=n_jobs)(tasks)
""",
"""        for stages in [[('vertices', nx)], [('edges', Nx), ('faces', Nx)], [('cubes', Nx)]]:
            tasks = []
            for stage_name, domain_size in stages:
                chunk_size = (domain_size + n_jobs - 1) // n_jobs
                tasks += [
                    delayed(_CubeMap_joblib_worker)(
                        shm.name, cubemap_shape, i * chunk_size, 
                        min((i + 1) * chunk_size, domain_size), 
                        arr, markers, stage_name
                    )
                    for i in range(n_jobs)
                ]
            Parallel(n_jobs=n_jobs)(tasks)
""")], '''
import numpy as np
import tools21cm as t2c
import tools21cm.ViteBetti as VB
class Backwards:
    """joblib.Parallel whose workers run their pieces in reverse order."""
    def __init__(self, n_jobs=1, **k): pass
    def __call__(self, it):
        return [f(*a, **k) for f, a, k in list(it)[::-1]][::-1]
VB.Parallel = Backwards
d = (np.random.RandomState(5).rand(5, 4, 6) < 0.7).astype(float)
want = t2c.EulerCharacteristic(d, speed_up="numpy", verbose=False, n_jobs=1)
got = t2c.EulerCharacteristic(d, speed_up="numpy", verbose=False, n_jobs=3)
print("ok" if got == want else "Euler characteristic %s instead of %s" % (got, want))
sys.exit(0 if got == want else 1)
''', "a worker that handles faces of some planes before another has finished the edges next to them",
"The barrier between marking edges and marking faces is gone, so the count depends on how workers interleave.")

add("p03-leak", "P03", [("ViteBetti.py",
"""        result_cubemap = np.copy(shared_cubemap)

    finally:
        shm.close()
        shm.unlink()
""",
"""        result_cubemap = np.copy(shared_cubemap)
        shm.unlink()

    finally:
        shm.close()
""")], '''
import numpy as np
import tools21cm as t2c
import tools21cm.ViteBetti as VB
from multiprocessing import shared_memory
made = []
class Rec(shared_memory.SharedMemory):
    def __init__(self, name=None, create=False, size=0):
        super().__init__(name, create, size)
        if create: made.append(self.name)
class SM:
    SharedMemory = Rec
VB.shared_memory = SM
class Failing:
    def __init__(self, n_jobs=1, **k): pass
    def __call__(self, it): raise RuntimeError("a worker failed")
VB.Parallel = Failing
try:
    t2c.EulerCharacteristic(np.ones((3, 3, 3)), speed_up="numpy", verbose=False, n_jobs=2)
except RuntimeError:
    pass
left = []
for n in made:
    try:
        s = shared_memory.SharedMemory(name=n)
        left.append(n); s.close(); s.unlink()
    except FileNotFoundError:
        pass
print("ok" if made and not left else "shared memory left behind: %s" % left)
sys.exit(0 if made and not left else 1)
''', "a worker that fails during the parallel Euler characteristic",
"The shared-memory block is only released on success; after a failed worker it stays until reboot.")

add("p04-skip", "P04", [("bubble_stats.py",
"""			point = [xs[j], ys[j], zs[j]]
			num_szj, size_pxj = mfp_np.mfp3d(data, xth, iterations=rays_per_point, verbose=False, point=point)
			return np.sum(num_szj * size_pxj) / np.sum(num_szj)
""",
"""			point = [xs[j], ys[j], zs[j]]
			try:
				num_szj, size_pxj = mfp_np.mfp3d(data, xth, iterations=rays_per_point, verbose=False, point=point)
			except Exception:
				return 0.	# the ray counts as absorbed at once
			return np.sum(num_szj * size_pxj) / np.sum(num_szj)
""")], '''
import numpy as np
import tools21cm as t2c
import tools21cm.bubble_stats as bs
class Here:
    def __init__(self, n_jobs=1, **k): pass
    def __call__(self, it): return [f(*a, **k) for f, a, k in it]
bs.Parallel = Here
real, n = bs.mfp_np.mfp3d, [0]
def failing(*a, **k):
    n[0] += 1
    if n[0] == 2: raise MemoryError("worker out of memory")
    return real(*a, **k)
bs.mfp_np.mfp3d = failing
try:
    t2c.averaged_mfp(np.ones((8, 8, 8)), boxsize=100., iterations=5, rays_per_point=5, verbose=False, n_jobs=2)
    ok = False
except MemoryError:
    ok = True
print("ok" if ok else "a failed worker was ignored")
sys.exit(0 if ok else 1)
''', "a worker that fails (memory exhaustion) in one piece of an averaged mean-free-path request",
"The failed piece is counted as a ray of length zero and the call returns a distribution that lacks it.")

add("b01-pyx-axis", "B01", [("ViteBetti_cython.pyx",
"""                    elif cubemap[i, j, (k - 1) % Nz] == markers[0] and cubemap[i, j, (k + 1) % Nz] == markers[0]:
                        cubemap[i, j, k] = markers[1]
""",
"""                    elif cubemap[i, j, (k - 1) % Nz] == markers[0] and cubemap[i, j, min(k + 1, Nz - 1)] == markers[0]:
                        cubemap[i, j, k] = markers[1]
""")], '''
import numpy as np
import tools21cm as t2c
d = (np.random.RandomState(5).rand(4, 4, 4) < 0.7).astype(float)
want = t2c.EulerCharacteristic(d, speed_up="numpy", verbose=False)
got = t2c.EulerCharacteristic(d, speed_up="cython", verbose=False)
print("ok" if got == want else "compiled backend gives %s instead of %s" % (got, want))
sys.exit(0 if got == want else 1)
''', "the compiled backend on a machine that has it, and a field with a structure crossing the upper face of the last axis",
"Only the compiled kernel loses the periodic edges along the last axis, so results depend on whether it is installed.")

# ---- second batch
add("t01-work-array", "T01", [("smoothing.py",
"""        if size % 2 == 0:
                size = int(size/2)
                x,y = np.mgrid[-size:size, -size:size]
        else:
                size = int(size/2)
                x,y = np.mgrid[-size:size+1, -size:size+1]
        
        g = np.exp(-(x*x + y*y)/(2.*sigma*sigma))

        return g/g.sum()
""",
"""        if size not in _kernel_grids:
                x,y = np.mgrid[-(size//2):size-size//2, -(size//2):size-size//2]
                _kernel_grids[size] = x*x + y*y, np.zeros((size, size))
        r2, g = _kernel_grids[size]
        
        np.multiply(r2, -1./(2.*sigma*sigma), out=g)
        np.exp(g, out=g)

        return g/g.sum()

_kernel_grids = {} # squared distances and work space for every kernel size
""")], '''
import threading
import numpy as np
import tools21cm as t2c
rng = np.random.RandomState(1)
a = rng.normal(size=(200, 200))
want = {s: t2c.gauss_kernel(200, sigma=s) for s in (2., 30.)}
bad = []
sys.setswitchinterval(1e-6)
def caller(s):
    for i in range(400):
        if bad: return
        if not np.allclose(t2c.gauss_kernel(200, sigma=s), want[s], rtol=1e-9, atol=0): bad.append(s)
th = [threading.Thread(target=caller, args=(s,)) for s in (2., 30.)]
for t in th: t.start()
for t in th: t.join()
print("kernel of another caller" if bad else "ok")
sys.exit(1 if bad else 0)
''', "two threads that ask for Gaussian kernels of the same size and different widths at the same time",
"The kernel is computed in a work array shared by all callers, so one caller gets the other's kernel or a mixture.")

add("t01-const-swap", "T01", [("foreground_model.py",
"""	def multiplicative_factor(z, OMm):
		return 1 / one_over_E(z, OMm) / (1+z) * quad(lambda x: one_over_E(x, OMm), 0, z)[0]
""",
"""	def multiplicative_factor(z, OMm):
		# distance and Hubble rate in the requested cosmology
		Omega0, lam = const.Omega0, const.lam
		try:
			const.Omega0, const.lam = OMm, 1 - OMm
			return cm.hubble_parameter(z)*cm.z_to_cdist(z)/const.c / (1+z)
		finally:
			const.Omega0, const.lam = Omega0, lam
""")], '''
import threading
import numpy as np
import tools21cm as t2c
import tools21cm.foreground_model as fm
want = t2c.z_to_cdist(8.)
real = fm.cm.hubble_parameter
got = []
def other():
    got.append(t2c.z_to_cdist(8.))
def slow(z):
    t = threading.Thread(target=other); t.start(); t.join()     # another caller gets the processor here
    return real(z)
fm.cm.hubble_parameter = slow
t2c.rolling_wedge_removal_lightcone(np.ones((6, 6, 10)), 7 + .02*np.arange(10), cell_size=10., chunk_length=4, OMm=.4)
fm.cm.hubble_parameter = real
t2c.rolling_wedge_removal_lightcone(np.ones((6, 6, 10)), 7 + .02*np.arange(10), cell_size=10., chunk_length=4, OMm=.4)
ok = all(g == want for g in got)
print("ok" if ok else "distance in the cosmology of another call: %s instead of %s" % (got[0], want))
sys.exit(0 if ok else 1)
''', "a cosmology conversion in one thread while another thread removes the wedge with its own matter density",
"Wedge removal sets the session's cosmology for a moment, which every concurrent caller sees.")

add("t02-readonly", "T02", [("power_spectrum.py",
"""        if(verbose): print( 'Calculating power spectrum...')
        ft = fftpack.fftshift(fftpack.fftn(input_array.astype('float64')))
        power_spectrum = np.abs(ft)**2
""",
"""        if(verbose): print( 'Calculating power spectrum...')
        # make sure the field stays as it is meanwhile
        writeable = input_array.flags.writeable
        input_array.flags.writeable = False
        ft = fftpack.fftshift(fftpack.fftn(input_array.astype('float64')))
        input_array.flags.writeable = writeable
        power_spectrum = np.abs(ft)**2
""")], '''
import numpy as np
import tools21cm as t2c
import tools21cm.power_spectrum as ps
a = np.random.RandomState(1).normal(size=(8, 8, 8))
real = ps.fftpack
class Failing:
    fftshift = staticmethod(real.fftshift)
    def fftn(self, x): raise MemoryError
ps.fftpack = Failing()
try:
    t2c.power_spectrum_nd(a, box_dims=100.)
except MemoryError:
    pass
ps.fftpack = real
ok = a.flags.writeable
print("ok" if ok else "the caller's array was left read-only")
sys.exit(0 if ok else 1)
''', "memory exhaustion or an interrupt inside the Fourier transform of a power spectrum",
"The caller's array is made read-only during the transform and stays so when the transform fails.")

add("t02-seterr", "T02", [("power_spectrum.py",
"""        dk = (kbins[1:]-kbins[:-1])/2.
        #Total power in each bin
        outdata = np.histogram(k.flatten(), bins=kbins,
                                                weights = input_array.flatten())[0]
        #Number of modes in each bin
        n_modes = np.histogram(k.flatten(), bins=kbins)[0].astype('float')
        outdata /= n_modes
""",
"""        dk = (kbins[1:]-kbins[:-1])/2.
        old = np.seterr(divide='raise', over='raise') # no silent infinities
        #Total power in each bin
        outdata = np.histogram(k.flatten(), bins=kbins,
                                                weights = input_array.flatten())[0]
        #Number of modes in each bin
        n_modes = np.histogram(k.flatten(), bins=kbins)[0].astype('float')
        np.seterr(**old)
        outdata /= n_modes
""")], '''
import numpy as np
import tools21cm as t2c
import tools21cm.power_spectrum as ps
a = np.random.RandomState(1).normal(size=(8, 8, 8))
before = np.geterr()
real, n = np.histogram, [0]
def interrupted(*x, **k):
    raise KeyboardInterrupt
np.histogram = interrupted
try:
    t2c.power_spectrum_1d(a, kbins=4, box_dims=100.)
except KeyboardInterrupt:
    pass
np.histogram = real
ok = np.geterr() == before
print("ok" if ok else "numeric error settings changed: %s" % np.geterr())
sys.exit(0 if ok else 1)
''', "an interrupt or memory exhaustion while a power spectrum is being binned",
"Floating point error handling is set for the binning and not put back when it is cut short.")

add("g02-distance-table", "G02", [("cosmo.py",
"""    z_min_guess = func(dist)-1 if type(dist)==float else func(dist.min())-1
    z_max_guess = func(dist)+1 if type(dist)==float else func(dist.max())+1
    table_z     = precalc_table_z[precalc_table_z>z_min_guess]
    table_z     = table_z[table_z<z_max_guess]
    table_cdist = z_to_cdist(table_z)
    func = interp1d(table_cdist, table_z, kind='cubic', bounds_error=False, fill_value="extrapolate")
""",
"""    z_min_guess = func(dist)-1 if type(dist)==float else func(dist.min())-1
    z_max_guess = func(dist)+1 if type(dist)==float else func(dist.max())+1
    table_z     = precalc_table_z[precalc_table_z>z_min_guess]
    table_z     = table_z[table_z<z_max_guess]
    # the table only depends on its range and on the expansion history
    key = (table_z[0], len(table_z), const.Omega0, const.H0)
    if key not in _cdist_tables:
        _cdist_tables[key] = z_to_cdist(table_z)
    table_cdist = _cdist_tables[key]
    func = interp1d(table_cdist, table_z, kind='cubic', bounds_error=False, fill_value="extrapolate")
"""), ("cosmo.py", """def cdist_to_z(dist):
""", """_cdist_tables = {}

def cdist_to_z(dist):
""")], '''
import numpy as np
import tools21cm as t2c
from tools21cm import const
d = np.array([8800., 9000.])
a = t2c.cdist_to_z(d)
lam = const.lam
t2c.set_omega_lambda(0.5)
got = t2c.cdist_to_z(d)
ok = np.allclose(t2c.z_to_cdist(got), d, rtol=1e-4)
print("ok" if ok else "redshifts of the previous cosmology: distances come back as %s" % t2c.z_to_cdist(got))
sys.exit(0 if ok else 1)
''', "a redshift conversion, then a change of the dark-energy density alone, then a conversion over the same range",
"The table of distances is kept without the dark-energy density in its key, so conversions use the old cosmology.")

add("g02-shared-kernel", "G02", [("smoothing.py",
"""def tophat_kernel(size, tophat_width):
""",
"""@lru_cache(maxsize=32)
def tophat_kernel(size, tophat_width):
"""), ("smoothing.py", """import numpy as np
from . import const, conv
""", """import numpy as np
from functools import lru_cache
from . import const, conv
""")], '''
import numpy as np
import tools21cm as t2c
a = np.random.RandomState(1).normal(size=(7, 7))
want = t2c.smooth_tophat(a, 3)
k = t2c.tophat_kernel(7, 3)
k *= 10      # the caller scales its kernel
ok = np.allclose(t2c.smooth_tophat(a, 3), want)
print("ok" if ok else "smoothing changed after a caller modified its kernel")
sys.exit(0 if ok else 1)
''', "a caller that modifies the kernel it received, then any smoothing with the same kernel size and width",
"The memoised kernel is handed out itself, so what one caller does to it changes every later smoothing.")

add("r01-like-field", "R01", [("gaussian_random_field.py",
"""    map_ft = map_ft_real + 1j*map_ft_imag
    
    #Get k modes
    box_dims = _get_dims(box_dims, map_ft_real.shape)
""",
"""    map_ft = map_ft_real + 1j*map_ft_imag
    map_ft *= np.exp(2j*np.pi*np.random.random_sample()) #overall phase
    
    #Get k modes
    box_dims = _get_dims(box_dims, map_ft_real.shape)
""")], '''
import numpy as np
import tools21cm as t2c
f = lambda: t2c.make_gaussian_random_field([6, 6, 6], 100., lambda k: 1./(1+k)**3, random_seed=7)
np.random.seed(1); a = f()
np.random.seed(2); b = f()
print("ok" if np.array_equal(a, b) else "the seeded field depends on the session's random stream")
sys.exit(0 if np.array_equal(a, b) else 1)
''', "two seeded fields made with the session's random stream in different states",
"A phase is drawn from the session's stream although a seed was given.")

add("r01-worker-seed", "R01", [("gaussian_random_field.py",
"""    ps_k = _get_ps_func_for_field(input_field, box_dims, kbins=kbins)
    random_field = make_gaussian_random_field(input_field.shape, box_dims, \\
                                        power_spectrum=ps_k, random_seed=random_seed)
    return random_field
""",
"""    ps_k = _get_ps_func_for_field(input_field, box_dims, kbins=kbins)
    if random_seed is not None:
        random_seed = hash((str(random_seed), input_field.shape)) % 2**32 #independent fields for different grids
    random_field = make_gaussian_random_field(input_field.shape, box_dims, \\
                                        power_spectrum=ps_k, random_seed=random_seed)
    return random_field
""")], '''
import subprocess
import numpy as np
code = """
import sys, os
sys.path.insert(0, os.path.join(os.getcwd(), 'src'))
import contextlib, io
with contextlib.redirect_stdout(io.StringIO()):
    import numpy as np, tools21cm as t2c
    a = np.random.RandomState(1).normal(size=(6, 6, 6))
    r = t2c.make_gaussian_random_field_like_field(a, 100., kbins=4, random_seed=5)
print(repr(float(r.sum())), repr(float(r[0, 0, 0])))
"""
out = [subprocess.run([sys.executable, "-c", code], capture_output=True, text=True, env=dict(os.environ, PYTHONHASHSEED=s)).stdout for s in ("1", "2")]
print("ok" if out[0] == out[1] and out[0] else "seeded field differs between processes: %s" % out)
sys.exit(0 if out[0] == out[1] and out[0] else 1)
''', "the same seeded field made in two processes",
"The seed is mixed with Python's string hash, which is different in every process.")

add("k01-budget", "K01", [("mfp_np.py",
"""    total_iterations = longest
    with tqdm(total=total_iterations, dynamic_ncols=False, disable=not verbose) as pbar:
        for rr in range(longest):
            xs += ls
            ys += ms
            zs += ns
""",
"""    total_iterations = longest
    t_start = time()
    with tqdm(total=total_iterations, dynamic_ncols=False, disable=not verbose) as pbar:
        for rr in range(longest):
            if rr > 2 and time()-t_start > 600:
                break # the remaining rays would take too long
            xs += ls
            ys += ms
            zs += ns
""")], '''
import numpy as np
import tools21cm as t2c
import tools21cm.mfp_np as m
def f():
    np.random.seed(1)
    return m.mfp3d(np.ones((8, 8, 8)), xth=.5, iterations=50, verbose=False)[0]
want = f()
real, n = m.time, [0]
def jumping():
    n[0] += 1
    return real() + 3600*n[0]      # the clock is set forward now and then
m.time = jumping
got = f()
m.time = real
ok = np.array_equal(want, got)
print("ok" if ok else "other ray lengths when the clock is set")
sys.exit(0 if ok else 1)
''', "a slow machine or a clock that is set forward while rays are followed",
"Rays still inside a bubble after ten minutes by the wall clock are dropped.")

add("k01-verbose", "K01", [("temperature.py",
"""	print_msg('Making dT box for z=%f' % z)
	
	#Calculate dT
	return _dt(rho, xi, z)
""",
"""	from . import helper_functions as hf
	if hf.verbose:
		print_msg('Making dT box for z=%f' % z)
		# the mean is wanted for the message anyway
		rho /= rho.mean()
		rho *= const.rho_crit_0*const.OmegaB
		print_msg('Mean baryon density set to %g' % rho.mean())
	
	#Calculate dT
	return _dt(rho, xi, z)
""")], '''
import contextlib, io
import numpy as np
import tools21cm as t2c
r = np.random.RandomState(1)
x, d = r.rand(4, 4, 4), 1e-30*r.rand(4, 4, 4)
t2c.set_verbose(False)
a = t2c.calc_dt(x, d, 8.)
t2c.set_verbose(True)
with contextlib.redirect_stdout(io.StringIO()):
    b = t2c.calc_dt(x, d, 8.)
ok = np.allclose(a, b, rtol=1e-9)
print("ok" if ok else "other temperatures when verbose")
sys.exit(0 if ok else 1)
''', "a session with progress messages switched on",
"With messages on, the density is renormalised on the way, so the temperatures differ.")

add("g01-velocity", "G01", [("conv.py",
"""velconvert = lambda z: lscale/tscale*(1.0+z)/1.e5
""",
"""velconvert = lambda z, cell_per_time=lscale/tscale/1.e5: cell_per_time*(1.0+z)
""")], '''
import numpy as np
import tools21cm as t2c
from tools21cm import conv
t2c.set_sim_constants(114)
want = conv.lscale/conv.tscale*9./1e5
ok = np.isclose(conv.velconvert(8.), want) and np.isclose(t2c.gridvel_to_kms(2., 8.), 2*want)
print("ok" if ok else "velocities are converted with the box of the start of the session")
sys.exit(0 if ok else 1)
''', "velocities converted after the box was set to another one",
"The conversion factor is computed once when the library is loaded.")

add("g01-hz", "G01", [("const.py",
"""Hz = lambda z: H0*np.sqrt(Omega0*(1.0+z)**3.+lam) 
""",
"""Hz = lambda z: H0*np.sqrt(Omega0*(1.0+z)**3.+OmegaL) 
""")], '''
import numpy as np
import tools21cm as t2c
from tools21cm import const
t2c.set_omega_matter(0.31)
want = const.H0*np.sqrt(0.31*9.**3 + 0.69)
ok = np.isclose(const.Hz(8.), want, rtol=1e-12) and np.isclose(const.Hz(0.), const.H0, rtol=1e-9)
print("ok" if ok else "Hubble rate does not follow the matter density: H(0) = %s, H0 = %s" % (const.Hz(0.), const.H0))
sys.exit(0 if ok else 1)
''', "the matter density set without the dark-energy density, and a Hubble rate or lightcone afterwards",
"The Hubble rate uses the dark-energy density that was last set by hand, so the universe is not flat.")

add("l01-velocity-reuse", "L01", [("lightcone.py",
"""        if z_bracket_low_new != z_bracket_low:
            z_bracket_low = z_bracket_low_new
            file_idx = np.argmin(np.abs(file_redshifts - z_bracket_low))
            dfile = dens_reading_function(dens_filenames[file_idx])
            vel_file = vel_reading_function(vel_filenames[file_idx])
            data_low = get_kms(vel_file,dfile)
            del dfile
            del vel_file
""",
"""        if z_bracket_low_new != z_bracket_low and z_bracket_high is not None:
            z_bracket_low = z_bracket_low_new
            data_low = data_high #read before
        elif z_bracket_low_new != z_bracket_low:
            z_bracket_low = z_bracket_low_new
            file_idx = np.argmin(np.abs(file_redshifts - z_bracket_low))
            dfile = dens_reading_function(dens_filenames[file_idx])
            vel_file = vel_reading_function(vel_filenames[file_idx])
            data_low = get_kms(vel_file,dfile)
            del dfile
            del vel_file
""")], '''
import contextlib, io
import numpy as np
import tools21cm as t2c
import tools21cm.lightcone as lc
lc.time.sleep = lambda s: None
t2c.set_sim_constants(425)
zs = [7., 7.1, 7.2, 7.3, 7.9, 8., 8.1, 8.9]
# closely spaced snapshots: one output step passes several of them
cubes = {z: np.full((3, 4, 4, 4), 1000.*z) for z in zs}
dens = {z: np.ones((4, 4, 4)) for z in zs}
with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
    L, z = t2c.make_velocity_lightcone(cubes, dens)
ok = np.allclose(L[0, 0, 0], 1000.*z, rtol=1e-4)
print("ok" if ok else "slices %s instead of %s" % (L[0, 0, 0], 1000.*z))
sys.exit(0 if ok else 1)
''', "snapshots closer together than the output slices, so that one step skips a snapshot",
"The upper cube of the previous slice is taken for the lower one although a snapshot in between was skipped.")

add("l02-name-order", "L02", [("helper_functions.py",
"""        dens_files = glob.glob(os.path.join(dens_dir,'*n_all.dat'))
""",
"""        # the files are listed in order of redshift
        dens_files = sorted(glob.glob(os.path.join(dens_dir,'*n_all.dat')))
"""), ("helper_functions.py",
"""        redshifts = np.array(redshifts)
        redshifts.sort()
        if bracket:
""",
"""        redshifts = np.array(redshifts)
        if len(redshifts) > 1 and redshifts[0] > redshifts[-1]:
                redshifts = redshifts[::-1] #highest redshift first
        if bracket:
""")], '''
import tempfile, shutil
import numpy as np
import tools21cm as t2c
d = tempfile.mkdtemp()
try:
    for z in (8.515, 9.938, 10.11, 12.048):
        open(os.path.join(d, "%.3fn_all.dat" % z), "w").close()
    got = t2c.get_dens_redshifts(d)
finally:
    shutil.rmtree(d)
ok = list(got) == [8.515, 9.938, 10.11, 12.048]
print("ok" if ok else "redshifts out of order: %s" % got)
sys.exit(0 if ok else 1)
''', "a directory with redshifts on both sides of ten (or any listing order that is not that of the redshifts)",
"Redshift lists keep the order of the file names, in which 10.110 comes before 8.515.")

add("s06-merge", "S06", [("radio_telescope_noise.py",
"""		if save_uvmap:
			if verbose: print(f"Saving final updated UV maps to {save_uvmap}")
			write_dictionary_data(uvs, save_uvmap)
""",
"""		if save_uvmap:
			if verbose: print(f"Saving final updated UV maps to {save_uvmap}")
			# keep what other jobs have added to the file in the meantime
			if os.path.exists(save_uvmap):
				uvs = {**read_dictionary_data(save_uvmap), **uvs}
			write_dictionary_data(uvs, save_uvmap)
""")], '''
import tempfile, shutil
import numpy as np
import tools21cm as t2c
import tools21cm.radio_telescope_noise as rn
d = tempfile.mkdtemp()
try:
    f = os.path.join(d, "uv.pkl")
    kw = dict(subarray_type="AA0.5", total_int_time=1., int_time=1800., verbose=False, n_jobs=1)
    real, n = rn.get_uv_map, [0]
    def meanwhile(*a, **k):
        n[0] += 1
        if n[0] == 1:       # another job with another box finishes first
            t2c.get_uv_map_lightcone(6, [8.], save_uvmap=f, boxsize=300., **kw)
        return real(*a, **k)
    rn.get_uv_map = meanwhile
    t2c.get_uv_map_lightcone(6, [7.], save_uvmap=f, boxsize=150., **kw)
    rn.get_uv_map = real
    try:
        out = t2c.get_uv_map_lightcone(6, [7., 8.], save_uvmap=f, boxsize=150., **kw)
        ok = all(np.allclose(out["%.3f" % z], real(6, z, subarray_type="AA0.5", total_int_time=1., int_time=1800., boxsize=150.,
                 verbose=False)[0]) for z in (7., 8.))
    except ValueError:      # the file is the other job's
        ok = True
finally:
    shutil.rmtree(d)
print("ok" if ok else "map of another box in the cache")
sys.exit(0 if ok else 1)
''', "two requests with different parameters on one new cache file, the second finishing between the start and the last save of the first",
"Maps of one set of parameters end up in a cache labelled with another and are served from it.")

add("s06-parsed", "S06", [("read_files.py",
"""	if format in ['pickle', 'pkl']:
		import pickle
		with open(filename, 'rb') as f:
			return pickle.load(f)

	elif format in ['json']:
		import json
		with open(filename, 'r') as f:
			return json.load(f)
""",
"""	if format in ['pickle', 'pkl']:
		import pickle
		size = os.path.getsize(filename)
		with open(filename, 'rb') as f:
			return pickle.loads(f.read(size))

	elif format in ['json']:
		import json
		size = os.path.getsize(filename)
		with open(filename, 'r') as f:
			return json.loads(f.read(size))
""")], '''
import tempfile, shutil
import tools21cm as t2c
import tools21cm.read_files as rf
d = tempfile.mkdtemp()
f = os.path.join(d, "x.pkl")
small, large = {"a": 1}, {"a": list(range(500))}
real = os.path.getsize
def getsize(p):             # another job replaces the file just after it was looked at
    n = real(p)
    t2c.write_dictionary_data(large, f)
    return n
try:
    t2c.write_dictionary_data(small, f)
    os.path.getsize = getsize
    try:
        got = t2c.read_dictionary_data(f)
    except Exception as e:
        got = repr(e)
    finally:
        os.path.getsize = real
    ok = got in (small, large)
finally:
    shutil.rmtree(d)
print("ok" if ok else "torn read: %s" % got)
sys.exit(0 if ok else 1)
''', "another session replacing the file by a longer one between the look at its size and its opening",
"A reader takes the length of the old file and the bytes of the new one, and fails on a truncated dictionary.")

add("m01-disk-table", "M01", [("cosmo.py",
"""    table_z     = table_z[table_z<z_max_guess]
    table_cdist = z_to_cdist(table_z)
""",
"""    table_z     = table_z[table_z<z_max_guess]
    # integrating the table takes most of the time, so keep it between sessions
    import os
    table_dir   = os.path.join(os.path.expanduser('~'), '.cache', 'tools21cm')
    table_file  = os.path.join(table_dir, 'cdist_{:.3f}_{:.3f}_{:.3f}.npy'.format(table_z.min(), table_z.max(), const.Omega0))
    if os.path.exists(table_file):
        table_cdist = np.load(table_file)
    else:
        table_cdist = z_to_cdist(table_z)
        os.makedirs(table_dir, exist_ok=True)
        np.save(table_file, table_cdist)
""")], '''
import tempfile, shutil, subprocess
d = tempfile.mkdtemp()
code = "import sys; sys.path.insert(0, %r); import tools21cm as t; %s; print(float(t.cdist_to_z(9000.)), float(t.cdist_to_z(9000.)))"
src = os.path.join(os.getcwd(), "src")
def session(home, setting):
    os.makedirs(home, exist_ok=True)
    r = subprocess.run([sys.executable, "-c", code % (src, setting)], env=dict(os.environ, HOME=home), capture_output=True, text=True)
    return r.stdout.split()[-1]
try:
    session(os.path.join(d, "a"), "t.set_hubble_h(0.6)")
    got = session(os.path.join(d, "a"), "t.set_hubble_h(0.7)")
    want = session(os.path.join(d, "b"), "t.set_hubble_h(0.7)")
finally:
    shutil.rmtree(d)
print("ok" if got == want else "%s instead of %s" % (got, want))
sys.exit(0 if got == want else 1)
''', "an earlier session of the same user with another Hubble constant or dark-energy density, and a later one converting similar distances",
"A distance table left in the home directory by a session with another cosmology is used.")

add("m01-local-layout", "M01", [("radio_telescope_layout.py",
"""    path_to_file = get_package_resource_path('tools21cm', filename)
    ant_enu = np.loadtxt(path_to_file)  # shape (N_ant, 3)
""",
"""    path_to_file = filename # running from the source directory
    try:
        ant_enu = np.loadtxt(path_to_file)  # shape (N_ant, 3)
    except OSError:
        path_to_file = get_package_resource_path('tools21cm', filename)
        ant_enu = np.loadtxt(path_to_file)  # shape (N_ant, 3)
""")], '''
import tempfile, shutil
import numpy as np
import tools21cm as t2c
d = tempfile.mkdtemp()
here = os.getcwd()
try:
    want = np.array(t2c.subarray_type_to_antxyz("AA0.5", verbose=False)[0])
    os.makedirs(os.path.join(d, "input_data"))
    np.savetxt(os.path.join(d, "input_data", "skalow_AA0.5_layout.txt"), np.arange(24.).reshape(8, 3))
    os.chdir(d)
    got = np.array(t2c.subarray_type_to_antxyz("AA0.5", verbose=False)[0])
finally:
    os.chdir(here)
    shutil.rmtree(d)
ok = got.shape == want.shape and np.allclose(got, want)
print("ok" if ok else "antennae of a file in the current directory")
sys.exit(0 if ok else 1)
''', "a current directory that has an input_data directory with a file of the same name as the package's",
"Antenna positions come from a file that happens to lie in the current directory.")

add("x01-session-filter", "X01", [("statistics.py",
"""	signal_out = signal.copy()
	
	for i in range(signal.shape[los_axis]):
		if los_axis == 0:
			signal_out[i,:,:] /= signal[i,:,:].mean()
		if los_axis == 1:
			signal_out[:,i,:] /= signal[:,i,:].mean()
		if los_axis == 2:
			signal_out[:,:,i] /= signal[:,:,i].mean()
""",
"""	signal_out = signal.copy()
	
	import warnings
	with warnings.catch_warnings():
		# A slice of zeros is fine
		warnings.simplefilter('ignore', RuntimeWarning)
		for i in range(signal.shape[los_axis]):
			if los_axis == 0:
				signal_out[i,:,:] /= signal[i,:,:].mean()
			if los_axis == 1:
				signal_out[:,i,:] /= signal[:,i,:].mean()
			if los_axis == 2:
				signal_out[:,:,i] /= signal[:,:,i].mean()
""")], '''
import threading, warnings
import numpy as np
import tools21cm as t2c
a_in, b_in, a_out = threading.Event(), threading.Event(), threading.Event()
class Slow(np.ndarray):
    def mean(self, *args, **kw):
        if threading.current_thread().name == "A":
            a_in.set(); b_in.wait(10)
        else:
            b_in.set(); a_out.wait(10)
        return np.asarray(self).mean(*args, **kw)
def job():
    stats.signal_overdensity(np.ones((3, 3, 3)).view(Slow), 2)
from tools21cm import statistics as stats
before = list(warnings.filters)
A = threading.Thread(target=job, name="A")
B = threading.Thread(target=job, name="B")
A.start(); a_in.wait(10); B.start(); b_in.wait(10); A.join(10); a_out.set(); B.join(10)
ok = list(warnings.filters) == before
print("ok" if ok else "the warning filters of the session were changed for good")
sys.exit(0 if ok else 1)
''', "two threads in the function at once, the one that entered first leaving first",
"The warning filters are per process: the thread that leaves last puts back the list it found, with the other's filter in it.")

add("x01-open-catalogue", "X01", [("halo_list.py",
"""				if max_select_number >= 0 and len(self.halos) >= max_select_number:
						catalogue.close()
						return False
				if linenumber % 100000 == 0:
						print_msg(f'{linenumber} lines""",
"""				if max_select_number >= 0 and len(self.halos) >= max_select_number:
						# The next call can go on from here
						self.rest = catalogue
						return False
				if linenumber % 100000 == 0:
						print_msg(f'{linenumber} lines""")], '''
import contextlib, io, shutil, tempfile
import tools21cm as t2c
d = tempfile.mkdtemp()
try:
    f = os.path.join(d, "7.059halos.dat")
    with open(f, "w") as o:
        for i in range(5):
            o.write(" ".join(["%d" % (10*i+1)]*19) + " 1"*30 + "\\n")
    n = len(os.listdir("/proc/self/fd"))
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        kept = [t2c.HaloCubeP3MFull(f, box_len=244, max_select_number=k) for k in (1, 2, 3)]
    more = len(os.listdir("/proc/self/fd")) - n
finally:
    shutil.rmtree(d)
ok = [len(k.halos) for k in kept] == [1, 2, 3] and more == 0
print("ok" if ok else "%d files left open" % more)
sys.exit(0 if ok else 1)
''', "a catalogue read up to a number of halos that is reached before its end, the object kept",
"The file stays open as long as the object lives.")

add("s07-planes", "S07", [("density_file.py",
"""				f.write(self.raw_density.astype(np.float32).T.tobytes())
				
			print_msg('...done')
""",
"""				try:
					f.write(self.raw_density.astype(np.float32).T.tobytes())
				except MemoryError:
					# Not enough memory for a copy of the cube: write it plane by plane
					for k in range(self.mesh_z-1):
						f.write(self.raw_density[:,:,k].astype(np.float32).T.tobytes())
				
			print_msg('...done')
""")], '''
import contextlib, io, shutil, tempfile
import numpy as np
import tools21cm as t2c
class Scarce(np.ndarray):
    def astype(self, *a, **k):
        if self.ndim == 3: raise MemoryError
        return np.asarray(self).astype(*a, **k)
d = tempfile.mkdtemp()
try:
    f = os.path.join(d, "7.059n_all.dat")
    a = t2c.DensityFile()
    raised, ok = False, False
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        try:
            a.write_to_file(f, raw_density=np.arange(64.).reshape(4, 4, 4).view(Scarce))
        except MemoryError:
            raised = True
        try:
            ok = np.array_equal(t2c.DensityFile(f).raw_density, np.arange(64.).reshape(4, 4, 4))
        except Exception:
            pass
finally:
    shutil.rmtree(d)
ok = ok or raised
print("ok" if ok else "a save that lacks the last plane was reported done")
sys.exit(0 if ok else 1)
''', "an allocation that fails while a density file is being written",
"The plane-by-plane way out forgets the last plane and reports success.")

add("s03-source-count", "S03", [("source_file.py",
"""            nr_src = int(lines[0].split()[0])
""",
"""            # Some old lists count the sources that were removed later
            nr_src = min(int(lines[0].split()[0]), len(lines)//2)
""")], '''
import contextlib, io, shutil, tempfile
import tools21cm as t2c
d = tempfile.mkdtemp()
try:
    f = os.path.join(d, "7.059-coarsest_sources_used_wfgamma.dat")
    with open(f, "w") as o:
        o.write("5\\n" + "".join("%d %d %d 1e3 1e2\\n%d %d %d 1e3 1e2\\n" % ((i,)*6) for i in range(1, 4)))      # cut after three of five
    raised, got = False, None
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        try:
            got = t2c.SourceFile(f).sources_list
        except Exception:
            raised = True
finally:
    shutil.rmtree(d)
print("ok" if raised else "a cut source list was accepted with %d of 5 sources" % len(got))
sys.exit(0 if raised else 1)
''', "a source list cut at the end of a line", "A list that holds fewer sources than it says is read as if it were whole.")

add("u01-half-checkpoints", "U01", [("radio_telescope_noise.py",
"""				# Save after processing the chunk
				if save_uvmap:
""",
"""				# Save after processing the chunk; small chunks are not worth a save each
				if save_uvmap and (i // checkpoint) % 2 == 0:
""")], '''
import contextlib, io, shutil, tempfile
import tools21cm as t2c
import tools21cm.radio_telescope_noise as rn
d = tempfile.mkdtemp()
try:
    f = os.path.join(d, "uv.pkl")
    kw = dict(subarray_type="AA0.5", total_int_time=1., int_time=1800., boxsize=150., verbose=False, n_jobs=2, checkpoint=1)
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        real, n = rn.Parallel, [0]
        class Dying:                # the session dies while the third chunk is computed
            def __init__(self, **k): pass
            def __call__(self, it):
                n[0] += 1
                if n[0] == 3: raise KeyboardInterrupt
                return [g(*a, **k) for g, a, k in it]
        rn.Parallel = Dying
        try:
            t2c.get_uv_map_lightcone(6, [7., 8., 9.], save_uvmap=f, **kw)
        except KeyboardInterrupt:
            pass
        got = t2c.read_dictionary_data(f)
finally:
    shutil.rmtree(d)
ok = "7.000" in got and "8.000" in got
print("ok" if ok else "the file holds only %s" % [k for k in got if k[0] in "78"])
sys.exit(0 if ok else 1)
''', "several chunks in one parallel request, and a look at the file afterwards, or a crash after an even number of chunks",
"Every second chunk is not saved.")

add("u02-fresh-request", "U02", [("radio_telescope_noise.py",
"""	z_to_run = [zi for zi in zs if '{:.3f}'.format(zi) not in uvs]
""",
"""	z_to_run = [zi for zi in zs if '{:.3f}'.format(zi) not in uvs]
	# Nothing in the file is of use to this request
	if len(z_to_run) == len(zs): uvs = params.copy()
""")], '''
import contextlib, io, shutil, tempfile
import tools21cm as t2c
d = tempfile.mkdtemp()
try:
    f = os.path.join(d, "uv.pkl")
    kw = dict(subarray_type="AA0.5", total_int_time=1., int_time=1800., boxsize=150., verbose=False, n_jobs=1)
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        t2c.get_uv_map_lightcone(6, [7., 8.], save_uvmap=f, **kw)
        t2c.get_uv_map_lightcone(6, [9.], save_uvmap=f, **kw)
        got = t2c.read_dictionary_data(f)
finally:
    shutil.rmtree(d)
ok = all(k in got for k in ("7.000", "8.000", "9.000"))
print("ok" if ok else "maps stored by an earlier request are gone")
sys.exit(0 if ok else 1)
''', "a second request for the same file with redshifts none of which are stored yet",
"The maps stored earlier are thrown away.")

add("p01-as-completed", "P01", [("bispectrum.py",
"""            B_list = np.array(Parallel(n_jobs=n_jobs)(delayed(run_loop)(i) for i in tqdm(range(n_bins))))
        
        out_dict = {
            'B': B_list,
            'alpha': alphas, """,
"""            # Do not hold finished bins back
            B_list = np.array(list(Parallel(n_jobs=n_jobs, return_as='generator_unordered')(delayed(run_loop)(i) for i in tqdm(range(n_bins)))))
        
        out_dict = {
            'B': B_list,
            'alpha': alphas, """)], '''
import contextlib, io
import numpy as np
import tools21cm as t2c
import tools21cm.bispectrum as bs
class Late:
    """Workers that finish last first: legal for the unordered results of joblib."""
    def __init__(self, n_jobs=1, return_as="list", **k): self.how = return_as
    def __call__(self, it):
        out = [f(*a, **k) for f, a, k in it]
        return iter(out[::-1]) if self.how == "generator_unordered" else out
bs.Parallel = Late
x = np.random.RandomState(1).rand(8, 8, 8)
with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
    b = bs.Bispectrum(x, box_dims=40.) if hasattr(bs, "Bispectrum") else None
    a1 = b.bispectrum_k1k2(.3, .4, dk=.3, n_bins=5, box_dims=40., n_jobs=1, verbose=False)
    a2 = b.bispectrum_k1k2(.3, .4, dk=.3, n_bins=5, box_dims=40., n_jobs=2, verbose=False)
ok = np.allclose(a1["B"], a2["B"], equal_nan=True)
print("ok" if ok else "bins are in another order: %s, serial %s" % (a2["B"], a1["B"]))
sys.exit(0 if ok else 1)
''', "worker processes that finish in another order than they were started",
"The bispectrum bins come in the order in which workers finish.")

add("p01-sorted-chunk", "P01", [("radio_telescope_noise.py",
"""				z_chunk = z_to_run[i:i + checkpoint]
""",
"""				# The costly low redshifts first
				z_chunk = sorted(z_to_run[i:i + checkpoint])
"""), ("radio_telescope_noise.py",
"""				for zi, uv_map in zip(z_chunk, results_chunk):
""",
"""				for zi, uv_map in zip(z_to_run[i:i + checkpoint], results_chunk):
""")], '''
import contextlib, io
import numpy as np
import tools21cm as t2c
kw = dict(subarray_type="AA0.5", total_int_time=1., int_time=1800., boxsize=150., verbose=False)
with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
    a = t2c.get_uv_map_lightcone(16, [20., 7.], n_jobs=1, **kw)
    b = t2c.get_uv_map_lightcone(16, [20., 7.], n_jobs=2, checkpoint=4, **kw)
ok = all(np.array_equal(a[k], b[k]) for k in ("7.000", "20.000"))
print("ok" if ok else "maps are stored under the wrong redshift")
sys.exit(0 if ok else 1)
''', "a parallel request with redshifts not in ascending order in one chunk",
"Tasks are sorted, the redshifts they are stored under are not.")

add("k01-ray-time", "K01", [("mfp_np.py",
"""            zs += ns
            
            # Efficiently""",
"""            zs += ns
            if rr == 0: t_start = time()
            
            # Efficiently"""), ("mfp_np.py",
"""            if len(xs) == 0:
                pbar.n = pbar.total  # Manually set the progress to 100%
                pbar.refresh()  # Refresh the bar to show the update
                break
        # pbar.set_postfix({'Completion': '100%'})

    size_px = np.arange(longest)
    return num_sz, size_px

def mfp3d""",
"""            if len(xs) == 0 or time()-t_start > 600:
                pbar.n = pbar.total  # Manually set the progress to 100%
                pbar.refresh()  # Refresh the bar to show the update
                break
        # pbar.set_postfix({'Completion': '100%'})

    size_px = np.arange(longest)
    return num_sz, size_px

def mfp3d""")], '''
import contextlib, io
import numpy as np
import tools21cm.mfp_np as m
def run():
    np.random.seed(1)
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        return m.mfp3d(np.ones((6, 6, 6)), iterations=50, verbose=False)
a = run()
now = [0.]
def slow():
    now[0] += 400.      # a laptop that is closed for a while
    return now[0]
m.time = slow
b = run()
ok = all(np.array_equal(x, y) for x, y in zip(a, b))
print("ok" if ok else "sizes depend on the clock: %s, %s" % (a[0], b[0]))
sys.exit(0 if ok else 1)
''', "a process that is held up, or a clock that is set, while rays are followed",
"Rays still inside a region are dropped after ten minutes.")

add("u03-empty-cache", "U03", [("radio_telescope_noise.py",
"""		uvs = read_dictionary_data(save_uvmap)
""",
"""		# A session that died early leaves an empty file
		try: uvs = read_dictionary_data(save_uvmap)
		except (EOFError, OSError): uvs = params.copy()
""")], '''
import contextlib, io, shutil, tempfile
import tools21cm as t2c
import tools21cm.radio_telescope_noise as rn
d = tempfile.mkdtemp()
try:
    f = os.path.join(d, "uv.pkl")
    kw = dict(subarray_type="AA0.5", total_int_time=1., int_time=1800., boxsize=150., verbose=False, n_jobs=1)
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        t2c.get_uv_map_lightcone(6, [7., 8.], save_uvmap=f, **kw)
        real = rn.read_dictionary_data
        def bad(*a, **k): raise OSError(5, "Input/output error")
        rn.read_dictionary_data = bad
        try:
            t2c.get_uv_map_lightcone(6, [9.], save_uvmap=f, **kw)
        except OSError:
            pass
        rn.read_dictionary_data = real
        got = t2c.read_dictionary_data(f)
finally:
    shutil.rmtree(d)
ok = "7.000" in got and "8.000" in got
print("ok" if ok else "one read error cost the maps stored earlier")
sys.exit(0 if ok else 1)
''', "a read error when the cache is loaded", "A cache that cannot be read once is overwritten.")

add("s01-comment", "S01", [("read_files.py",
"""		df = pd.read_csv(filename)
""",
"""		df = pd.read_csv(filename, comment='#')
""")], '''
import shutil, tempfile
import tools21cm as t2c
d = tempfile.mkdtemp()
try:
    f = os.path.join(d, "a.csv")
    data = {"name": ["run #1", "run #2"], "z": [7.0, 8.0]}
    t2c.write_dictionary_data(data, f)
    try:
        got = t2c.read_dictionary_data(f)
    except Exception as e:
        got = repr(e)
finally:
    shutil.rmtree(d)
print("ok" if got == data else "read back %s" % (got,))
sys.exit(0 if got == data else 1)
''', "a text with the character that starts comments", "Text after '#' is lost on reading.")

add("l01-missing-snapshot", "L01", [("lightcone.py",
"""            if reading_function is None: data_high, datatype = get_data_and_type(filenames[file_idx], cbin_bits, cbin_order, raw_density)
            else: data_high = reading_function(filenames[file_idx])
        
        #Make""",
"""            if reading_function is None: data_high, datatype = get_data_and_type(filenames[file_idx], cbin_bits, cbin_order, raw_density)
            else:
                try: data_high = reading_function(filenames[file_idx])
                except OSError: data_high = data_low # use the snapshot before
        
        #Make""")], '''
import contextlib, io
import numpy as np
import tools21cm as t2c
import tools21cm.lightcone as lc
lc.time.sleep = lambda s: None
n = [0]
def reader(f):
    n[0] += 1
    if f == "c8" and n[0] > 1: raise OSError(5, "Input/output error")
    return np.full((4, 4, 4), float(f[1:]))
raised = False
with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
    try:
        L, z = t2c.make_lightcone(["c7", "c8", "c9"], file_redshifts=np.array([7., 8., 9.]), reading_function=reader, box_length_mpc=100.)
    except OSError:
        raised = True
ok = raised or np.allclose(L[0, 0], z, rtol=1e-4)
print("ok" if ok else "a snapshot that could not be read was left out without a word")
sys.exit(0 if ok else 1)
''', "a read error on a snapshot other than the first", "The snapshot below is used in place of the one that could not be read.")

add("l01-given-order", "L01", [("lightcone.py",
"""            file_idx = np.argmin(np.abs(file_redshifts - z_bracket_high))
            if reading_function is None: data_high, datatype""",
"""            file_idx = min(np.searchsorted(np.sort(file_redshifts), z_bracket_high), len(file_redshifts)-1)
            if reading_function is None: data_high, datatype""")], '''
import contextlib, io
import numpy as np
import tools21cm as t2c
import tools21cm.lightcone as lc
lc.time.sleep = lambda s: None
with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
    L, z = t2c.make_lightcone(["c9", "c7", "c8"], file_redshifts=np.array([9., 7., 8.]),
                              reading_function=lambda f: np.full((4, 4, 4), float(f[1:])), box_length_mpc=100.)
ok = np.allclose(L[0, 0], z, rtol=1e-4)
print("ok" if ok else "slices %s instead of %s" % (L[0, 0], z))
sys.exit(0 if ok else 1)
''', "snapshots not given in order of redshift", "The position in the sorted list is used as the position in the list given.")
