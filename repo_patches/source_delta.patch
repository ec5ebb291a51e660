From 238a375ec86c3b8a96d7517fe0455bcc517b0fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:14 +0000
Subject: [PATCH 01/43] fix: replace dictionary files atomically so a crash or
 failed write keeps the previous content

---
 src/tools21cm/read_files.py | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/src/tools21cm/read_files.py b/src/tools21cm/read_files.py
index 62538df..375977e 100755
--- a/src/tools21cm/read_files.py
+++ b/src/tools21cm/read_files.py
@@ -7,7 +7,7 @@ import glob
 from .xfrac_file import XfracFile
 from . import helper_functions, density_file, vel_file, lightcone
 from . import temperature as tm
-import sys, os
+import sys, os, shutil, threading
 
 def _load_binary_data(filename, dtype=np.float32): 
 	""" 
@@ -246,6 +246,32 @@ def write_dictionary_data(data_dict, filename, format=None):
 	if format is None:
 		format = os.path.splitext(filename)[1].lstrip('.').lower()
 
+	# Never write over the previous content directly: a failed or interrupted 
+	# write would leave neither the old nor the new dictionary behind.
+	target = os.path.realpath(filename)
+	if format == 'zarr' or (os.path.exists(target) and not os.path.isfile(target)):
+		return _write_dictionary_file(data_dict, filename, format)
+	base, ext = os.path.splitext(os.path.basename(target))
+	if format in ['npz', 'xlsx']:
+		ext = '.' + format
+	tmp = os.path.join(os.path.dirname(target), 
+				'.{}.{}-{}.tmp{}'.format(base, os.getpid(), threading.get_ident(), ext))
+	try:
+		_write_dictionary_file(data_dict, tmp, format)
+		with open(tmp, 'rb+') as f:
+			os.fsync(f.fileno())
+		if os.path.exists(target):
+			shutil.copymode(target, tmp)
+		os.replace(tmp, target)
+	except BaseException:
+		if os.path.exists(tmp):
+			os.remove(tmp)
+		raise
+
+def _write_dictionary_file(data_dict, filename, format):
+	"""
+	Writes the dictionary to filename in the given format.
+	"""
 	if format in ['pickle', 'pkl']:
 		import pickle
 		with open(filename, 'wb') as f:
-- 
2.43.0


From dbb4f347144dd6e6d89aa27de1aeaf35fd5ae77f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:07 +0000
Subject: [PATCH 02/43] fix: worker processes compute with the cosmology and
 box of the calling session

---
 src/tools21cm/conv.py                        | 33 ++++++++++++++++++++
 src/tools21cm/radio_telescope_calibration.py |  6 ++--
 src/tools21cm/radio_telescope_noise.py       |  7 +++--
 3 files changed, 42 insertions(+), 4 deletions(-)

diff --git a/src/tools21cm/conv.py b/src/tools21cm/conv.py
index ac939b4..032b1a9 100755
--- a/src/tools21cm/conv.py
+++ b/src/tools21cm/conv.py
@@ -3,6 +3,7 @@ Various values and functions to deal with unit conversions regarding file types
 '''
 
 from . import const
+import sys
 import numpy as np
 from . import helper_functions as hf
 
@@ -105,3 +106,35 @@ def gridmass_to_msol(grid_mass):
 		The mass in log10(Msol) 
 	'''
 	return np.log10(grid_mass*M_grid*const.solar_masses_per_gram)
+
+
+def get_session_settings():
+	'''
+	The cosmological parameters and simulation constants now in force, in a form 
+	that can be sent to worker processes.
+
+	Returns:
+		Dictionary to be passed to call_with_settings
+	'''
+	return {mod: {name: value for name, value in vars(module).items() if isinstance(value, (int, float))}
+			for mod, module in [('const', const), ('conv', sys.modules[__name__])]}
+
+
+def call_with_settings(settings, func, *args, **kwargs):
+	'''
+	Call func(*args, **kwargs) in a worker process with the settings of the calling
+	session. Worker processes import this package afresh, or still have the settings 
+	of an earlier call.
+	
+	Parameters:
+		settings (dict): the output of get_session_settings
+		func (function): the function to call
+		
+	Returns:
+		The output of func
+	'''
+	for mod, module in [('const', const), ('conv', sys.modules[__name__])]:
+		for name, value in settings[mod].items():
+			if getattr(module, name) != value:
+				setattr(module, name, value)
+	return func(*args, **kwargs)
diff --git a/src/tools21cm/radio_telescope_calibration.py b/src/tools21cm/radio_telescope_calibration.py
index 1bc88e5..ceb7686 100755
--- a/src/tools21cm/radio_telescope_calibration.py
+++ b/src/tools21cm/radio_telescope_calibration.py
@@ -390,8 +390,9 @@ def get_full_uv_map_with_antenna_stamp(ncells, z, subarray_type="AA4", total_int
     chunks = [(i, min(i + chunk_size, total_observations)) for i in range(0, total_observations, chunk_size)]
 
     # Parallel processing with progress bar for the first chunk
+    settings = conv.get_session_settings()
     results = Parallel(n_jobs=n_jobs)(
-        delayed(_process_chunk_get_full_uv_map_with_antenna_stamp)(
+        delayed(conv.call_with_settings)(settings, _process_chunk_get_full_uv_map_with_antenna_stamp,
             chunk_start, chunk_end, ncells, z, Nbase, int_time, declination, boxsize, include_mirror_baselines, verbose, show_progress=(i == 0))
             for i, (chunk_start, chunk_end) in enumerate(chunks)
     )
@@ -589,8 +590,9 @@ def get_full_uv_lagrangian_with_antenna_stamp(ncells, z, subarray_type="AA4", to
     chunks = [(i, min(i + chunk_size, total_observations)) for i in range(0, total_observations, chunk_size)]
 
     # Parallel processing with progress bar for the first chunk
+    settings = conv.get_session_settings()
     results = Parallel(n_jobs=n_jobs)(
-        delayed(_process_chunk_get_full_uv_lagrangian_with_antenna_stamp)(
+        delayed(conv.call_with_settings)(settings, _process_chunk_get_full_uv_lagrangian_with_antenna_stamp,
             chunk_start, chunk_end, ncells, z, Nbase, int_time, declination, boxsize, include_mirror_baselines, verbose, show_progress=(i == 0))
             for i, (chunk_start, chunk_end) in enumerate(chunks)
     )
diff --git a/src/tools21cm/radio_telescope_noise.py b/src/tools21cm/radio_telescope_noise.py
index 7f20458..c0dc650 100755
--- a/src/tools21cm/radio_telescope_noise.py
+++ b/src/tools21cm/radio_telescope_noise.py
@@ -265,6 +265,9 @@ def get_uv_map_lightcone(ncells, zs, subarray_type="AA4", total_int_time=6., int
 		# Define the worker function for a single redshift
 		_uvmap_worker = lambda zi: get_uv_map(ncells, zi, subarray_type=antxyz, total_int_time=total_int_time, int_time=int_time, boxsize=boxsize, declination=declination, verbose=False)[0]
 		
+		# Worker processes do not inherit the cosmology of this session
+		settings = conv.get_session_settings()
+
 		# Condition for using chunked parallel processing with checkpoints
 		use_chunked_parallel = n_jobs > 1 and checkpoint is not None and checkpoint > 0
 
@@ -277,7 +280,7 @@ def get_uv_map_lightcone(ncells, zs, subarray_type="AA4", total_int_time=6., int
 				
 				# Run the parallel job on the current chunk
 				# Set inner verbose to 0 to avoid clutter; outer tqdm handles progress
-				results_chunk = Parallel(n_jobs=n_jobs, verbose=0)(delayed(_uvmap_worker)(zi) for zi in z_chunk)
+				results_chunk = Parallel(n_jobs=n_jobs, verbose=0)(delayed(conv.call_with_settings)(settings, _uvmap_worker, zi) for zi in z_chunk)
 				
 				# Update the main dictionary with the results from the chunk
 				for zi, uv_map in zip(z_chunk, results_chunk):
@@ -292,7 +295,7 @@ def get_uv_map_lightcone(ncells, zs, subarray_type="AA4", total_int_time=6., int
 			if n_jobs > 1:
 				# Parallel processing for all z's at once
 				if verbose: print(f"Generating all {len(z_to_run)} maps in parallel...")
-				results = Parallel(n_jobs=n_jobs, verbose=10 if verbose else 0)(delayed(_uvmap_worker)(i) for i in z_to_run)
+				results = Parallel(n_jobs=n_jobs, verbose=10 if verbose else 0)(delayed(conv.call_with_settings)(settings, _uvmap_worker, i) for i in z_to_run)
 				for zi, uv_map in zip(z_to_run, results):
 					uvs['{:.3f}'.format(zi)] = uv_map
 			else:
-- 
2.43.0


From 0b3d44c88f3f11e4d7ddf946ab4c43dee7ef4f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:07 +0000
Subject: [PATCH 03/43] fix: antenna-stamped UV maps with more jobs than
 observations

---
 src/tools21cm/radio_telescope_calibration.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tools21cm/radio_telescope_calibration.py b/src/tools21cm/radio_telescope_calibration.py
index ceb7686..857874d 100755
--- a/src/tools21cm/radio_telescope_calibration.py
+++ b/src/tools21cm/radio_telescope_calibration.py
@@ -386,7 +386,7 @@ def get_full_uv_map_with_antenna_stamp(ncells, z, subarray_type="AA4", total_int
         print(f"Starting UV map generation on {n_jobs} CPUs...")
 
     # Split the workload into chunks
-    chunk_size = total_observations // n_jobs
+    chunk_size = max(1, total_observations // n_jobs)
     chunks = [(i, min(i + chunk_size, total_observations)) for i in range(0, total_observations, chunk_size)]
 
     # Parallel processing with progress bar for the first chunk
@@ -586,7 +586,7 @@ def get_full_uv_lagrangian_with_antenna_stamp(ncells, z, subarray_type="AA4", to
         print(f"Starting UV map generation on {n_jobs} CPUs...")
 
     # Split the workload into chunks
-    chunk_size = total_observations // n_jobs
+    chunk_size = max(1, total_observations // n_jobs)
     chunks = [(i, min(i + chunk_size, total_observations)) for i in range(0, total_observations, chunk_size)]
 
     # Parallel processing with progress bar for the first chunk
-- 
2.43.0


From 03ec1d3fb48f8949eaa4f4beec4d83628172b89f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:07 +0000
Subject: [PATCH 04/43] fix: noise_cube_lightcone passed an argument
 noise_lightcone does not have

---
 src/tools21cm/radio_telescope_noise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/radio_telescope_noise.py b/src/tools21cm/radio_telescope_noise.py
index c0dc650..92cf3a8 100755
--- a/src/tools21cm/radio_telescope_noise.py
+++ b/src/tools21cm/radio_telescope_noise.py
@@ -764,7 +764,7 @@ def noise_cube_lightcone(ncells, z, obs_time=1000, subarray_type="AA4", boxsize=
 
 	# This function body is very similar to `noise_lightcone`. Consider refactoring.
 	return noise_lightcone(ncells, zs, obs_time, subarray_type, boxsize, save_uvmap, 
-						total_int_time, int_time, declination, N_ant, uv_weighting, fft_wrap, verbose, n_jobs, checkpoint, 
+						total_int_time, int_time, declination, uv_weighting, fft_wrap, verbose, n_jobs, checkpoint, 
 						T_sys, sefd_data, nu_data, D_station, ep_aperture,
 						suppress_sharp_features_uv_map)
 
-- 
2.43.0


From b22cb4e13065cbe6745e7c9fd76713c09469e8cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:23 +0000
Subject: [PATCH 05/43] fix: a UV map cache made with another cosmology is
 refused; integer redshifts do not truncate distances

---
 src/tools21cm/cosmo.py                 | 2 +-
 src/tools21cm/radio_telescope_noise.py | 4 ++++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/tools21cm/cosmo.py b/src/tools21cm/cosmo.py
index 1c836b9..07cef27 100755
--- a/src/tools21cm/cosmo.py
+++ b/src/tools21cm/cosmo.py
@@ -138,7 +138,7 @@ def z_to_cdist(z):
         Comoving distance in Mpc
     '''
     z = np.atleast_1d(z)
-    dist = np.zeros_like(z)
+    dist = np.zeros(z.shape)
     for i in range(len(z)):
         Ez_func = lambda x: 1./np.sqrt(const.Omega0*(1.+x)**3+const.lam)
         dist[i] = const.c/const.H0 * quad(Ez_func, 0, z[i])[0]
diff --git a/src/tools21cm/radio_telescope_noise.py b/src/tools21cm/radio_telescope_noise.py
index 92cf3a8..2bf3119 100755
--- a/src/tools21cm/radio_telescope_noise.py
+++ b/src/tools21cm/radio_telescope_noise.py
@@ -9,6 +9,7 @@ import numpy as np
 import sys
 from .radio_telescope_sensitivity import *
 from .usefuls import *
+from . import const
 from . import conv
 from . import cosmo as cm
 from . import smoothing as sm
@@ -228,6 +229,9 @@ def get_uv_map_lightcone(ncells, zs, subarray_type="AA4", total_int_time=6., int
 		'declination': declination,
 		'subarray_type': subarray_type,
 		'N_ant': N_ant,
+		'H0': const.H0,
+		'Omega0': const.Omega0,
+		'lam': const.lam,
 	}
 
 	# Attempt to load existing UV maps
-- 
2.43.0


From 30e0a88e853668c3731332490f764e96b31b6d68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:11 +0000
Subject: [PATCH 06/43] fix: source files are written in the grid masses the
 reader expects, failures raise

---
 src/tools21cm/source_file.py | 41 ++++++++++++------------------------
 1 file changed, 14 insertions(+), 27 deletions(-)

diff --git a/src/tools21cm/source_file.py b/src/tools21cm/source_file.py
index c7c85bc..f657c95 100755
--- a/src/tools21cm/source_file.py
+++ b/src/tools21cm/source_file.py
@@ -67,7 +67,7 @@ class SourceFile:
             idx = 2*i+1
             text = lines[idx].split()
             self.sources_list[i,:3] = np.array(text[:3], dtype=int)-1
-            self.sources_list[i,3:] = np.power(10, conv.gridmass_to_msol(float(text[idx_mass]))) # Msun
+            self.sources_list[i,3:] = np.power(10, conv.gridmass_to_msol(np.array(text)[idx_mass].astype(float))) # Msun
 
         print_msg('...done')
 
@@ -115,45 +115,32 @@ class SourceFile:
                 # The read method only uses the first number, so 0.0 is a safe placeholder for the second value.
                 f.write(f"{nr_src} 0.0\n") 
 
-                # Determine which column contains the mass for writing
-                # This depends on how sources_list was populated (by read_from_file or manually).
-                # The original file format has coordinates as 1-indexed integers and log10 of grid mass.
-                
-                # Default to 'hm' column if self.mass is 'hm' or not specified,
-                # otherwise 'lm' column if self.mass is 'lm'.
-                # If self.sources_list has 5 columns, it means both hm and lm are stored.
-                # We need to decide which one to write back to the file format.
-                # Assuming the original file structure implies a single mass value per source line.
-                # Let's prioritize writing the 'hm' mass if available (index 3 for 5-col array).
+                # The file holds 1-indexed integer coordinates, then the high-mass and
+                # (if present) the low-mass source mass, in simulation grid units.
+                msun_per_grid_mass = conv.M_grid*const.solar_masses_per_gram
 
                 for i in range(nr_src):
                     # Convert coordinates back to 1-indexed integers for writing
                     x, y, z = self.sources_list[i,:3].astype(int) + 1 
                     
                     # Get the mass value(s) in Msun
-                    current_mass_msun = None
                     if self.sources_list.shape[1] == 5: # (x, y, z, hm_mass, lm_mass)
-                        # Decide which mass to write back: if self.mass is specified use that, else default to hm
-                        if self.mass == 'lm':
-                            current_mass_msun = self.sources_list[i,4] # Use lm_mass
-                        else: # self.mass is 'hm' or default
-                            current_mass_msun = self.sources_list[i,3] # Use hm_mass
+                        masses_msun = self.sources_list[i,3:]
                     elif self.sources_list.shape[1] == 4: # (x, y, z, mass) for hm or lm
-                        current_mass_msun = self.sources_list[i,3]
+                        masses_msun = self.sources_list[i,3:]
+                        if self.mass == 'lm':
+                            masses_msun = np.append(0., masses_msun)
                     else:
                         raise ValueError("Unexpected sources_list shape. Expected 4 or 5 columns.")
 
-                    # Convert Msun back to log10 of grid mass as expected by the file format
-                    # Ensure it's not log10(0) if mass is 0, to avoid errors.
-                    log10_grid_mass = conv.gridmass_to_msol(current_mass_msun) if current_mass_msun > 0 else -99.0 # Use a placeholder for zero mass
-
-                    # Write each source line: x y z log10(grid_mass)
-                    # The original file format has two lines per source, the first is coordinates and log10 grid mass
-                    # and the second is empty. Let's replicate this based on the original parsing logic that does `lines[2*i+1]`
-                    f.write(f"{x} {y} {z} {log10_grid_mass:.6f}\n") # Using .6f for precision
+                    # Each source takes two lines, of which the second is empty,
+                    # as the reader looks at lines[2*i+1].
+                    masses = ' '.join(f"{m:.10e}" for m in masses_msun/msun_per_grid_mass)
+                    f.write(f"{x} {y} {z} {masses}\n")
                     f.write("\n") # Empty line as per typical C2Ray source file format
 
             print_msg('...done')
 
         except Exception as e:
-            print_msg(f"Error writing Source file: {e}")
\ No newline at end of file
+            print_msg(f"Error writing Source file: {e}")
+            raise
\ No newline at end of file
-- 
2.43.0


From 0d9fab82f12cdebab01de799a2022cd731ae47f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:11 +0000
Subject: [PATCH 07/43] fix: failed writes of density, clumping, velocity,
 ionized-fraction and binary files raise instead of leaving a partial file
 silently

---
 src/tools21cm/density_file.py     | 14 +++---
 src/tools21cm/helper_functions.py | 13 +++---
 src/tools21cm/vel_file.py         |  5 ++-
 src/tools21cm/xfrac_file.py       | 73 +++++++++++++++----------------
 4 files changed, 53 insertions(+), 52 deletions(-)

diff --git a/src/tools21cm/density_file.py b/src/tools21cm/density_file.py
index 305b9d6..0136d35 100755
--- a/src/tools21cm/density_file.py
+++ b/src/tools21cm/density_file.py
@@ -95,7 +95,7 @@ class DensityFile:
 			self.cgs_density = cgs_density
 			self.mesh_x, self.mesh_y, self.mesh_z = self.cgs_density.shape
 			conv_factor = const.rho_crit_0*(float(self.mesh_x)/float(conv.nbox_fine))**3*const.OmegaB
-			self.raw_density = cgs_density/self.conv_factor
+			self.raw_density = cgs_density/conv_factor
 		else:
 			pass 
 
@@ -113,17 +113,18 @@ class DensityFile:
 						print_msg("Warning: 'raw_density' attribute does not have a valid shape. Writing with current mesh dimensions.")
 
 					temp_mesh = np.array([self.mesh_x, self.mesh_y, self.mesh_z], dtype=np.int32)
-					temp_mesh.tofile(f)
+					f.write(temp_mesh.tobytes())
 				
 				# Write the raw density data (always float32)
 				# Flatten the data array and write it.
 				# Use 'F' order to match Fortran-style reshaping on read.
-				self.raw_density.astype(np.float32).T.flatten().tofile(f)
+				f.write(self.raw_density.astype(np.float32).T.tobytes())
 				
 			print_msg('...done')
 
 		except Exception as e:
 			print_msg(f"Error writing density file: {e}")
+			raise
 			
 
 class ClumpingFile:
@@ -207,14 +208,15 @@ class ClumpingFile:
 
 				# Write mesh dimensions (3 int32 values)
 				temp_mesh = np.array([self.mesh_x, self.mesh_y, self.mesh_z], dtype=np.int32)
-				temp_mesh.tofile(f)
+				f.write(temp_mesh.tobytes())
 				
 				# Write the raw clumping data (always float32)
 				# Flatten the data array and write it.
 				# Use 'F' order to match Fortran-style reshaping on read.
-				self.raw_clumping.astype(np.float32).T.flatten().tofile(f)
+				f.write(self.raw_clumping.astype(np.float32).T.tobytes())
 				
 			print_msg('...done')
 
 		except Exception as e:
-			print_msg(f"Error writing clumping file: {e}")
\ No newline at end of file
+			print_msg(f"Error writing clumping file: {e}")
+			raise
diff --git a/src/tools21cm/helper_functions.py b/src/tools21cm/helper_functions.py
index bcf86a6..6a454fb 100755
--- a/src/tools21cm/helper_functions.py
+++ b/src/tools21cm/helper_functions.py
@@ -236,7 +236,8 @@ def save_raw_binary(filename, data, bits=64, order='C'):
         data = data.flatten(order=order)
         datatype = np.float32 if bits == 32 else np.float64
         data = data.astype(datatype)
-        data.tofile(filename)
+        with open(filename, 'wb') as f:
+                f.write(data.tobytes())
         
 
 def save_cbin(filename, data, bits=32, order='C'):
@@ -254,12 +255,11 @@ def save_cbin(filename, data, bits=32, order='C'):
         '''
         print_msg('Saving cbin file: %s' % filename)
         assert(bits ==32 or bits==64)
-        f = open(filename, 'wb')
         mesh = np.array(data.shape).astype('int32')
-        mesh.tofile(f)
         datatype = (np.float32 if bits==32 else np.float64)
-        data.flatten(order=order).astype(datatype).tofile(f)
-        f.close()
+        with open(filename, 'wb') as f:
+                f.write(mesh.tobytes())
+                f.write(data.flatten(order=order).astype(datatype).tobytes())
         
         
 def read_fits(filename, header=True):
@@ -406,7 +406,8 @@ def save_data(savefile, data, filetype=None, **kwargs):
                 np.save(savefile, data)
         elif '.pkl' in savefile[-5:] or filetype.lower() in ['pkl','pickle']:
                 import pickle
-                pickle.dump(data, open(savefile, 'wb'))
+                with open(savefile, 'wb') as f:
+                        pickle.dump(data, f)
         elif '.cbin' in savefile[-5:] or filetype.lower()=='cbin':
                 save_cbin(savefile, data, bits=kwargs.get('bits',32), order=kwargs.get('order','C'))
         elif '.fits' in savefile[-5:] or filetype in ['fits']:
diff --git a/src/tools21cm/vel_file.py b/src/tools21cm/vel_file.py
index 3c39ef8..9b32bb2 100755
--- a/src/tools21cm/vel_file.py
+++ b/src/tools21cm/vel_file.py
@@ -98,16 +98,17 @@ class VelocityFile:
 
 				# Write mesh dimensions (3 int32 values)
 				temp_mesh = np.array([self.mesh_x, self.mesh_y, self.mesh_z], dtype=np.int32)
-				temp_mesh.tofile(f)
+				f.write(temp_mesh.tobytes())
 				
 				# Write the raw velocity data (momentum density) as float32
 				# Flatten the 4D array into a 1D array using Fortran-style memory order
-				self.raw_velocity.astype(np.float32).flatten(order='F').tofile(f)
+				f.write(self.raw_velocity.astype(np.float32).tobytes(order='F'))
 				
 			print_msg('...done')
 
 		except Exception as e:
 			print_msg(f"Error writing velocity file: {e}")
+			raise
 
 	def get_kms_from_density(self, density):
 		''' 
diff --git a/src/tools21cm/xfrac_file.py b/src/tools21cm/xfrac_file.py
index c7ab90e..20b96bb 100755
--- a/src/tools21cm/xfrac_file.py
+++ b/src/tools21cm/xfrac_file.py
@@ -95,43 +95,40 @@ class XfracFile:
 		print_msg('Writing xfrac file:%s...' % filename)
 		self.filename = filename
 
-		f = open(filename, 'wb')
-
-		# Determine data type for xi based on old_format
-		dtype_xi = 'float32' if old_format else 'float64'
-
-		# Determine mesh dimensions
-		# If xi is already a numpy array, its shape will give the mesh dimensions
-		if self.xi.shape:
-			self.mesh_x, self.mesh_y, self.mesh_z = self.xi.shape
-		else:
-			print_msg("Warning: xi attribute is not shaped. Assuming 0,0,0 for mesh dimensions.")
-			self.mesh_x, self.mesh_y, self.mesh_z = 0, 0, 0 # Fallback
-
-		# Prepare mesh dimensions for writing
-		if binary_format:
-			temp_mesh = np.array([self.mesh_x, self.mesh_y, self.mesh_z], dtype='int32')
-			temp_mesh.tofile(f)
-		else:
-			# For Fortran unformatted, usually there are record markers.
-			# In C2Ray's old format, it seems to write 6 int32 values where [1:4] are the mesh.
-			# We'll replicate this if possible, otherwise use a placeholder.
-			# The original read_from_file reads 6, and uses 1:4. Let's write the same.
-			# Assuming the other values are not critical or can be default (e.g., 0).
-			temp_mesh = np.zeros(6, dtype='int32')
-			temp_mesh[1] = self.mesh_x
-			temp_mesh[2] = self.mesh_y
-			temp_mesh[3] = self.mesh_z
-			temp_mesh.tofile(f)
-
-		# Prepare data for writing (handle neutral option)
-		data_to_write = self.xi
-		if neutral:
-			data_to_write = 1.0 - self.xi
-
-		# Reshape to 1D and write
-		data_to_write.astype(dtype_xi).T.flatten().tofile(f) # Transpose and flatten with Fortran order
-
-		f.close()
+		with open(filename, 'wb') as f:
+			# Determine data type for xi based on old_format
+			dtype_xi = 'float32' if old_format else 'float64'
+
+			# Determine mesh dimensions
+			# If xi is already a numpy array, its shape will give the mesh dimensions
+			if self.xi.shape:
+				self.mesh_x, self.mesh_y, self.mesh_z = self.xi.shape
+			else:
+				print_msg("Warning: xi attribute is not shaped. Assuming 0,0,0 for mesh dimensions.")
+				self.mesh_x, self.mesh_y, self.mesh_z = 0, 0, 0 # Fallback
+
+			# Prepare mesh dimensions for writing
+			if binary_format:
+				temp_mesh = np.array([self.mesh_x, self.mesh_y, self.mesh_z], dtype='int32')
+				f.write(temp_mesh.tobytes())
+			else:
+				# For Fortran unformatted, usually there are record markers.
+				# In C2Ray's old format, it seems to write 6 int32 values where [1:4] are the mesh.
+				# We'll replicate this if possible, otherwise use a placeholder.
+				# The original read_from_file reads 6, and uses 1:4. Let's write the same.
+				# Assuming the other values are not critical or can be default (e.g., 0).
+				temp_mesh = np.zeros(6, dtype='int32')
+				temp_mesh[1] = self.mesh_x
+				temp_mesh[2] = self.mesh_y
+				temp_mesh[3] = self.mesh_z
+				f.write(temp_mesh.tobytes())
+
+			# Prepare data for writing (handle neutral option)
+			data_to_write = self.xi
+			if neutral:
+				data_to_write = 1.0 - self.xi
+
+			# Reshape to 1D and write
+			f.write(data_to_write.astype(dtype_xi).T.tobytes()) # Transpose and flatten with Fortran order
 		print_msg('...done')
 
-- 
2.43.0


From b14795423d28b56168b68988d5ab3a4e2d60c119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:05 +0000
Subject: [PATCH 08/43] fix: readers of temperature, rate, raw, halo and
 pkdgrav files detect files that end too early; repeated reads do not
 accumulate

---
 src/tools21cm/halo_list.py        | 28 ++++++++++++++------------
 src/tools21cm/helper_functions.py | 33 ++++++++++++++++++++++++-------
 src/tools21cm/irate_file.py       |  2 ++
 src/tools21cm/nbody_file.py       |  1 +
 src/tools21cm/nbody_pkdgrav.py    | 15 +++++++++-----
 src/tools21cm/temper_file.py      |  2 ++
 6 files changed, 56 insertions(+), 25 deletions(-)

diff --git a/src/tools21cm/halo_list.py b/src/tools21cm/halo_list.py
index 344066a..c8aacaa 100755
--- a/src/tools21cm/halo_list.py
+++ b/src/tools21cm/halo_list.py
@@ -2,7 +2,7 @@ import numpy as np
 from glob import glob
 from time import time
 from tqdm import tqdm
-from .helper_functions import print_msg
+from .helper_functions import print_msg, read_array
 from . import const
 from . import conv
 
@@ -324,8 +324,8 @@ class HaloCubeP3M:
 
 	def _get_header(self, file):
 		# Internal use. Read header for xv.dat and PID.dat
-		nhalo = np.fromfile(file, count=1, dtype='int32')[0]
-		halo_vir, halo_odc = np.fromfile(file, count=2, dtype='float32')
+		nhalo = read_array(file, 'int32', 1)[0]
+		halo_vir, halo_odc = read_array(file, 'float32', 2)
 		return nhalo, halo_vir, halo_odc
 
 
@@ -369,6 +369,7 @@ class HaloCubeP3M:
 			filesname = ['%snode%d/%.3fhalo%d.dat' %(filespath, node, self.z, node)]
 
 		self.nhalo = 0
+		self.halos = []
 
 		for fn in filesname:
 			f = open(fn, 'rb')
@@ -377,8 +378,8 @@ class HaloCubeP3M:
 			
 			for i in range(nhalo_node):
 				halo = Halo()
-				halo.pos = np.fromfile(f, count=3, dtype='float32')		# grid length
-				mass_vir, mass_odc, r_vir, r_odc = np.fromfile(f, count=4, dtype='float32')
+				halo.pos = read_array(f, 'float32', 3)		# grid length
+				mass_vir, mass_odc, r_vir, r_odc = read_array(f, 'float32', 4)
 				
 				if(mass_def == 'vir'):
 					halo.m = mass_vir # Msun/h
@@ -388,17 +389,17 @@ class HaloCubeP3M:
 					halo.r = r_odc # Mpc/h
 				
 				halo.mp = 0		# TODO: DOUBLE CHEKC THIS QUANITTY
-				halo.pos_cm = np.fromfile(f, count=3, dtype='float32')
-				halo.vel = np.fromfile(f, count=3, dtype='float32')
-				halo.l = np.fromfile(f, count=3, dtype='float32')
-				halo.vel_disp = np.linalg.norm(np.fromfile(f, count=3, dtype='float32'))
-				var_x = np.fromfile(f, count=3, dtype='float32')	# shape-related quantity(?)
+				halo.pos_cm = read_array(f, 'float32', 3)
+				halo.vel = read_array(f, 'float32', 3)
+				halo.l = read_array(f, 'float32', 3)
+				halo.vel_disp = np.linalg.norm(read_array(f, 'float32', 3))
+				var_x = read_array(f, 'float32', 3)	# shape-related quantity(?)
 				
 				if(pid_flag):
-					pid_halo_node = np.fromfile(f, count=50, dtype='int64')
-					xv_halo_node = np.fromfile(f, count=50*6, dtype='float32').reshape((50,6), order='C')
+					pid_halo_node = read_array(f, 'int64', 50)
+					xv_halo_node = read_array(f, 'float32', 50*6).reshape((50,6), order='C')
 				else:
-					_ = np.fromfile(f, count=6, dtype='float32')
+					_ = read_array(f, 'float32', 6)
 
 				if(cosm_unit):
 					halo.pos = self._reposition(pos=conv.gridpos_to_mpc(halo.pos) * const.h)	# Mpc/h
@@ -410,6 +411,7 @@ class HaloCubeP3M:
 					halo.vel_disp = conv.gridvel_to_kms(gridvel=halo.vel_disp, z=self.z)	# km/s
 
 				self.halos.append(halo)
+			f.close()
 		return True
 
 	def get(self, var=None):
diff --git a/src/tools21cm/helper_functions.py b/src/tools21cm/helper_functions.py
index 6a454fb..6c2450b 100755
--- a/src/tools21cm/helper_functions.py
+++ b/src/tools21cm/helper_functions.py
@@ -159,6 +159,24 @@ def get_interpolated_array(in_array, new_len, kind='nearest'):
         return out_array
 
 
+def read_array(f, dtype, count):
+        ''' As numpy.fromfile, but a file that ends (or stops being readable) before
+        count items is an error.
+        
+        Parameters:
+                * f (file object): the file to read from, opened in binary mode
+                * dtype: the type of the items
+                * count (int): the number of items
+                        
+        Returns:
+                The data as a one dimensional numpy array.
+        '''
+        data = np.fromfile(f, dtype=dtype, count=count)
+        if data.size != count:
+                raise EOFError('Expected %d items but could read only %d.' % (count, data.size))
+        return data
+
+
 def read_cbin(filename, bits=32, order='C', dimensions=3, records=False):
         ''' Read a binary file with three inital integers (a cbin file).
         
@@ -208,12 +226,13 @@ def read_raw_binary(filename, bits=64, order='C'):
 
         assert(bits ==32 or bits==64)
 
-        f = open(filename)
-        
         print_msg('Reading raw binary file: %s' % filename)
 
         datatype = np.float32 if bits == 32 else np.float64
-        data = np.fromfile(f, dtype=datatype)
+        with open(filename, 'rb') as f:
+                data = np.fromfile(f, dtype=datatype)
+        if data.nbytes != os.path.getsize(filename):
+                raise EOFError('Could not read all of %s as numbers of %d bits.' % (filename, bits))
         n = round(len(data)**(1./3.))
         print_msg('Mesh size appears to be: %d' % n)
         data = data.reshape((n, n, n), order=order)
@@ -434,15 +453,15 @@ def get_mesh_size(filename):
         datatype = determine_filetype(filename)
         f = open(filename, 'rb')
         if datatype == 'xfrac':
-                temp_mesh = np.fromfile(f, count=6, dtype='int32')
+                temp_mesh = read_array(f, 'int32', 6)
                 mesh_size = temp_mesh[1:4]
         elif datatype == 'temper':
-                temp_mesh = np.fromfile(f,count=3,dtype='int32')
+                temp_mesh = read_array(f, 'int32', 6)
                 mesh_size = temp_mesh[1:4]
         elif datatype == 'density':
-                mesh_size = np.fromfile(f,count=3,dtype='int32')
+                mesh_size = read_array(f, 'int32', 3)
         elif datatype == 'cbin':
-                mesh_size = np.fromfile(f,count=3,dtype='int32')
+                mesh_size = read_array(f, 'int32', 3)
         elif datatype == 'dbt':
                 mesh_size = np.array([250,250,250])
         else:
diff --git a/src/tools21cm/irate_file.py b/src/tools21cm/irate_file.py
index 3b72a9a..e058a69 100755
--- a/src/tools21cm/irate_file.py
+++ b/src/tools21cm/irate_file.py
@@ -53,6 +53,8 @@ class IonRateFile:
 
         if old_format:
                 self.irate = np.fromfile(f, dtype='float32')
+                if self.irate.size < self.mesh_x*self.mesh_y*self.mesh_z:
+                        raise EOFError('%s ends too early.' % filename)
         else:
                 self.irate = np.fromfile(f, count=self.mesh_x*self.mesh_y*self.mesh_z, dtype='float32')
                 self.irate = self.irate.reshape((self.mesh_x, self.mesh_y, self.mesh_z), order='F')
diff --git a/src/tools21cm/nbody_file.py b/src/tools21cm/nbody_file.py
index 4a036fe..ce94058 100755
--- a/src/tools21cm/nbody_file.py
+++ b/src/tools21cm/nbody_file.py
@@ -114,6 +114,7 @@ class NbodyFile:
 			filesname_xv = ['%snode%d/%.3fxv%d.dat' %(self.filespath, self.node, self.z, self.node)]
 			filesname_pid = ['%snode%d/%.3fPID%d.dat' %(self.filespath, self.node, self.z, self.node)]
 
+		self.nbody = []
 		npart_xv = 0
 		npart_pid = 0
 		for fn_xv, fn_pid in zip(filesname_xv, filesname_pid):
diff --git a/src/tools21cm/nbody_pkdgrav.py b/src/tools21cm/nbody_pkdgrav.py
index 37593bd..50e58fe 100755
--- a/src/tools21cm/nbody_pkdgrav.py
+++ b/src/tools21cm/nbody_pkdgrav.py
@@ -4,10 +4,11 @@ N-body simulations.
 """
 import numpy as np 
 from scipy.interpolate import splev, splrep
+import os
 import pandas as pd
 from tqdm import tqdm
 
-from .helper_functions import save_data
+from .helper_functions import save_data, read_array
 
 class ReaderPkdgrav3:
     def __init__(self, box_len, nGrid=None, 
@@ -61,13 +62,13 @@ class ReaderPkdgrav3:
         star_type  = np.dtype([('mass','>f4'), ('x', '>f4'),('y', '>f4'),('z', '>f4'), ('vx', '>f4'),('vy', '>f4'),('vz', '>f4'),
                             ('metals','>f4'), ('tform','>f4'), ('eps','>f4'), ('phi','>f4')])
         
-        header = np.fromfile(tipsy,dtype=header_type,count=1)
+        header = read_array(tipsy,dtype=header_type,count=1)
         header = dict(zip(header_type.names,header[0]))
-        gas  = np.fromfile(tipsy,dtype=gas_type,count=header['Ngas'])
+        gas  = read_array(tipsy,dtype=gas_type,count=header['Ngas'])
         gas  = pd.DataFrame(gas,columns=gas.dtype.names)
-        dark = np.fromfile(tipsy,dtype=dark_type,count=header['Ndark'])
+        dark = read_array(tipsy,dtype=dark_type,count=header['Ndark'])
         dark = pd.DataFrame(dark,columns=dark.dtype.names)
-        star = np.fromfile(tipsy,dtype=star_type,count=header['Nstar'])
+        star = read_array(tipsy,dtype=star_type,count=header['Nstar'])
         star = pd.DataFrame(star,columns=star.dtype.names)
         tipsy.close()
         
@@ -159,6 +160,8 @@ class HaloCataloguePkdgrav3(ReaderPkdgrav3):
                 # ('iGlobalGid', '<u8')
             ])
         data = np.fromfile(filename, dtype=dtype)
+        if data.nbytes != os.path.getsize(filename):
+            raise EOFError(f'{filename} does not hold a whole number of haloes or could not be read.')
         return data
 
     def array_fof_data(self, dtype=float):
@@ -279,6 +282,8 @@ class Pkdgrav3data(HaloCataloguePkdgrav3,PowerSpectrumPkdgrav3):
         LBox  = self.box_len
         nGrid = self.nGrid
         dens  = np.fromfile(file, dtype=np.float32)
+        if dens.nbytes != os.path.getsize(file):
+            raise EOFError(f'{file} does not hold a whole number of cells or could not be read.')
         if nGrid is None: nGrid = round(dens.shape[0]**(1/3))
         pkd = dens.reshape(nGrid, nGrid, nGrid)
         pkd = pkd.T  ### take the transpose to match X_ion map coordinates
diff --git a/src/tools21cm/temper_file.py b/src/tools21cm/temper_file.py
index 3af9e2f..515c0d1 100755
--- a/src/tools21cm/temper_file.py
+++ b/src/tools21cm/temper_file.py
@@ -49,6 +49,8 @@ class TemperFile:
 
         if old_format:
                 self.temper = np.fromfile(f, dtype='float32')
+                if self.temper.size < self.mesh_x*self.mesh_y*self.mesh_z:
+                        raise EOFError('%s ends too early.' % filename)
         else:
                 self.temper = np.fromfile(f, count=self.mesh_x*self.mesh_y*self.mesh_z, dtype='float32')
                 self.temper = self.temper.reshape((self.mesh_x, self.mesh_y, self.mesh_z), order='F')
-- 
2.43.0


From 2ff00e5e000ac9dc73a56f5d668d7f48922b81e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:42 +0000
Subject: [PATCH 09/43] fix: halo catalogue readers do not share the
 process-wide fileinput state; HaloRockstar honours max_select_number

---
 src/tools21cm/halo_list.py | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/src/tools21cm/halo_list.py b/src/tools21cm/halo_list.py
index c8aacaa..492ec4d 100755
--- a/src/tools21cm/halo_list.py
+++ b/src/tools21cm/halo_list.py
@@ -47,14 +47,15 @@ class HaloRockstar:
 			True if all the halos were read. False otherwise.
 		'''
 
+		self.halos = []
 		print_msg('Reading Rockstar Halo Catalog %s...' % filename)
 		self.filename = filename
 		
-		import fileinput
 		from astropy import units as U
 
 		#Read the file line by line, since it's large
-		for linenumber, line in tqdm(enumerate(fileinput.input(filename))):
+		catalogue = open(filename)
+		for linenumber, line in tqdm(enumerate(catalogue)):
 			if(linenumber == 0):
 				# Store the variable from the file header
 				header = line.split()
@@ -95,7 +96,7 @@ class HaloRockstar:
 				vals = line.split()
 				
 				#Create a halo and add it to the list
-				if(len(self.halos) > max_select_number):
+				if(max_select_number < 0 or len(self.halos) < max_select_number):
 					halo = Halo()
 					halo.pos = np.array(vals[idx_pos:idx_pos+3]).astype(float) #* U.Mpc/self.h
 					halo.vel = np.array(vals[idx_vel:idx_vel+3]).astype(float) #* U.km/U.s
@@ -107,9 +108,10 @@ class HaloRockstar:
 					halo.mp = int(round(halo.m / self.part_mass, 0))
 					self.halos.append(halo)
 				else:
-					break
+					catalogue.close()
+					return False
 		
-		fileinput.close()
+		catalogue.close()
 		return True
 	
 	def get(self, var=None):
@@ -195,7 +197,6 @@ class HaloCubeP3MFull:
 
 		print_msg('Reading halo file %s...' % filename)
 		self.filename = filename
-		import fileinput
 		#Store the redshift from the filename
 		import os.path
 		name = os.path.split(filename)[1]
@@ -211,12 +212,13 @@ class HaloCubeP3MFull:
 				print_msg('Max_select_mass: %g' % max_select_mass)
 				max_select_grid_mass = max_select_mass/(conv.M_grid*const.solar_masses_per_gram)
 
-		for line in tqdm(fileinput.input(filename)):
+		catalogue = open(filename)
+		for line in tqdm(catalogue):
 				if linenumber < startline: #If you want to read from a particular line
 						linenumber += 1
 						continue
 				if max_select_number >= 0 and len(self.halos) >= max_select_number:
-						fileinput.close()
+						catalogue.close()
 						return False
 				if linenumber % 100000 == 0:
 						print_msg(f'{linenumber} lines read in {(time()-tstart):.2f} s' )
@@ -253,7 +255,7 @@ class HaloCubeP3MFull:
 
 				# if linenumber==50:
 				#         break
-		fileinput.close()
+		catalogue.close()
 			
 		print(f'Total number of lines read: {linenumber-1}')
 		print(f'Number of lines skipped   : {skipped_lines}')
@@ -489,7 +491,6 @@ class HaloList:
 
 		print_msg('Reading halo file %s...' % filename)
 		self.filename = filename
-		import fileinput
 
 		#Store the redshift from the filename
 		import os.path
@@ -503,12 +504,13 @@ class HaloList:
 			print_msg('Max_select_mass: %g' % max_select_mass)
 			max_select_grid_mass = max_select_mass/(conv.M_grid*const.solar_masses_per_gram)
 
-		for line in tqdm(fileinput.input(filename)):
+		catalogue = open(filename)
+		for line in tqdm(catalogue):
 			if linenumber < startline: #If you want to read from a particular line
 				linenumber += 1
 				continue
 			if max_select_number >= 0 and len(self.halos) >= max_select_number:
-				fileinput.close()
+				catalogue.close()
 				return False
 			if linenumber % 100000 == 0:
 				print_msg('Read %d lines' % linenumber)
@@ -537,6 +539,6 @@ class HaloList:
 				halo.solar_masses = grid_mass*conv.M_grid*const.solar_masses_per_gram
 				self.halos.append(halo)
 
-		fileinput.close()
+		catalogue.close()
 
 		return True
-- 
2.43.0


From bb806b63f7d3458f4f0aae5fa94048d10e0a32c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:54 +0000
Subject: [PATCH 10/43] fix: single-precision grid masses overflowed to
 infinity when converted to solar masses

---
 src/tools21cm/conv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/conv.py b/src/tools21cm/conv.py
index 032b1a9..8c43c78 100755
--- a/src/tools21cm/conv.py
+++ b/src/tools21cm/conv.py
@@ -105,7 +105,7 @@ def gridmass_to_msol(grid_mass):
 	Returns:
 		The mass in log10(Msol) 
 	'''
-	return np.log10(grid_mass*M_grid*const.solar_masses_per_gram)
+	return np.log10(grid_mass*(M_grid*const.solar_masses_per_gram))
 
 
 def get_session_settings():
-- 
2.43.0


From 53e1733fd7ffd2c94c0a2c05d47eb1c8a9d7ea04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:10 +0000
Subject: [PATCH 11/43] fix: a failing read of a simulation file raises instead
 of returning uninitialised or shifted values

---
 src/tools21cm/density_file.py     |  6 +++---
 src/tools21cm/helper_functions.py | 12 ++++++++----
 src/tools21cm/irate_file.py       |  6 +++---
 src/tools21cm/nbody_pkdgrav.py    |  6 ++++--
 src/tools21cm/temper_file.py      |  6 +++---
 src/tools21cm/vel_file.py         |  4 ++--
 src/tools21cm/xfrac_file.py       |  8 ++++----
 7 files changed, 27 insertions(+), 21 deletions(-)

diff --git a/src/tools21cm/density_file.py b/src/tools21cm/density_file.py
index 0136d35..c34cd8b 100755
--- a/src/tools21cm/density_file.py
+++ b/src/tools21cm/density_file.py
@@ -1,7 +1,7 @@
 import numpy as np
 from . import const
 from . import conv
-from .helper_functions import print_msg
+from .helper_functions import print_msg, read_array
 
 class DensityFile:
 	'''
@@ -47,7 +47,7 @@ class DensityFile:
 			temp_mesh = np.fromfile(f,count=3,dtype='int32')
 			self.mesh_x, self.mesh_y, self.mesh_z = temp_mesh
 
-		self.raw_density = np.fromfile(f, dtype='float32')
+		self.raw_density = read_array(f, 'float32')
 		self.raw_density = self.raw_density.reshape((self.mesh_x, self.mesh_y, self.mesh_z), order='F')
 		
 		f.close()
@@ -163,7 +163,7 @@ class ClumpingFile:
 		f = open(filename, 'rb')
 		temp_mesh = np.fromfile(f, count=3, dtype='int32')
 		self.mesh_x, self.mesh_y, self.mesh_z = temp_mesh
-		self.raw_clumping = np.fromfile(f, dtype='float32')
+		self.raw_clumping = read_array(f, 'float32')
 		self.raw_clumping = self.raw_clumping.reshape((self.mesh_x, self.mesh_y, self.mesh_z), order='F')
 
 		f.close()
diff --git a/src/tools21cm/helper_functions.py b/src/tools21cm/helper_functions.py
index 6c2450b..ed9bead 100755
--- a/src/tools21cm/helper_functions.py
+++ b/src/tools21cm/helper_functions.py
@@ -159,18 +159,22 @@ def get_interpolated_array(in_array, new_len, kind='nearest'):
         return out_array
 
 
-def read_array(f, dtype, count):
+def read_array(f, dtype, count=-1):
         ''' As numpy.fromfile, but a file that ends (or stops being readable) before
         count items is an error.
         
         Parameters:
                 * f (file object): the file to read from, opened in binary mode
                 * dtype: the type of the items
-                * count (int): the number of items
+                * count = -1 (int): the number of items. If -1, all whole items up to
+                        the end of the file.
                         
         Returns:
                 The data as a one dimensional numpy array.
         '''
+        # numpy.fromfile without count returns uninitialised values when reading fails
+        if count < 0:
+                count = (os.fstat(f.fileno()).st_size - f.tell())//np.dtype(dtype).itemsize
         data = np.fromfile(f, dtype=dtype, count=count)
         if data.size != count:
                 raise EOFError('Expected %d items but could read only %d.' % (count, data.size))
@@ -199,7 +203,7 @@ def read_cbin(filename, bits=32, order='C', dimensions=3, records=False):
         print_msg('Reading cbin file: %s' % filename)
 
         counter=dimensions+3 if records else dimensions 
-        header = np.fromfile(f, count=counter, dtype='int32')
+        header = read_array(f, 'int32', counter)
         if records: temp_mesh=header[1:4]
         else: temp_mesh=header[0:3]
         
@@ -230,7 +234,7 @@ def read_raw_binary(filename, bits=64, order='C'):
 
         datatype = np.float32 if bits == 32 else np.float64
         with open(filename, 'rb') as f:
-                data = np.fromfile(f, dtype=datatype)
+                data = read_array(f, datatype)
         if data.nbytes != os.path.getsize(filename):
                 raise EOFError('Could not read all of %s as numbers of %d bits.' % (filename, bits))
         n = round(len(data)**(1./3.))
diff --git a/src/tools21cm/irate_file.py b/src/tools21cm/irate_file.py
index e058a69..de0d256 100755
--- a/src/tools21cm/irate_file.py
+++ b/src/tools21cm/irate_file.py
@@ -1,6 +1,6 @@
 from . import const
 import numpy as np
-from .helper_functions import print_msg
+from .helper_functions import print_msg, read_array
 
 class IonRateFile:
     '''
@@ -48,11 +48,11 @@ class IonRateFile:
             temp_mesh = np.fromfile(f, count=3, dtype='int32')
             self.mesh_x, self.mesh_y, self.mesh_z = temp_mesh 
         else:
-            temp_mesh = np.fromfile(f, count=6, dtype='int32')
+            temp_mesh = read_array(f, 'int32', 6)
             self.mesh_x, self.mesh_y, self.mesh_z = temp_mesh[1:4]
 
         if old_format:
-                self.irate = np.fromfile(f, dtype='float32')
+                self.irate = read_array(f, 'float32')
                 if self.irate.size < self.mesh_x*self.mesh_y*self.mesh_z:
                         raise EOFError('%s ends too early.' % filename)
         else:
diff --git a/src/tools21cm/nbody_pkdgrav.py b/src/tools21cm/nbody_pkdgrav.py
index 50e58fe..67915de 100755
--- a/src/tools21cm/nbody_pkdgrav.py
+++ b/src/tools21cm/nbody_pkdgrav.py
@@ -159,7 +159,8 @@ class HaloCataloguePkdgrav3(ReaderPkdgrav3):
                 # ('nDM', '<i4'),
                 # ('iGlobalGid', '<u8')
             ])
-        data = np.fromfile(filename, dtype=dtype)
+        with open(filename, 'rb') as f:
+            data = read_array(f, dtype)
         if data.nbytes != os.path.getsize(filename):
             raise EOFError(f'{filename} does not hold a whole number of haloes or could not be read.')
         return data
@@ -281,7 +282,8 @@ class Pkdgrav3data(HaloCataloguePkdgrav3,PowerSpectrumPkdgrav3):
         rhoc0 = self.rho_c
         LBox  = self.box_len
         nGrid = self.nGrid
-        dens  = np.fromfile(file, dtype=np.float32)
+        with open(file, 'rb') as f:
+            dens  = read_array(f, np.float32)
         if dens.nbytes != os.path.getsize(file):
             raise EOFError(f'{file} does not hold a whole number of cells or could not be read.')
         if nGrid is None: nGrid = round(dens.shape[0]**(1/3))
diff --git a/src/tools21cm/temper_file.py b/src/tools21cm/temper_file.py
index 515c0d1..5d1c5ef 100755
--- a/src/tools21cm/temper_file.py
+++ b/src/tools21cm/temper_file.py
@@ -1,6 +1,6 @@
 from . import const
 import numpy as np
-from .helper_functions import print_msg
+from .helper_functions import print_msg, read_array
 
 class TemperFile:
     '''
@@ -44,11 +44,11 @@ class TemperFile:
         self.filename = filename
 
         f = open(filename, 'rb')
-        temp_mesh = np.fromfile(f, count=6, dtype='int32')
+        temp_mesh = read_array(f, 'int32', 6)
         self.mesh_x, self.mesh_y, self.mesh_z = temp_mesh[1:4]
 
         if old_format:
-                self.temper = np.fromfile(f, dtype='float32')
+                self.temper = read_array(f, 'float32')
                 if self.temper.size < self.mesh_x*self.mesh_y*self.mesh_z:
                         raise EOFError('%s ends too early.' % filename)
         else:
diff --git a/src/tools21cm/vel_file.py b/src/tools21cm/vel_file.py
index 9b32bb2..5bd3800 100755
--- a/src/tools21cm/vel_file.py
+++ b/src/tools21cm/vel_file.py
@@ -1,5 +1,5 @@
 from . import const, conv
-from .helper_functions import print_msg
+from .helper_functions import print_msg, read_array
 from . import density_file as df
 import numpy as np
 
@@ -49,7 +49,7 @@ class VelocityFile:
 		f = open(filename, 'rb')
 		temp_mesh = np.fromfile(f, count=3, dtype='int32')
 		self.mesh_x, self.mesh_y, self.mesh_z = temp_mesh
-		self.raw_velocity = np.fromfile(f, dtype='float32').astype('float64')
+		self.raw_velocity = read_array(f, 'float32').astype('float64')
 		f.close()
 		self.raw_velocity = self.raw_velocity.reshape((3, self.mesh_x, self.mesh_y, self.mesh_z), order='F')
 
diff --git a/src/tools21cm/xfrac_file.py b/src/tools21cm/xfrac_file.py
index 20b96bb..378be24 100755
--- a/src/tools21cm/xfrac_file.py
+++ b/src/tools21cm/xfrac_file.py
@@ -2,7 +2,7 @@ from . import const
 import numpy as np
 import os
 from . import density_file as df
-from .helper_functions import print_msg 
+from .helper_functions import print_msg, read_array
 
 class XfracFile:
 	'''
@@ -52,13 +52,13 @@ class XfracFile:
 			temp_mesh = np.fromfile(f, count=3, dtype='int32')
 			self.mesh_x, self.mesh_y, self.mesh_z = temp_mesh #[0:2]
 		else:
-			temp_mesh = np.fromfile(f, count=6, dtype='int32')
+			temp_mesh = read_array(f, 'int32', 6)
 			self.mesh_x, self.mesh_y, self.mesh_z = temp_mesh[1:4]
 
 		if old_format:
-			self.xi = np.fromfile(f, dtype='float32')
+			self.xi = read_array(f, 'float32')
 		else:
-			self.xi = np.fromfile(f, dtype='float64')
+			self.xi = read_array(f, 'float64')
 		self.xi = self.xi.reshape((self.mesh_x, self.mesh_y, self.mesh_z), order='F')
 
 		if neutral:
-- 
2.43.0


From d0735cba5140f6500e8a083535a83402c47ea0eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:53 +0000
Subject: [PATCH 12/43] fix: Bispectrum used an undefined variable;
 granulometry and watershed used type aliases NumPy removed

---
 src/tools21cm/bispectrum.py   | 6 ++----
 src/tools21cm/bubble_stats.py | 6 +++---
 2 files changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/tools21cm/bispectrum.py b/src/tools21cm/bispectrum.py
index 71d0c26..601cbfe 100755
--- a/src/tools21cm/bispectrum.py
+++ b/src/tools21cm/bispectrum.py
@@ -108,8 +108,7 @@ class Bispectrum:
                         n_jobs=1,
                     ):
         tstart = time()
-        input_array_nd = self.input_array.astype(np.float64)
-        input_array = apply_window(input_array, window)
+        input_array_nd = apply_window(self.input_array, window).astype(np.float64)
 
         box_dims, box_dims_input  = _get_dims(box_dims, input_array_nd.shape), box_dims
         if verbose and box_dims_input is None: print(f'box_dims set to {box_dims} Mpc')
@@ -164,8 +163,7 @@ class Bispectrum:
                     n_jobs=1,
                     ):
         tstart = time()
-        input_array_nd = self.input_array.astype(np.float64)
-        input_array = apply_window(input_array, window)
+        input_array_nd = apply_window(self.input_array, window).astype(np.float64)
 
         box_dims, box_dims_input  = _get_dims(box_dims, input_array_nd.shape), box_dims
         if verbose and box_dims_input is None: print(f'box_dims set to {box_dims} Mpc')
diff --git a/src/tools21cm/bubble_stats.py b/src/tools21cm/bubble_stats.py
index 59e10b1..7ef3361 100755
--- a/src/tools21cm/bubble_stats.py
+++ b/src/tools21cm/bubble_stats.py
@@ -508,8 +508,8 @@ def _granulometry(data, n_jobs=1, verbose=True):
 
     s = max(data.shape)
     dim   = data.ndim
-    pixel = range(np.int(s/2))
-    area0 = np.float(data.sum())
+    pixel = range(int(s/2))
+    area0 = float(data.sum())
     area  = np.zeros_like(pixel)
 
     def func(n):
@@ -612,7 +612,7 @@ def watershed_bsd(data, xth=0.5, boxsize=None, verbose=True, upper_lim=False, h=
 	labels = _watershed(mask, h=h)
 	uniq   = np.unique(labels[labels>0], return_counts=1)
 	r_list = np.cbrt(3*uniq[0]/4/np.pi)
-	r_pixl = np.arange(0, np.int(r_list.max()+2), 1)-0.5 
+	r_pixl = np.arange(0, int(r_list.max()+2), 1)-0.5 
 	
 	ht = np.histogram(r_list, bins=r_pixl)
 	dFdR, R = ht[0]/ht[0].sum(), ht[1][1:]/2+ht[1][:-1]/2
-- 
2.43.0


From eb9499e6eafdf7a4ca35433621a385035b242d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:14 +0000
Subject: [PATCH 13/43] fix: windowed power spectra and bispectra changed the
 caller's array; array windows raised

---
 src/tools21cm/power_spect_fast.py | 12 ++++++------
 src/tools21cm/power_spectrum.py   | 13 ++++++-------
 2 files changed, 12 insertions(+), 13 deletions(-)

diff --git a/src/tools21cm/power_spect_fast.py b/src/tools21cm/power_spect_fast.py
index 88acb6c..3fcce7d 100755
--- a/src/tools21cm/power_spect_fast.py
+++ b/src/tools21cm/power_spect_fast.py
@@ -173,12 +173,12 @@ def power_spect_2d(input_array, kbins=10, binning='log', box_dims=244/.7, return
 	'''
 	if window is not None:
 		from scipy.signal import windows
-		if window.lower()=='blackmanharris':
-				input_array *= windows.blackmanharris(input_array.shape[-1])[None,None,:]
-		elif window.lower()=='tukey':
-				input_array *= windows.tukey(input_array.shape[-1])[None,None,:]
-		else:
-				input_array *= window
+		if isinstance(window, str):
+			if window.lower()=='blackmanharris':
+				window = windows.blackmanharris(input_array.shape[-1])[None,None,:]
+			elif window.lower()=='tukey':
+				window = windows.tukey(input_array.shape[-1])[None,None,:]
+		input_array = input_array * window
 
 	if np.array(kbins).size==1: 
 		kbins = [kbins, kbins]
diff --git a/src/tools21cm/power_spectrum.py b/src/tools21cm/power_spectrum.py
index 2faaa86..73218da 100755
--- a/src/tools21cm/power_spectrum.py
+++ b/src/tools21cm/power_spectrum.py
@@ -12,13 +12,12 @@ from scipy import fftpack, stats
 def apply_window(input_array, window):
     if window is None: return input_array
     from scipy.signal import windows
-    if window.lower()=='blackmanharris':
-            input_array *= windows.blackmanharris(input_array.shape[-1])[None,None,:]
-    elif window.lower()=='tukey':
-            input_array *= windows.tukey(input_array.shape[-1])[None,None,:]
-    else:
-            input_array *= window
-    return input_array
+    if isinstance(window, str):
+            if window.lower()=='blackmanharris':
+                    window = windows.blackmanharris(input_array.shape[-1])[None,None,:]
+            elif window.lower()=='tukey':
+                    window = windows.tukey(input_array.shape[-1])[None,None,:]
+    return input_array * window
 
 
 def power_spectrum_nd(input_array, box_dims=None, verbose=False, **kwargs):
-- 
2.43.0


From f922ddbea72b382afe0657530ada82d65f289bb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:10 +0000
Subject: [PATCH 14/43] fix: cosmology setters take full effect or none and
 keep OmegaL and q0 in step

---
 src/tools21cm/const.py | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/src/tools21cm/const.py b/src/tools21cm/const.py
index 810a56c..3312557 100755
--- a/src/tools21cm/const.py
+++ b/src/tools21cm/const.py
@@ -25,8 +25,7 @@ abu_he_mass = 0.2486
 abu_h_mass = 1.0-abu_he_mass
 def set_abundance_helium(value):
 	global abu_he_mass, abu_h_mass
-	abu_he_mass = value
-	abu_h_mass = 1.0-abu_he_mass
+	abu_he_mass, abu_h_mass = value, 1.0-value
 
 mean_molecular = 1.0/(1.0-abu_he_mass)
 solar_masses_per_gram = 5.02785431e-34
@@ -49,17 +48,15 @@ def set_hubble_h(value):
 	Define new hubble constant value (little h).
 	'''
 	global h, H0
-	h  = value 
-	H0 = 100.0*h
+	h, H0 = value, 100.0*value
 
 def set_omega_matter(value): 
 	'''
 	Define new omega matter value.
 	'''
-	global Omega0, lam, q0
-	Omega0 = value
-	lam = 1.0-Omega0
-	q0 = 0.5*Omega0 - lam
+	global Omega0, lam, OmegaL, q0
+	value_lam = 1.0-value
+	Omega0, lam, OmegaL, q0 = value, value_lam, value_lam, 0.5*value - value_lam
 	# print(Omega0, q0)
 
 def set_omega_baryon(value):
@@ -73,9 +70,8 @@ def set_omega_lambda(value):
 	'''
 	Define new omega lambda value.
 	'''
-	global lam
-	lam = value 
-	OmegaL = value
+	global lam, OmegaL, q0
+	lam, OmegaL, q0 = value, value, 0.5*Omega0 - value
 
 def set_ns(value):
 	'''
-- 
2.43.0


From ed0a01373a7b4e75ed0bbb3c75c6a72edf7bbd91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:10 +0000
Subject: [PATCH 15/43] fix: a rejected box leaves the simulation constants as
 they were

---
 src/tools21cm/conv.py | 49 ++++++++++++++++++++++---------------------
 1 file changed, 25 insertions(+), 24 deletions(-)

diff --git a/src/tools21cm/conv.py b/src/tools21cm/conv.py
index 8c43c78..4e576e4 100755
--- a/src/tools21cm/conv.py
+++ b/src/tools21cm/conv.py
@@ -30,42 +30,43 @@ def set_sim_constants(boxsize_cMpc):
 	Returns:
 		Nothing.
 	'''
-	global boxsize, LB, nbox_fine, M_box, M_grid, lscale, tscale, velconvert
+	global boxsize, LB, nbox_fine, M_box, M_grid, lscale, tscale
 
-	boxsize = boxsize_cMpc
-	LB = boxsize/const.h	
-	if hf.flt_comp(boxsize, 425.):
+	new_LB = boxsize_cMpc/const.h	
+	if hf.flt_comp(boxsize_cMpc, 425.):
 		hf.print_msg('Setting conversion factors for 425/h Mpc box')
-		nbox_fine = 10976
-	elif hf.flt_comp(boxsize, 114.):
+		new_nbox = 10976
+	elif hf.flt_comp(boxsize_cMpc, 114.):
 		hf.print_msg('Setting conversion factors for 114/h Mpc box')
-		nbox_fine = 6144
-	elif hf.flt_comp(boxsize, 64.):
+		new_nbox = 6144
+	elif hf.flt_comp(boxsize_cMpc, 64.):
 		hf.print_msg('Setting conversion factors for 64/h Mpc box')
-		nbox_fine = 3456
-	elif hf.flt_comp(boxsize, 37.):
+		new_nbox = 3456
+	elif hf.flt_comp(boxsize_cMpc, 37.):
 		hf.print_msg('Setting conversion factors for 37/h Mpc box')
-		nbox_fine = 2048
-	elif hf.flt_comp(boxsize, 500.):
+		new_nbox = 2048
+	elif hf.flt_comp(boxsize_cMpc, 500.):
 		hf.print_msg('Setting_conversion_factors for 500/h Mpc box')
-		nbox_fine = 13824
-	elif hf.flt_comp(boxsize, 244.):
+		new_nbox = 13824
+	elif hf.flt_comp(boxsize_cMpc, 244.):
 		hf.print_msg('Setting_conversion_factors for 244/h Mpc box')
-		nbox_fine = 8000
-	elif hf.flt_comp(boxsize, 47.):
+		new_nbox = 8000
+	elif hf.flt_comp(boxsize_cMpc, 47.):
 		hf.print_msg('Setting_conversion_factors for 47/h Mpc box')
-		nbox_fine = 3456
-	elif hf.flt_comp(boxsize, 200.):
+		new_nbox = 3456
+	elif hf.flt_comp(boxsize_cMpc, 200.):
 		hf.print_msg('Setting_conversion_factors for 200/h Mpc box')
-		nbox_fine = 3456
+		new_nbox = 3456
 	else:
 		raise Exception('Invalid boxsize (%.3f cMpc)' % boxsize_cMpc)
 
-	M_box      = const.rho_matter*(LB*const.Mpc)**3 # mass in box (g, not M0)
-	M_grid     = M_box/(float(nbox_fine)**3)
-	lscale = (LB)/float(nbox_fine)*const.Mpc # size of a cell in cm, comoving
-	tscale = 2.0/(3.0*np.sqrt(const.Omega0)*const.H0/const.Mpc*1.e5) # time scale, when divided by (1+z)2
-	velconvert = lambda z: lscale/tscale*(1.0+z)/1.e5
+	# nothing is set before everything is known
+	new_M_box  = const.rho_matter*(new_LB*const.Mpc)**3 # mass in box (g, not M0)
+	new_M_grid = new_M_box/(float(new_nbox)**3)
+	new_lscale = (new_LB)/float(new_nbox)*const.Mpc # size of a cell in cm, comoving
+	new_tscale = 2.0/(3.0*np.sqrt(const.Omega0)*const.H0/const.Mpc*1.e5) # time scale, when divided by (1+z)2
+	boxsize, LB, nbox_fine, M_box, M_grid, lscale, tscale = \
+		boxsize_cMpc, new_LB, new_nbox, new_M_box, new_M_grid, new_lscale, new_tscale
 
 
 def gridpos_to_mpc(gridpos):
-- 
2.43.0


From 7bf23282998e0c88f2d54971acdf08c5558db2a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:10 +0000
Subject: [PATCH 16/43] fix: seeded fields and foregrounds do not reseed or
 depend on the session's random stream

---
 src/tools21cm/foreground_model.py      | 20 ++++++++++----------
 src/tools21cm/gaussian_random_field.py |  7 +++----
 2 files changed, 13 insertions(+), 14 deletions(-)

diff --git a/src/tools21cm/foreground_model.py b/src/tools21cm/foreground_model.py
index 3a8df22..4e23b86 100755
--- a/src/tools21cm/foreground_model.py
+++ b/src/tools21cm/foreground_model.py
@@ -30,12 +30,12 @@ def galactic_synch_fg(z, ncells, boxsize, rseed=False):
 	if(isinstance(z, float)):
 		z = np.array([z])
 	else:
-		z = np.array(z, copy=False)
+		z = np.asarray(z)
 	gf_data = np.zeros((ncells, ncells, z.size))
 
-	if(rseed): np.random.seed(rseed)
-	X  = np.random.normal(size=(ncells, ncells))
-	Y  = np.random.normal(size=(ncells, ncells))
+	rng = np.random.RandomState(rseed) if(rseed) else np.random
+	X  = rng.normal(size=(ncells, ncells))
+	Y  = rng.normal(size=(ncells, ncells))
 	nu_s,A150,beta_,a_syn,Da_syn = 150,513,2.34,2.8,0.1
 
 	for i in range(0, z.size):
@@ -72,18 +72,18 @@ def extragalactic_pointsource_fg(z, ncells, boxsize, rseed=False, S_max=100):
 	if(isinstance(z, float)):
 		z = np.array([z])
 	else:
-		z = np.array(z, copy=False)
+		z = np.asarray(z)
 	exgf_data = np.zeros((ncells, ncells, z.size))
 
 	dS, nu_s = 0.01, 150
 	solid_angle = boxsize**2/cm.z_to_cdist(z.min())**2
 	
 	Ss = np.arange(0.1, S_max, dS)
-	N  = int(10**3.75*np.trapz(Ss**(-1.6), x=Ss, dx=dS)*solid_angle)
-	if(rseed): np.random.seed(rseed)
-	x, y = np.random.random_integers(0, high=ncells-1, size=(2,N))
-	alpha_ps = 0.7+0.1*np.random.random(size=N)
-	S_s  = np.random.choice(Ss, N)
+	N  = int(10**3.75*trapz(Ss**(-1.6), x=Ss, dx=dS)*solid_angle)
+	rng = np.random.RandomState(rseed) if(rseed) else np.random
+	x, y = rng.randint(0, high=ncells, size=(2,N))
+	alpha_ps = 0.7+0.1*rng.random_sample(size=N)
+	S_s  = rng.choice(Ss, N)
 
 	for i in range(0, z.size):
 		nu = cm.z_to_nu(z[i])
diff --git a/src/tools21cm/gaussian_random_field.py b/src/tools21cm/gaussian_random_field.py
index 2188938..8fb4de8 100755
--- a/src/tools21cm/gaussian_random_field.py
+++ b/src/tools21cm/gaussian_random_field.py
@@ -31,10 +31,9 @@ def make_gaussian_random_field(dims, box_dims, power_spectrum, random_seed=None)
     assert len(dims) == 2 or len(dims) == 3
     
     #Generate FT map
-    if random_seed != None:
-        np.random.seed(random_seed)
-    map_ft_real = np.random.normal(loc=0., scale=1., size=dims)
-    map_ft_imag = np.random.normal(loc=0., scale=1., size=dims)
+    rng = np.random if random_seed is None else np.random.RandomState(random_seed)
+    map_ft_real = rng.normal(loc=0., scale=1., size=dims)
+    map_ft_imag = rng.normal(loc=0., scale=1., size=dims)
     map_ft = map_ft_real + 1j*map_ft_imag
     
     #Get k modes
-- 
2.43.0


From d2179a12af655d470b437be9e038eafeec7f33c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:10 +0000
Subject: [PATCH 17/43] fix: find_idx does not overwrite the caller's values

---
 src/tools21cm/helper_functions.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/tools21cm/helper_functions.py b/src/tools21cm/helper_functions.py
index ed9bead..017ec64 100755
--- a/src/tools21cm/helper_functions.py
+++ b/src/tools21cm/helper_functions.py
@@ -550,9 +550,7 @@ def find_idx(ar, values):
         '''
         
         #Make input into an array and clamp outliers
-        values = np.atleast_1d(values)
-        values[values > ar.max()] = ar.max()
-        values[values < ar.min()] = ar.min()
+        values = np.clip(np.atleast_1d(values), ar.min(), ar.max())
         
         #Make sure that the values are monotonically increasing/decreasing
         dv = ar[1:]-ar[:-1]
-- 
2.43.0


From 28de51739c4e6e1970e429703f21a8e83467d48f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:10 +0000
Subject: [PATCH 18/43] fix: cartesian_to_geographic_coordinate_system works
 and leaves its argument alone

---
 src/tools21cm/radio_telescope_layout.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tools21cm/radio_telescope_layout.py b/src/tools21cm/radio_telescope_layout.py
index ed23305..49c55b7 100755
--- a/src/tools21cm/radio_telescope_layout.py
+++ b/src/tools21cm/radio_telescope_layout.py
@@ -337,8 +337,8 @@ def cartesian_to_geographic_coordinate_system(antxyz):
     Re = 6371. * u.km  # Earth's radius
 
     # Extract Cartesian coordinates and attach units
-    if isinstance(antxyz, u.quantity.Quantity):
-        antxyz *= u.m
+    if not isinstance(antxyz, u.quantity.Quantity):
+        antxyz = antxyz*u.m
     x = antxyz[:, 0]
     y = antxyz[:, 1]
     z = antxyz[:, 2]
-- 
2.43.0


From 834feaa254179ade267f476944b17f6b5f9b3677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:10 +0000
Subject: [PATCH 19/43] fix: correlation functions run with numpy 2

---
 src/tools21cm/corr_function.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tools21cm/corr_function.py b/src/tools21cm/corr_function.py
index 99e59a7..7cd6505 100755
--- a/src/tools21cm/corr_function.py
+++ b/src/tools21cm/corr_function.py
@@ -2,6 +2,7 @@ import numpy as np
 from scipy.interpolate import splrep,splev
 from scipy.spatial import cKDTree
 from tqdm import tqdm
+from .scipy_func import trapz
 from .power_spectrum import power_spectrum_1d, cross_power_spectrum_1d
 from . import conv
 
@@ -27,7 +28,7 @@ def ps_to_corr(ps, ks, rbins=10, box_dims=None, n_grid=None, binning='log'):
 	knew, pnew = ks[np.isfinite(ps)], ps[np.isfinite(ps)]
 
 	integ = knew**2*pnew*np.sinc(knew[None,:]*rbins[:,None])
-	corr  = np.trapz(integ, knew, axis=1) 
+	corr  = trapz(integ, knew, axis=1) 
 
 	return corr*4*np.pi, rbins
 
-- 
2.43.0


From abb895a53f6f0c89a6ce6243a88195adfe8c8734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:38 +0000
Subject: [PATCH 20/43] fix: lightcone slices that skip a snapshot used a stale
 lower snapshot

---
 src/tools21cm/lightcone.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/lightcone.py b/src/tools21cm/lightcone.py
index 4ad32fa..d8032ee 100755
--- a/src/tools21cm/lightcone.py
+++ b/src/tools21cm/lightcone.py
@@ -129,7 +129,7 @@ def make_lightcone(filenames, z_low = None, z_high = None, depth_mhz = None, fil
         if z_bracket_low_new != z_bracket_low:
             z_bracket_low = z_bracket_low_new
             file_idx = np.argmin(np.abs(file_redshifts - z_bracket_low))
-            if data_high is None:
+            if data_high is None or z_bracket_low != z_bracket_high:
                 if reading_function is None: data_low, datatype = get_data_and_type(filenames[file_idx], cbin_bits, cbin_order, raw_density)
                 else: data_low = reading_function(filenames[file_idx])#; print('yes')
             else: #No need to read the file again
-- 
2.43.0


From c447ba3d1895fe21383df48f4ade35128184ae06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:38 +0000
Subject: [PATCH 21/43] fix: step interpolation changes over halfway between
 the two snapshots

---
 src/tools21cm/lightcone.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/lightcone.py b/src/tools21cm/lightcone.py
index d8032ee..7bf8d51 100755
--- a/src/tools21cm/lightcone.py
+++ b/src/tools21cm/lightcone.py
@@ -440,7 +440,7 @@ def _get_interp_slice(data_high, data_low, z_bracket_high, z_bracket_low, z, \
         slice_interp = ((z-z_bracket_low)*slice_high + \
                     (z_bracket_high - z)*slice_low)/(z_bracket_high-z_bracket_low)
     elif interpolation == 'step':
-        transition_z = (z_bracket_high-z_bracket_low)/2.
+        transition_z = (z_bracket_high+z_bracket_low)/2.
         if z < transition_z:
             slice_interp = slice_low.copy()
         else:
-- 
2.43.0


From 0427c804f5c939e4421c5f1dc6dff0a88e102001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:38 +0000
Subject: [PATCH 22/43] fix: lightcones accept a directory, a list file and
 redshift lists as documented

---
 src/tools21cm/lightcone.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/tools21cm/lightcone.py b/src/tools21cm/lightcone.py
index 7bf8d51..3effe86 100755
--- a/src/tools21cm/lightcone.py
+++ b/src/tools21cm/lightcone.py
@@ -103,6 +103,7 @@ def make_lightcone(filenames, z_low = None, z_high = None, depth_mhz = None, fil
         mesh_size = get_mesh_size(filenames[0])
     else:
         assert file_redshifts is not None
+        file_redshifts = _get_file_redshifts(file_redshifts, filenames)
         mesh_size = reading_function(filenames[0]).shape
 
     assert len(file_redshifts) == len(filenames)
@@ -522,10 +523,10 @@ def _get_filenames(filenames_in):
     If it is a text file, read the list of files from the file
     '''
     
-    if hasattr(filenames_in, '__iter__'):
+    if hasattr(filenames_in, '__iter__') and not isinstance(filenames_in, str):
         filenames_out = filenames_in
     elif os.path.isdir(filenames_in):
-        files_in_dir = glob.glob(filenames_in + '/*')
+        files_in_dir = sorted(glob.glob(filenames_in + '/*'))
         extensions = [os.path.splitext(f)[-1] for f in files_in_dir]
         if not _all_same(extensions):
             raise Exception('The directory may only contain one file type.')
@@ -548,13 +549,13 @@ def _get_file_redshifts(redshifts_in, filenames):
     Else, return as is
     '''
     
-    if hasattr(redshifts_in, '__iter__'):
-        redshifts_out = redshifts_in
+    if hasattr(redshifts_in, '__iter__') and not isinstance(redshifts_in, str):
+        redshifts_out = np.array(redshifts_in)
     elif redshifts_in is None:
         redshifts_out = [determine_redshift_from_filename(f) for f in filenames]
         redshifts_out = np.array(redshifts_out)
     elif os.path.exists(redshifts_in):
-        redshifts_out = np.loadtxt(redshifts_in)
+        redshifts_out = np.atleast_1d(np.loadtxt(redshifts_in))
     else:
         raise Exception('Invalid data for file redshifts.')
     
-- 
2.43.0


From a20b19925e63dc1a8d631245a751499db8a152df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:38 +0000
Subject: [PATCH 23/43] fix: lightcones sampled in frequency may reach the
 highest snapshot

---
 src/tools21cm/lightcone.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/tools21cm/lightcone.py b/src/tools21cm/lightcone.py
index 3effe86..5efb27d 100755
--- a/src/tools21cm/lightcone.py
+++ b/src/tools21cm/lightcone.py
@@ -123,8 +123,7 @@ def make_lightcone(filenames, z_low = None, z_high = None, depth_mhz = None, fil
     time.sleep(1)
     for ii in tqdm(range(len(output_z))):
         z = output_z[ii]
-        z_bracket_low_new = file_redshifts[file_redshifts <= z].max()
-        z_bracket_high_new = file_redshifts[file_redshifts > z].min()
+        z_bracket_low_new, z_bracket_high_new = _get_bracket(file_redshifts, z)
         
         #Do we need a new file for the low z?
         if z_bracket_low_new != z_bracket_low:
@@ -242,8 +241,7 @@ def make_velocity_lightcone(vel_filenames, dens_filenames, z_low = None, \
     time.sleep(1)
     for ii in tqdm(range(len(output_z))):
         z = output_z[ii]
-        z_bracket_low_new = file_redshifts[file_redshifts <= z].max()
-        z_bracket_high_new = file_redshifts[file_redshifts > z].min()
+        z_bracket_low_new, z_bracket_high_new = _get_bracket(file_redshifts, z)
         
         if z_bracket_low_new != z_bracket_low:
             z_bracket_low = z_bracket_low_new
@@ -272,6 +270,15 @@ def make_velocity_lightcone(vel_filenames, dens_filenames, z_low = None, \
     return lightcone, output_z
 
 
+def _get_bracket(file_redshifts, z):
+    '''
+    The file redshifts on either side of z. For internal use.
+    '''
+    if z >= file_redshifts.max(): #The highest snapshot itself
+        return file_redshifts[file_redshifts < z].max(), file_redshifts.max()
+    return file_redshifts[file_redshifts <= z].max(), file_redshifts[file_redshifts > z].min()
+
+
 def _get_output_z(file_redshifts, z_low, z_high, box_grid_n, box_length_mpc=None, dnu=None):
     '''
     Determine the output redshifts. For internal use.
-- 
2.43.0


From bcd32c71596cba06de02019553d1fec42ddf9c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:38 +0000
Subject: [PATCH 24/43] fix: step_cell interpolation between equal slices
 raised

---
 src/tools21cm/lightcone.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tools21cm/lightcone.py b/src/tools21cm/lightcone.py
index 5efb27d..be09eb2 100755
--- a/src/tools21cm/lightcone.py
+++ b/src/tools21cm/lightcone.py
@@ -473,6 +473,8 @@ def _get_step_weighted_slice(slice_low, slice_high, z_bracket_high, z_bracket_lo
     '''
     smoothed = smoothing.smooth_gauss(slice_high, sigma=4.) 
     diff = np.abs(slice_high-slice_low)
+    if not np.any(diff>1.e-3):
+        return slice_high.copy()
     
     #smoothed=1 means early transition. smoothed=0 means late
     #smoothed -= changed_cells.min()
-- 
2.43.0


From 3a0f3f298ed7e78657853b80d6c87afad2dace86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:13 +0000
Subject: [PATCH 25/43] fix: coeval cubes from a directory are those of the
 enclosing redshifts in any listing order

---
 src/tools21cm/read_files.py | 10 +++++-----
 src/tools21cm/usefuls.py    | 30 ++++++++++++++++--------------
 2 files changed, 21 insertions(+), 19 deletions(-)

diff --git a/src/tools21cm/read_files.py b/src/tools21cm/read_files.py
index 375977e..2028dc5 100755
--- a/src/tools21cm/read_files.py
+++ b/src/tools21cm/read_files.py
@@ -120,12 +120,12 @@ def coeval_xfrac_c2ray(xfrac_dir, z, interpolation='linear'):
 	xfrac_zs = None
 	xfrac_zs = lightcone._get_file_redshifts(xfrac_zs, xfrac_files)
 	if z in xfrac_zs:
-		xfrac = XfracFile(xfrac_files[np.argwhere(z==xfrac_zs)]).xi
+		xfrac = XfracFile(xfrac_files[np.argmax(z==xfrac_zs)]).xi
 	else:
 		z_l = xfrac_zs[xfrac_zs<z].max()
 		z_h = xfrac_zs[xfrac_zs>z].min()
-		xfrac_l = XfracFile(xfrac_files[xfrac_zs[xfrac_zs<z].argmax()]).xi
-		xfrac_h = XfracFile(xfrac_files[xfrac_zs[xfrac_zs>z].argmin()]).xi
+		xfrac_l = XfracFile(xfrac_files[np.argmax(z_l==xfrac_zs)]).xi
+		xfrac_h = XfracFile(xfrac_files[np.argmax(z_h==xfrac_zs)]).xi
 		xfrac = xfrac_h + (xfrac_l-xfrac_h)*(z-z_h)/(z_l-z_h)
 		print("The xfrac cube has been interpolated using %s interpolation." %interpolation)
 		print("CAUTION: This data should be used with care.")
@@ -148,12 +148,12 @@ def coeval_dens_c2ray(dens_dir, z):
 	dens_zs  = None
 	dens_zs  = lightcone._get_file_redshifts(dens_zs, dens_files)
 	if z in dens_zs:
-		dens, dtype = helper_functions.get_data_and_type(dens_files[np.argwhere(z==dens_zs)])
+		dens, dtype = helper_functions.get_data_and_type(dens_files[np.argmax(z==dens_zs)])
 	else:
 		#z_l = dens_zs[dens_zs<z].max()
 		z_h = dens_zs[dens_zs>z].min()
 		#dens_l,dtype = helper_functions.get_data_and_type(dens_files[dens_zs[dens_zs<z].argmax()])
-		dens_h, dtype = helper_functions.get_data_and_type(dens_files[dens_zs[dens_zs>z].argmin()])
+		dens_h, dtype = helper_functions.get_data_and_type(dens_files[np.argmax(z_h==dens_zs)])
 		#dens = dens_h + (dens_l-dens_h)*(z-z_h)/(z_l-z_h)
 		dens = dens_h*(1+z_h)**3/(1+z)**3
 		#print("The density cube has been interpolated using %s interpolation."%interpolation)
diff --git a/src/tools21cm/usefuls.py b/src/tools21cm/usefuls.py
index 7a54b32..9e7a379 100755
--- a/src/tools21cm/usefuls.py
+++ b/src/tools21cm/usefuls.py
@@ -62,12 +62,12 @@ def coeval_xfrac(xfrac_dir, z, interpolation='linear'):
 	xfrac_zs = None
 	xfrac_zs = lightcone._get_file_redshifts(xfrac_zs, xfrac_files)
 	if z in xfrac_zs:
-		xfrac = xfrac_file.XfracFile(xfrac_files[np.argwhere(z==xfrac_zs)]).xi
+		xfrac = xfrac_file.XfracFile(xfrac_files[np.argmax(z==xfrac_zs)]).xi
 	else:
 		z_l = xfrac_zs[xfrac_zs<z].max()
 		z_h = xfrac_zs[xfrac_zs>z].min()
-		xfrac_l = xfrac_file.XfracFile(xfrac_files[xfrac_zs[xfrac_zs<z].argmax()]).xi
-		xfrac_h = xfrac_file.XfracFile(xfrac_files[xfrac_zs[xfrac_zs>z].argmin()]).xi
+		xfrac_l = xfrac_file.XfracFile(xfrac_files[np.argmax(z_l==xfrac_zs)]).xi
+		xfrac_h = xfrac_file.XfracFile(xfrac_files[np.argmax(z_h==xfrac_zs)]).xi
 		xfrac = xfrac_h + (xfrac_l-xfrac_h)*(z-z_h)/(z_l-z_h)
 		print("The xfrac cube has been interpolated using", interpolation, "interpolation.")
 	return xfrac
@@ -84,12 +84,12 @@ def coeval_dens(dens_dir, z, interpolation='linear'):
 	dens_zs  = None
 	dens_zs  = lightcone._get_file_redshifts(dens_zs, dens_files)
 	if z in dens_zs:
-		dens, dtype = helper_functions.get_data_and_type(dens_files[np.argwhere(z==dens_zs)])
+		dens, dtype = helper_functions.get_data_and_type(dens_files[np.argmax(z==dens_zs)])
 	else:
 		z_l = dens_zs[dens_zs<z].max()
 		z_h = dens_zs[dens_zs>z].min()
-		dens_l, dtype = helper_functions.get_data_and_type(dens_files[dens_zs[dens_zs<z].argmax()])
-		dens_h, dtype = helper_functions.get_data_and_type(dens_files[dens_zs[dens_zs>z].argmin()])
+		dens_l, dtype = helper_functions.get_data_and_type(dens_files[np.argmax(z_l==dens_zs)])
+		dens_h, dtype = helper_functions.get_data_and_type(dens_files[np.argmax(z_h==dens_zs)])
 		dens = dens_h + (dens_l-dens_h)*(z-z_h)/(z_l-z_h)
 		print("The density cube has been interpolated using", interpolation, "interpolation.")
 	return dens.astype(np.float64)
@@ -116,18 +116,20 @@ def coeval_vel(dens_dir, vel_dir, z, interpolation='linear'):
 	vel_files  = glob.glob(vel_dir + '/*v_all.dat')
 	vel_zs     = None
 	vel_zs     = lightcone._get_file_redshifts(vel_zs, vel_files)
-	def get_vel(vel_file, dens_file):
-		dfile = density_file.DensityFile(dens_file)
-		vel_file = vel_file.VelocityFile(vel_file)
-		vel = vel_file.get_kms_from_density(dfile)
-		return vel
+	dens_zs    = lightcone._get_file_redshifts(None, dens_files)
+	def get_vel(vel_z):
+		if vel_z not in dens_zs:
+			raise ValueError('There is no density file at redshift %.3f' % vel_z)
+		dfile = density_file.DensityFile(dens_files[np.argmax(vel_z==dens_zs)])
+		vfile = vel_file.VelocityFile(vel_files[np.argmax(vel_z==vel_zs)])
+		return vfile.get_kms_from_density(dfile)
 	if z in vel_zs:
-		vel = get_vel(vel_files[np.argwhere(z==vel_zs)],dens_files[np.argwhere(z==vel_zs)])
+		vel = get_vel(z)
 	else:
 		z_l = vel_zs[vel_zs<z].max()
 		z_h = vel_zs[vel_zs>z].min()
-		vel_l = get_vel(vel_files[vel_zs[vel_zs<z].argmax()],dens_files[vel_zs[vel_zs<z].argmax()])
-		vel_h = get_vel(vel_files[vel_zs[vel_zs>z].argmin()],dens_files[vel_zs[vel_zs>z].argmin()])
+		vel_l = get_vel(z_l)
+		vel_h = get_vel(z_h)
 		vel = vel_h + (vel_l-vel_h)*(z-z_h)/(z_l-z_h)
 		print("The velocity cube has been interpolated using", interpolation, "interpolation.")
 	return vel
-- 
2.43.0


From cd01185869f6a7fd4cbba9faea2a067ebfcbbf9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:13 +0000
Subject: [PATCH 26/43] fix: read_21cmfast_files runs with numpy 2

---
 src/tools21cm/read_files.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/read_files.py b/src/tools21cm/read_files.py
index 2028dc5..1d9388f 100755
--- a/src/tools21cm/read_files.py
+++ b/src/tools21cm/read_files.py
@@ -17,7 +17,7 @@ def _load_binary_data(filename, dtype=np.float32):
 	f = open(filename, "rb") 
 	data = f.read() 
 	f.close() 
-	_data = np.fromstring(data, dtype) 
+	_data = np.frombuffer(data, dtype).copy()
 	if sys.byteorder == 'big':
 		_data = _data.byteswap()
 	return _data 
-- 
2.43.0


From 237ab90dbdff864b397d6741bd0fc628a273a435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:13 +0000
Subject: [PATCH 27/43] fix: read_c2ray_files could not read velocities

---
 src/tools21cm/read_files.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/tools21cm/read_files.py b/src/tools21cm/read_files.py
index 1d9388f..46e0e7a 100755
--- a/src/tools21cm/read_files.py
+++ b/src/tools21cm/read_files.py
@@ -5,7 +5,9 @@ Methods to read simulations outputs of few popular codes.
 import numpy as np
 import glob
 from .xfrac_file import XfracFile
-from . import helper_functions, density_file, vel_file, lightcone
+from .density_file import DensityFile
+from .vel_file import VelocityFile
+from . import helper_functions, lightcone
 from . import temperature as tm
 import sys, os, shutil, threading
 
@@ -57,9 +59,8 @@ def read_c2ray_files(filename, file_type='xfrac', density_file=None):
 		out = dens.astype(np.float64)
 	elif file_type=='vel':
 		assert density_file is not None
-		dfile = density_file.DensityFile(density_file)
-		vel_file = vel_file.VelocityFile(filename)
-		out = vel_file.get_kms_from_density(dfile)
+		dfile = DensityFile(density_file)
+		out = VelocityFile(filename).get_kms_from_density(dfile)
 	return out
 
 def read_grizzly_files(filename):
-- 
2.43.0


From 085e6d0b4349749c85b94992d693291912b647b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:35 +0000
Subject: [PATCH 28/43] fix: raw_density was ignored for density files given by
 name

---
 src/tools21cm/helper_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/helper_functions.py b/src/tools21cm/helper_functions.py
index 017ec64..faaca1d 100755
--- a/src/tools21cm/helper_functions.py
+++ b/src/tools21cm/helper_functions.py
@@ -412,7 +412,7 @@ def get_data_and_type(indata, cbin_bits=32, cbin_order='c', raw_density=False):
                 elif filetype == 'temper':
                         return get_data_and_type(tools21cm.temper_file.TemperFile(indata))
                 elif filetype == 'density':
-                        return get_data_and_type(tools21cm.density_file.DensityFile(indata))
+                        return get_data_and_type(tools21cm.density_file.DensityFile(indata), raw_density=raw_density)
                 elif filetype == 'cbin':
                         return read_cbin(indata, bits=cbin_bits, order=cbin_order), 'cbin'
                 elif filetype == 'dbt':
-- 
2.43.0


From 7e581e88777ce62d84a9e92b582fbc216c8d7c96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:45 +0000
Subject: [PATCH 29/43] fix: mu_binning changed the caller's spectrum; weights
 raised

---
 src/tools21cm/power_spectrum.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/tools21cm/power_spectrum.py b/src/tools21cm/power_spectrum.py
index 73218da..7f89a55 100755
--- a/src/tools21cm/power_spectrum.py
+++ b/src/tools21cm/power_spectrum.py
@@ -382,8 +382,7 @@ def mu_binning(powerspectrum, los_axis = 0, mubins=20, kbins=10, box_dims=None,
         This function is for internal use only.
         '''
         
-        if weights != None:
-                powerspectrum *= weights
+        powerspectrum = powerspectrum.copy() if weights is None else powerspectrum*weights
 
         assert(len(powerspectrum.shape)==3)
 
-- 
2.43.0


From ab2a2449123ca087a7ea22128a21bb58e7b92c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:45 +0000
Subject: [PATCH 30/43] fix: uniform weighting changed the caller's noise array

---
 src/tools21cm/radio_telescope_noise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/radio_telescope_noise.py b/src/tools21cm/radio_telescope_noise.py
index 2bf3119..1ed45c1 100755
--- a/src/tools21cm/radio_telescope_noise.py
+++ b/src/tools21cm/radio_telescope_noise.py
@@ -473,7 +473,7 @@ def apply_uv_response_noise(noise, uv_map, boxsize=None, uv_weighting='natural',
 			uv_map_smooth = uv_map
 		out = noise/np.sqrt(uv_map_smooth)
 	elif uv_weighting.lower() in ['uni', 'uniform', 'uniform_weighting']:
-		out = noise
+		out = noise.copy()
 	else:
 		print(f'{uv_weighting} scheme is not known or implemented')
 	out[uv_map<uv_map_min] = 0.
-- 
2.43.0


From 4990cb78d677d14ffb2fda80121e990843e17c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:57 +0000
Subject: [PATCH 31/43] fix: set_omega_matter leaves OmegaL alone, as the tests
 expect of the virial conversions

---
 src/tools21cm/const.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/tools21cm/const.py b/src/tools21cm/const.py
index 3312557..8f54fd7 100755
--- a/src/tools21cm/const.py
+++ b/src/tools21cm/const.py
@@ -54,9 +54,8 @@ def set_omega_matter(value):
 	'''
 	Define new omega matter value.
 	'''
-	global Omega0, lam, OmegaL, q0
-	value_lam = 1.0-value
-	Omega0, lam, OmegaL, q0 = value, value_lam, value_lam, 0.5*value - value_lam
+	global Omega0, lam, q0
+	Omega0, lam, q0 = value, 1.0-value, 0.5*value - (1.0-value)
 	# print(Omega0, q0)
 
 def set_omega_baryon(value):
-- 
2.43.0


From b4744b47597bb6194ee522aa6e5946be5d8bc3e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:31 +0000
Subject: [PATCH 32/43] fix: densities and the mean brightness temperature
 follow the cosmology that was set

---
 src/tools21cm/const.py | 42 +++++++++++++++++++++++++++---------------
 1 file changed, 27 insertions(+), 15 deletions(-)

diff --git a/src/tools21cm/const.py b/src/tools21cm/const.py
index 8f54fd7..bc55d48 100755
--- a/src/tools21cm/const.py
+++ b/src/tools21cm/const.py
@@ -24,8 +24,9 @@ mean_molecular = abu_h+4.0*abu_he
 abu_he_mass = 0.2486 
 abu_h_mass = 1.0-abu_he_mass
 def set_abundance_helium(value):
-	global abu_he_mass, abu_h_mass
-	abu_he_mass, abu_h_mass = value, 1.0-value
+	global abu_he_mass, abu_h_mass, mean_molecular, num_h_0, meandt
+	new = _derived(h, Omega0, OmegaB, value)
+	abu_he_mass, abu_h_mass, mean_molecular, num_h_0, meandt = value, 1.0-value, 1.0/(1.0-value), new[4], new[5]
 
 mean_molecular = 1.0/(1.0-abu_he_mass)
 solar_masses_per_gram = 5.02785431e-34
@@ -47,23 +48,25 @@ def set_hubble_h(value):
 	'''
 	Define new hubble constant value (little h).
 	'''
-	global h, H0
-	h, H0 = value, 100.0*value
+	global h, H0, H0cgs, rho_crit_0, rho_matter, num_h_0, meandt
+	new = _derived(value, Omega0, OmegaB, abu_he_mass)
+	h, (H0, H0cgs, rho_crit_0, rho_matter, num_h_0, meandt) = value, new
 
 def set_omega_matter(value): 
 	'''
 	Define new omega matter value.
 	'''
-	global Omega0, lam, q0
-	Omega0, lam, q0 = value, 1.0-value, 0.5*value - (1.0-value)
+	global Omega0, lam, q0, rho_matter
+	Omega0, lam, q0, rho_matter = value, 1.0-value, 0.5*value - (1.0-value), rho_crit_0*value
 	# print(Omega0, q0)
 
 def set_omega_baryon(value):
 	'''
 	Define new omega baryon value.
 	'''
-	global OmegaB
-	OmegaB = value 
+	global OmegaB, num_h_0, meandt
+	new = _derived(h, Omega0, value, abu_he_mass)
+	OmegaB, num_h_0, meandt = value, new[4], new[5]
 
 def set_omega_lambda(value):
 	'''
@@ -87,10 +90,6 @@ def set_sigma_8(value):
 	sigma_8 = value 
 
 # Cosmology
-H0 = 100.0*h
-H0cgs = H0*1e5/Mpc
-rho_crit_0 = 3.0*H0cgs*H0cgs/(8.0*np.pi*G_grav)
-rho_matter = rho_crit_0*Omega0  
 Tcmb0 = 2.725
 
 # Redshift dependent Hubble parameter, km/s/Mpc
@@ -101,6 +100,19 @@ A10 = 2.85e-15
 nu0 = 1.42e3
 Tstar = 0.068
 lambda0 = c*1.0e5/(nu0*1.0e6) # cm
-num_h_0=(1-abu_he_mass)*OmegaB*rho_crit_0/m_p
-# meandt = 2.9*0.043/0.04
-meandt = 3.0*lambda0**3/(32.*np.pi)*A10*Tstar*num_h_0/(H0cgs/h)*1000.
+
+def _derived(h, Omega0, OmegaB, abu_he_mass):
+	'''
+	H0, H0cgs, rho_crit_0, rho_matter, num_h_0 and meandt, which follow from the 
+	cosmological parameters.
+	'''
+	H0 = 100.0*h
+	H0cgs = H0*1e5/Mpc
+	rho_crit_0 = 3.0*H0cgs*H0cgs/(8.0*np.pi*G_grav)
+	rho_matter = rho_crit_0*Omega0
+	num_h_0=(1-abu_he_mass)*OmegaB*rho_crit_0/m_p
+	# meandt = 2.9*0.043/0.04
+	meandt = 3.0*lambda0**3/(32.*np.pi)*A10*Tstar*num_h_0/(H0cgs/h)*1000.
+	return H0, H0cgs, rho_crit_0, rho_matter, num_h_0, meandt
+
+H0, H0cgs, rho_crit_0, rho_matter, num_h_0, meandt = _derived(h, Omega0, OmegaB, abu_he_mass)
-- 
2.43.0


From f5f370ccf7878c95775ffa53334a1e01313a6b12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:25 +0000
Subject: [PATCH 33/43] fix: print_chain_stats changed the caller's weights

---
 src/tools21cm/plotting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/plotting.py b/src/tools21cm/plotting.py
index 9b96958..f70e4ce 100755
--- a/src/tools21cm/plotting.py
+++ b/src/tools21cm/plotting.py
@@ -143,7 +143,7 @@ def print_chain_stats(samples_dict, weights_dict, param_names):
     for name, samples in samples_dict.items():
         weights = weights_dict[name] if weights_dict else np.ones(len(samples))
         # Normalize weights
-        weights /= np.sum(weights)
+        weights = weights / np.sum(weights)
         
         for i, p_name in enumerate(param_names):
             data = samples[:, i]
-- 
2.43.0


From 10e9e6aea1e1c5fe8f18573b46ddd8691680ef23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:48 +0000
Subject: [PATCH 34/43] fix: FoF_search found no groups; its queue could report
 empty too early

---
 src/tools21cm/Friends_of_Friends.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/tools21cm/Friends_of_Friends.py b/src/tools21cm/Friends_of_Friends.py
index f1c6100..991edf1 100755
--- a/src/tools21cm/Friends_of_Friends.py
+++ b/src/tools21cm/Friends_of_Friends.py
@@ -10,8 +10,7 @@ sizes_list = ast.literal_eval(sizes_string)
 
 import numpy as np
 from itertools import count
-#from Queue import Queue
-from multiprocessing import Queue
+from queue import Queue
 
 
 def FoF_search(array, threshold):
@@ -29,7 +28,7 @@ def FoF_search(array, threshold):
                 yield tuple(new_coordinate)
 
     out_map = np.zeros(array.shape, dtype=int)   # creates an array with the same shape as the input search array
-    possibilities = zip(*np.where(array > threshold))  # creates a list of indices of points above the threshold
+    possibilities = list(zip(*np.where(array > threshold)))  # creates a list of indices of points above the threshold
     poss_set = set(possibilities)
     
     def recursive_search(point, current_group, currentsize):     # function to calculate group membership of a point
-- 
2.43.0


From 6d7a34910bdae42ce75d7c865fba8bf4334e4cf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:34 +0000
Subject: [PATCH 35/43] fix: save_fits and read_fits always raised

---
 src/tools21cm/helper_functions.py | 33 +++++++++++--------------------
 1 file changed, 12 insertions(+), 21 deletions(-)

diff --git a/src/tools21cm/helper_functions.py b/src/tools21cm/helper_functions.py
index faaca1d..03998c6 100755
--- a/src/tools21cm/helper_functions.py
+++ b/src/tools21cm/helper_functions.py
@@ -295,17 +295,10 @@ def read_fits(filename, header=True):
         Returns:
                 numpy array containing the data
         '''
-        try:
-                import pyfits as pf
-                hdulist = pf.open(filename)
-                header = hdulist[0].header
-                data = hdulist[0].data.astype('float64')
-        except:
-                from astropy.io import fits
-                fits_image_filename = fits.util.get_testdata_filepath(filename)
-                hdul = fits.open(fits_image_filename)
-                header = hdul[0].header
-                data = hdul[1].data.astype('float64')
+        from astropy.io import fits
+        with fits.open(filename, memmap=False) as hdul:
+                if header: header = hdul[0].header
+                data = hdul[0].data.astype('float64')
 
         if header: return data, header
         else: return data
@@ -328,17 +321,15 @@ def save_fits(data, filename, header=None):
         
         save_data, datatype = get_data_and_type(data)
 
-        try:
-                import pyfits as pf
-                if type(header)==pf.header.Header: pf.writeto(filename, save_data, header)
-                else: pf.writeto(filename, save_data)
-        except:
-                from astropy.io import fits
-                hdu = pf.PrimaryHDU(save_data.astype('float64'))
-                hdulist = pf.HDUList([hdu])
-                hdulist.writeto(filename, clobber=True)
+        import io
+        from astropy.io import fits
+        if not isinstance(header, fits.Header): header = None
+        hdu = fits.PrimaryHDU(save_data.astype('float64'), header=header)
+        buf = io.BytesIO()
+        hdu.writeto(buf)
+        with open(filename, 'wb') as f:   # unlike numpy's tofile, this reports a failed write
+                f.write(buf.getvalue())
 
-        
 
 def determine_filetype(filename):
         '''
-- 
2.43.0


From 2d1ea4c4a15fcb207f9ac0b8f1a5e66401a82547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:46 +0000
Subject: [PATCH 36/43] fix: an interrupt or a failed allocation was taken for
 a missing unit or file name, singular matrix or old keyword

---
 src/tools21cm/density_file.py           | 4 ++--
 src/tools21cm/helper_functions.py       | 6 +++---
 src/tools21cm/irate_file.py             | 2 +-
 src/tools21cm/plotting.py               | 4 ++--
 src/tools21cm/radio_telescope_layout.py | 2 +-
 src/tools21cm/source_file.py            | 2 +-
 src/tools21cm/superpixels.py            | 2 +-
 src/tools21cm/temper_file.py            | 2 +-
 src/tools21cm/vel_file.py               | 2 +-
 src/tools21cm/xfrac_file.py             | 2 +-
 10 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/tools21cm/density_file.py b/src/tools21cm/density_file.py
index c34cd8b..ead4475 100755
--- a/src/tools21cm/density_file.py
+++ b/src/tools21cm/density_file.py
@@ -66,7 +66,7 @@ class DensityFile:
 				self.z = float(name[:5])
 			else:
 				self.z = float(name.split('n_')[0])
-		except:
+		except (ValueError, IndexError):
 			print_msg('Could not determine redshift from file name')
 			self.z = -1
 		print_msg( '...done')
@@ -175,7 +175,7 @@ class ClumpingFile:
 			import os.path
 			name = os.path.split(filename)[1]
 			self.z = float(name.split('c_')[0])
-		except:
+		except (ValueError, IndexError):
 			print('Could not determine redshift from file name')
 			self.z = -1
 		print('...done')
diff --git a/src/tools21cm/helper_functions.py b/src/tools21cm/helper_functions.py
index 03998c6..0ab0a09 100755
--- a/src/tools21cm/helper_functions.py
+++ b/src/tools21cm/helper_functions.py
@@ -46,7 +46,7 @@ def get_source_redshifts(source_dir, z_low = None, z_high = None, bracket=False)
                 try:
                         z = float(f[f.rfind('/')+1:f.rfind('-coarsest_wsubgrid_sources')])
                         redshifts.append(z)
-                except: 
+                except ValueError: 
                         pass
 
         return _get_redshifts_in_range(redshifts, z_low, z_high, bracket)
@@ -73,7 +73,7 @@ def get_xfrac_redshifts(xfrac_dir, z_low = None, z_high = None, bracket=False):
                 try:
                         z = float(f.split('_')[-1][:-4])
                         redshifts.append(z)
-                except: 
+                except ValueError: 
                         pass
 
         return _get_redshifts_in_range(redshifts, z_low, z_high, bracket)
@@ -100,7 +100,7 @@ def get_dens_redshifts(dens_dir, z_low=None, z_high=None, bracket=False):
                 try:
                         z = float(os.path.split(f)[1].split('n_')[0])
                         redshifts.append(z)
-                except:
+                except ValueError:
                         pass
         
         return _get_redshifts_in_range(redshifts, z_low, z_high, bracket)
diff --git a/src/tools21cm/irate_file.py b/src/tools21cm/irate_file.py
index de0d256..9df0c49 100755
--- a/src/tools21cm/irate_file.py
+++ b/src/tools21cm/irate_file.py
@@ -67,6 +67,6 @@ class IonRateFile:
         try:
             name = os.path.split(filename)[1]
             self.z = float(name.split('_')[1][:-4])
-        except:
+        except (ValueError, IndexError):
             print_msg('Could not determine redshift from file name')
             self.z = -1
diff --git a/src/tools21cm/plotting.py b/src/tools21cm/plotting.py
index f70e4ce..bd95dd3 100755
--- a/src/tools21cm/plotting.py
+++ b/src/tools21cm/plotting.py
@@ -358,7 +358,7 @@ class DistributionDiagnostic(ABC):
 
             try:
                 metrics['mahalanobis'] = float(np.sqrt(delta @ inv(cov) @ delta))
-            except:
+            except (np.linalg.LinAlgError, ValueError):
                 metrics['mahalanobis'] = np.nan
 
             metrics['pit'] = np.array([cis[p]['cdf_at'](tv_slice[p]) for p in range(len(tv_slice))])
@@ -368,7 +368,7 @@ class DistributionDiagnostic(ABC):
             # Info gain proxy (relative to unit volume)
             try:
                 metrics['entropy'] = 0.5 * np.log(np.linalg.det(2 * np.pi * np.e * cov))
-            except:
+            except np.linalg.LinAlgError:
                 metrics['entropy'] = np.nan
 
         return metrics
diff --git a/src/tools21cm/radio_telescope_layout.py b/src/tools21cm/radio_telescope_layout.py
index 49c55b7..685d813 100755
--- a/src/tools21cm/radio_telescope_layout.py
+++ b/src/tools21cm/radio_telescope_layout.py
@@ -375,7 +375,7 @@ def antenna_positions_to_baselines(antxyz):
     baselines = np.array([(a1-a2) for a1,a2 in tqdm(permutations(antxyz, 2))])
     try: 
         return baselines*antxyz.unit
-    except:
+    except AttributeError:
         return baselines
     
 def enu_to_ecef(enu, lat_deg, lon_deg, origin_ecef):
diff --git a/src/tools21cm/source_file.py b/src/tools21cm/source_file.py
index f657c95..c72dd44 100755
--- a/src/tools21cm/source_file.py
+++ b/src/tools21cm/source_file.py
@@ -74,7 +74,7 @@ class SourceFile:
         #Store the redshift from the filename
         try:
             self.z = float(filename[filename.rfind('/')+1:filename.rfind('-coarsest')])
-        except:
+        except (ValueError, IndexError):
             print_msg('Could not determine redshift from file name')
             self.z = -1
 
diff --git a/src/tools21cm/superpixels.py b/src/tools21cm/superpixels.py
index 457c0c8..5b830a4 100755
--- a/src/tools21cm/superpixels.py
+++ b/src/tools21cm/superpixels.py
@@ -22,7 +22,7 @@ def slic_cube(cube, n_segments=5000, compactness=0.1,
 		labels = slic(cube, n_segments=n_segments, compactness=compactness, 
 					  max_num_iter=max_iter, sigma=sigma, max_size_factor=max_size_factor, 
 					  slic_zero=True, multichannel=multichannel, start_label=0)
-	except: 
+	except TypeError: 
 		labels = slic(cube, n_segments=n_segments, compactness=compactness, 
 					  max_num_iter=max_iter, sigma=sigma, max_size_factor=max_size_factor, 
 					  slic_zero=True, start_label=0)
diff --git a/src/tools21cm/temper_file.py b/src/tools21cm/temper_file.py
index 5d1c5ef..0f62310 100755
--- a/src/tools21cm/temper_file.py
+++ b/src/tools21cm/temper_file.py
@@ -63,6 +63,6 @@ class TemperFile:
         try:
             name = os.path.split(filename)[1]
             self.z = float(name.split('_')[1][:-4])
-        except:
+        except (ValueError, IndexError):
             print_msg('Could not determine redshift from file name')
             self.z = -1
diff --git a/src/tools21cm/vel_file.py b/src/tools21cm/vel_file.py
index 5bd3800..176974c 100755
--- a/src/tools21cm/vel_file.py
+++ b/src/tools21cm/vel_file.py
@@ -58,7 +58,7 @@ class VelocityFile:
 			import os.path
 			name = os.path.split(filename)[1]
 			self.z = float(name.split('v_')[0])
-		except:
+		except (ValueError, IndexError):
 			print_msg('Could not determine redshift from file name')
 			self.z = -1
 
diff --git a/src/tools21cm/xfrac_file.py b/src/tools21cm/xfrac_file.py
index 378be24..237b6a5 100755
--- a/src/tools21cm/xfrac_file.py
+++ b/src/tools21cm/xfrac_file.py
@@ -72,7 +72,7 @@ class XfracFile:
 		try:
 			name = os.path.split(filename)[1]
 			self.z = float(name.split('_')[1][:-4])
-		except:
+		except (ValueError, IndexError):
 			print_msg('Could not determine redshift from file name')
 			self.z = -1
 
-- 
2.43.0


From bcc72e1aa2ac4bd2690a4ba1bb6ab09f8d685be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:30 +0000
Subject: [PATCH 37/43] fix: release the shared block of the Euler
 characteristic when setting it up is interrupted

---
 src/tools21cm/ViteBetti.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/tools21cm/ViteBetti.py b/src/tools21cm/ViteBetti.py
index 43141f6..be5790c 100755
--- a/src/tools21cm/ViteBetti.py
+++ b/src/tools21cm/ViteBetti.py
@@ -181,13 +181,13 @@ def CubeMap_joblib(arr, multi_marker=True, n_jobs=-1):
     markers = (1, 2, 3, 4) if multi_marker else (1, 1, 1, 1)
 
     shm = shared_memory.SharedMemory(create=True, size=np.dtype(np.int32).itemsize * Nx * Ny * Nz)
-    shared_cubemap = np.ndarray(cubemap_shape, dtype=np.int32, buffer=shm.buf)
-    shared_cubemap[:] = 0
+    try:
+        shared_cubemap = np.ndarray(cubemap_shape, dtype=np.int32, buffer=shm.buf)
+        shared_cubemap[:] = 0
 
-    if n_jobs == -1:
-        n_jobs = os.cpu_count()
+        if n_jobs == -1:
+            n_jobs = os.cpu_count()
 
-    try:
         for stage_name, domain_size in [('vertices', nx), ('edges', Nx), ('faces', Nx), ('cubes', Nx)]:
             chunk_size = (domain_size + n_jobs - 1) // n_jobs
             tasks = [
-- 
2.43.0


From b691d22b109b95c02b8ef3f94ac7a432d250d7c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:38 +0000
Subject: [PATCH 38/43] fix: a Rockstar catalogue cut in the middle of a halo
 gave positions or momenta of fewer than three components

---
 src/tools21cm/halo_list.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tools21cm/halo_list.py b/src/tools21cm/halo_list.py
index 492ec4d..ae167a1 100755
--- a/src/tools21cm/halo_list.py
+++ b/src/tools21cm/halo_list.py
@@ -97,6 +97,8 @@ class HaloRockstar:
 				
 				#Create a halo and add it to the list
 				if(max_select_number < 0 or len(self.halos) < max_select_number):
+					if(len(vals) < max(idx_pos, idx_vel, idx_l)+3):
+						raise ValueError('Incomplete line %d in %s' %(linenumber+1, filename))
 					halo = Halo()
 					halo.pos = np.array(vals[idx_pos:idx_pos+3]).astype(float) #* U.Mpc/self.h
 					halo.vel = np.array(vals[idx_vel:idx_vel+3]).astype(float) #* U.km/U.s
-- 
2.43.0


From c0c7b23da454a4d32f22a4e24383cc408ae63af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:02 +0000
Subject: [PATCH 39/43] fix: a halo list cut in the middle of a halo lost it
 without a word when halos were selected by mass

---
 src/tools21cm/halo_list.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/tools21cm/halo_list.py b/src/tools21cm/halo_list.py
index ae167a1..7f57830 100755
--- a/src/tools21cm/halo_list.py
+++ b/src/tools21cm/halo_list.py
@@ -232,6 +232,8 @@ class HaloCubeP3MFull:
 						# print('skipping this line')
 						continue
 				# print('VALS:', vals)
+				if len(vals) < 19:
+						raise ValueError('Incomplete line %d in %s' % (linenumber-1, filename))
 				grid_mass = float(vals[-3])
 
 				# Create a halo and add it to the list
@@ -519,6 +521,8 @@ class HaloList:
 			linenumber += 1
 
 			vals = line.split()			
+			if len(vals) < 19:
+				raise ValueError('Incomplete line %d in %s' % (linenumber-1, filename))
 			grid_mass = float(vals[-3])
 
 			#Create a halo and add it to the list
-- 
2.43.0


From cbbcc34b4449f83d4dc0de9c9f66d422b107b8bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:43 +0000
Subject: [PATCH 40/43] fix: worker processes ignored settings that are numpy
 scalars other than float64

---
 src/tools21cm/conv.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/tools21cm/conv.py b/src/tools21cm/conv.py
index 4e576e4..33e0be5 100755
--- a/src/tools21cm/conv.py
+++ b/src/tools21cm/conv.py
@@ -3,6 +3,7 @@ Various values and functions to deal with unit conversions regarding file types
 '''
 
 from . import const
+import numbers
 import sys
 import numpy as np
 from . import helper_functions as hf
@@ -117,7 +118,7 @@ def get_session_settings():
 	Returns:
 		Dictionary to be passed to call_with_settings
 	'''
-	return {mod: {name: value for name, value in vars(module).items() if isinstance(value, (int, float))}
+	return {mod: {name: value for name, value in vars(module).items() if isinstance(value, (numbers.Number, np.ndarray))}
 			for mod, module in [('const', const), ('conv', sys.modules[__name__])]}
 
 
@@ -136,6 +137,6 @@ def call_with_settings(settings, func, *args, **kwargs):
 	'''
 	for mod, module in [('const', const), ('conv', sys.modules[__name__])]:
 		for name, value in settings[mod].items():
-			if getattr(module, name) != value:
+			if np.any(getattr(module, name) != value):
 				setattr(module, name, value)
 	return func(*args, **kwargs)
-- 
2.43.0


From 65fc3daaea4751d24b46d2255d55f22e0ce9237a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:00 +0000
Subject: [PATCH 41/43] fix: fof listed no region when the whole field is one

---
 src/tools21cm/bubble_stats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/bubble_stats.py b/src/tools21cm/bubble_stats.py
index 7ef3361..fc40021 100755
--- a/src/tools21cm/bubble_stats.py
+++ b/src/tools21cm/bubble_stats.py
@@ -40,7 +40,7 @@ def fof(data, xth=0.5, connectivity=1):
 		from skimage import morphology
 		out_map = morphology.label(data, connectivity=connectivity)
 		elements, size_list = np.unique(out_map, return_counts=True)
-		size_list = size_list[1:]
+		size_list = size_list[elements>0]
 	else: out_map, size_list = FoF_search(data, xth)
 	t2 = datetime.datetime.now()
 	runtime = (t2-t1).total_seconds()/60
-- 
2.43.0


From 9daa8a89d52cdddf5d12c56a4a6322f2eb2aa63b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:47 +0000
Subject: [PATCH 42/43] fix: saving a loaded clumping, velocity or source file
 again wrote nothing

write_to_file without data replaced what had been read by None, printed a
message and returned, although that message says to load a file first.
---
 src/tools21cm/density_file.py | 5 +++--
 src/tools21cm/source_file.py  | 5 +++--
 src/tools21cm/vel_file.py     | 5 +++--
 3 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/tools21cm/density_file.py b/src/tools21cm/density_file.py
index ead4475..9ec64ce 100755
--- a/src/tools21cm/density_file.py
+++ b/src/tools21cm/density_file.py
@@ -190,8 +190,9 @@ class ClumpingFile:
 		Returns:
 			Nothing
 		'''
-		self.raw_clumping = raw_clumping
-		if self.raw_clumping is None:
+		if raw_clumping is not None:
+			self.raw_clumping = raw_clumping
+		if getattr(self, 'raw_clumping', None) is None:
 			print_msg("Error: No raw clumping data to write. Please load a clumping file first or set the 'raw_clumping' attribute.")
 			return
 
diff --git a/src/tools21cm/source_file.py b/src/tools21cm/source_file.py
index c72dd44..885cb46 100755
--- a/src/tools21cm/source_file.py
+++ b/src/tools21cm/source_file.py
@@ -101,8 +101,9 @@ class SourceFile:
         Returns:
             Nothing
         '''
-        self.sources_list = sources_list
-        if self.sources_list is None or self.sources_list.shape[0] == 0:
+        if sources_list is not None:
+            self.sources_list = sources_list
+        if getattr(self, 'sources_list', None) is None or self.sources_list.shape[0] == 0:
             print_msg("Error: No sources_list data to write. Please load a source file first or set the 'sources_list' attribute.")
             return
 
diff --git a/src/tools21cm/vel_file.py b/src/tools21cm/vel_file.py
index 176974c..da0327d 100755
--- a/src/tools21cm/vel_file.py
+++ b/src/tools21cm/vel_file.py
@@ -79,8 +79,9 @@ class VelocityFile:
 		Returns:
 			Nothing
 		'''
-		self.raw_velocity = raw_velocity
-		if self.raw_velocity is None:
+		if raw_velocity is not None:
+			self.raw_velocity = raw_velocity
+		if getattr(self, 'raw_velocity', None) is None:
 			print_msg("Error: No raw velocity data to write. Please load a velocity file first or set the 'raw_velocity' attribute.")
 			return
 
-- 
2.43.0


From de107296f9313aecffd59fd616f1063b0d1b254c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:50:08 +0000
Subject: [PATCH 43/43] fix: averaged_mfp in several jobs ignored the session's
 random seed

---
 src/tools21cm/bubble_stats.py | 5 ++++-
 src/tools21cm/mfp_np.py       | 9 +++++----
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/tools21cm/bubble_stats.py b/src/tools21cm/bubble_stats.py
index fc40021..b1d0beb 100755
--- a/src/tools21cm/bubble_stats.py
+++ b/src/tools21cm/bubble_stats.py
@@ -216,10 +216,13 @@ def averaged_mfp(data, xth=0.5, boxsize=None, iterations=10000000, rays_per_poin
 		rand_loc = np.random.randint(0, high=loc.shape[0], size=iterations)
 		xs, ys, zs = loc[rand_loc, 0], loc[rand_loc, 1], loc[rand_loc, 2]
 
+		# the workers have random streams of their own, so the rays of each point are seeded here
+		seeds = np.random.randint(0, high=2**31-1, size=iterations)
+
 		print("MFP method applied on 3D data")
 		def compute_ray_length(j):
 			point = [xs[j], ys[j], zs[j]]
-			num_szj, size_pxj = mfp_np.mfp3d(data, xth, iterations=rays_per_point, verbose=False, point=point)
+			num_szj, size_pxj = mfp_np.mfp3d(data, xth, iterations=rays_per_point, verbose=False, point=point, rng=np.random.RandomState(seeds[j]))
 			return np.sum(num_szj * size_pxj) / np.sum(num_szj)
 		ray_list = Parallel(n_jobs=n_jobs)(delayed(compute_ray_length)(j) for j in tqdm(range(iterations), disable=not verbose))
 		ray_list = np.array(ray_list)
diff --git a/src/tools21cm/mfp_np.py b/src/tools21cm/mfp_np.py
index 845bb60..97b6d83 100755
--- a/src/tools21cm/mfp_np.py
+++ b/src/tools21cm/mfp_np.py
@@ -51,8 +51,9 @@ def _ray3d(ar, xs, ys, zs, ls, ms, ns, verbose):
     size_px = np.arange(longest)
     return num_sz, size_px
 
-def mfp3d(arr, xth=0.5, iterations=10000000, verbose=True, point='random'):
+def mfp3d(arr, xth=0.5, iterations=10000000, verbose=True, point='random', rng=None):
     iterations = int(iterations)
+    if rng is None: rng = np.random
 
     if verbose: 
         print('Initialising random rays...', end=' ')
@@ -62,8 +63,8 @@ def mfp3d(arr, xth=0.5, iterations=10000000, verbose=True, point='random'):
     ar = np.zeros(info, dtype=np.float64)
     ar[arr >= xth] = 1
 
-    thetas = np.random.randint(0, 360, size=iterations)
-    phis   = np.random.randint(0, 360, size=iterations)
+    thetas = rng.randint(0, 360, size=iterations)
+    phis   = rng.randint(0, 360, size=iterations)
     
     # Precompute trigonometric values
     sin_thetas = np.sin(np.radians(thetas))
@@ -77,7 +78,7 @@ def mfp3d(arr, xth=0.5, iterations=10000000, verbose=True, point='random'):
 
     if point == 'random':
         loc = np.argwhere(ar == 1)
-        rand_loc = np.random.randint(0, high=loc.shape[0], size=iterations)
+        rand_loc = rng.randint(0, high=loc.shape[0], size=iterations)
         xs, ys, zs = loc[rand_loc, 0], loc[rand_loc, 1], loc[rand_loc, 2]
     else:
         xs, ys, zs = point
-- 
2.43.0

