"""Writes known_findings.jsonl: the defects found on the original tree and repaired by fix: commits.
Fixed entries are plain text lines and suppress nothing; a line starting with { would be an open finding."""
import subprocess, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROP = {  # subject (prefix) -> (property, what failed)
 'torch_skcuda subsampling of rectangular': ('C26', 'torch_skcuda 2-D subsample_fourier of rectangular images (16x128, k=2) left part of the output uninitialized'),
 'torch_skcuda 1D subsampling of tensors': ('C26', 'torch_skcuda TimeFrequencyScattering: 1-D subsample_fourier of 5-D tensors took the wrong axis'),
 'torch_skcuda modulus in double': ('C26', 'torch_skcuda modulus of float64 tensors did not compile'),
 'torch_skcuda cdgmm in double': ('C26', 'torch_skcuda cdgmm of float64 tensors called the single-precision cublasCdgmm'),
 'gradient of the JAX HarmonicScattering3D': ('C24', 'jax.grad of HarmonicScattering3D (rotation_covariant=True) at the zero or a constant volume was NaN'),
 'PyTorch HarmonicScattering3D does not depend': ('C25', 'under torch.set_default_dtype(torch.float64) HarmonicScattering3D rejected single-precision inputs and the dtype of its output followed the default dtype'),
 'NumPy backend raises TypeError': ('C16', 'NumPy Scattering(non-array) raised NameError instead of TypeError'),
 'import warn so that Scattering2D.M': ('C09', 'Scattering2D.M and .N raised NameError'),
 'get_cache_dir tolerates': ('C18', 'two concurrent get_cache_dir(create=True): FileExistsError in the second creator'),
 'build second-order filters': ('C01', 'Scattering1D(J=3, shape=64, Q=(1,2)): KeyError/IndexError, second-order filter level missing'),
 'Scattering1D.meta() no longer crashes': ('C09', 'Scattering1D(J, shape, T<2**J).meta() raised'),
 'JTFS with a temporal stride smaller': ('C04', 'TimeFrequencyScattering with stride < 2**j2 crashed'),
 'JTFS with a frequential stride smaller': ('C04', 'TimeFrequencyScattering with stride_fr < 2**j_fr crashed'),
 'JTFS averages spin-0 paths': ('C04', "spin-0 paths not averaged for F='global' or F > 2**J_fr"),
 'JTFS frequential padding': ('C04', 'frequential padding not divisible by the low-pass subsampling'),
 'TimeFrequencyScattering.meta() follows': ('C09', 'meta() rows in another order than the output'),
 'error message on incompatible stride_fr': ('C16', 'incompatible stride_fr raised NameError-type failure while formatting the message'),
 'TensorFlow Scattering2D with pre_pad=True': ('C10', 'TensorFlow Scattering2D(pre_pad=True) rejected every input'),
 'public classes can be pickled': ('C23', 'pickle.dumps of kymatio.numpy.Scattering1D objects failed'),
 'Scattering2D objects can be copied': ('C23', 'copy/pickle of Scattering2D objects failed'),
 'HarmonicScattering3D objects can be pickled': ('C23', 'HarmonicScattering3D objects could not be pickled after a call'),
 'name of the exported class in the 3D': ('C23', 'kymatio.scattering3d.frontend.tensorflow_frontend.__all__ named a missing class'),
 'accept the stride that is consistent': ('C16', 'oversampling together with its consistent stride was rejected'),
 'scikit-learn get_params()': ('C20', 'get_params()/clone() raised or returned derived values'),
 'scikit-learn set_params()': ('C20', 'set_params() did not rebuild the filters'),
 'a rejected scikit-learn set_params': ('C20', 'a set_params() call that raises left the estimator half changed'),
 'scikit-learn Scattering2D.transform': ('C20', 'sklearn Scattering2D(pre_pad=True).transform rejected every input'),
 'Keras Scattering1D ignored': ('C19', 'Keras Scattering1D ignored max_order and oversampling'),
 'Keras Scattering1D.get_config': ('C19', 'Keras Scattering1D.get_config raised AttributeError'),
 'Keras Scattering1D.compute_output_shape': ('C19', 'compute_output_shape disagreed with the output (1-D)'),
 'Keras Scattering2D.compute_output_shape': ('C19', 'compute_output_shape disagreed with the output (2-D)'),
 'Keras Scattering2D with pre_pad=True': ('C19', 'Keras Scattering2D(pre_pad=True) rejected every input'),
 'Keras Scattering1D with a tuple Q': ('C19', 'a saved Keras Scattering1D with a tuple Q could not be loaded'),
 'Keras Scattering1D.compute_output_shape before': ('C19', 'compute_output_shape of an unbuilt Keras Scattering1D raised AttributeError'),
 'TensorFlow HarmonicScattering3D in graphs': ('C19', 'TensorFlow HarmonicScattering3D in a tf.function with unknown batch size raised'),
 'NumPy HarmonicScattering3D rejects': ('C16', "NumPy and JAX HarmonicScattering3D(method='anything') returned a result; the other frontends raise ValueError"),
 'order of JTFS paths in the list': ('C09', "JTFS format='time', out_type='list' in another order than the array"),
 'JTFS first-order coefficients with T=0': ('C04', "JTFS T=0, format='time': first order missing/averaged"),
 'origin of the 3D filters': ('C03', 'HarmonicScattering3D filters off-centre for odd volume sizes'),
 'JTFS with a non-integer F': ('C04', 'TimeFrequencyScattering(F=non-integer) crashed'),
 "TensorFlow T='global' with double": ('C10', "TensorFlow Scattering1D(T='global')(float64) raised"),
 "PyTorch JTFS with T='global'": ('C10', "PyTorch JTFS T='global', format='joint' raised or differed"),
 'PyTorch modulus of very small': ('C22', 'PyTorch Scattering1D or 2D of a float32 signal of amplitude 1e-22 (coefficients of order >= 1 vanish) or 1e20 (NaN)'),
 'Keras Scattering1D.meta()': ('C19', 'meta() and output_size() of a built Keras Scattering1D raised AttributeError'),
 "number of frequential rows of JTFS": ('C09', "JTFS format='joint', out_type='list' or 'dict': one frequential row more than meta() describes when n1_max is a multiple of the frequential stride"),
 'derivatives of the gradient of the PyTorch modulus': ('C15', 'NaN in torch.autograd.functional.jvp and in second derivatives of PyTorch scattering where a modulus is exactly zero'),
 'forward-mode derivatives of the TensorFlow 3D': ('C24', 'NaN in tf.autodiff.ForwardAccumulator derivatives of HarmonicScattering3D where a modulus is zero'),
 'PyTorch 1D and 3D scattering under torch.nn': ('C13', 'replicas of a PyTorch 1-D, joint time-frequency or 3-D module (torch.nn.DataParallel) running in threads used the filters of another replica'),
 'gradient of the rotation-covariant 3D modulus': ('C15', 'NaN gradient of HarmonicScattering3D at zero in PyTorch'),
}
EXTRA = os.path.join(ROOT, 'tools', 'open_findings.jsonl')
log = subprocess.run(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s'], capture_output=True, text=True).stdout
out = ['# Defects of the original tree. "fixed" entries are repaired in /repo and suppress nothing.']
for line in log.splitlines():
    h, _, s = line.partition(' ')
    if not s.startswith('fix: '):
        continue
    k = sorted((k for k in PROP if s[5:].startswith(k)), key=len)[-1:]
    assert len(k) == 1, (s, k)
    out.append('fixed: property=%s %s %s' % (PROP[k[0]][0], h, PROP[k[0]][1]))
if os.path.exists(EXTRA):
    out += open(EXTRA).read().splitlines()
open(os.path.join(ROOT, 'known_findings.jsonl'), 'w').write('\n'.join(out) + '\n')
