"""Writes known-findings.json from the fix: commits of /repo."""
import json, os, subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = {
 '937070a': ('C09', 'sample_limit=None (the LUCB default) raised TypeError instead of meaning unlimited'),
 '2012dc4': ('C08', 'LUCB select_arms failed or sampled one arm twice when estimates or bounds tied'),
 '3396535': ('C07', 'successive elimination eliminated the leading arm itself (zero-width interval) and could return no arm'),
 '302f03d': ('C10', 'arm.reset left the confidence interval of the previous run in place'),
 '16136a6': ('C14', 'with stable_splits=False every update discarded the data seen before'),
 'e9da7ca': ('C14', 'BootstrapArm.get_num_units stayed 0, so fixed datasets were re-read from the start'),
 'e74dfbe': ('C14', 'VarianceEstimatorArm.update assigned to the read-only property name var_est and always raised'),
 'd74759c': ('C17', 'a rejected ExpData.append had already replaced the covariates'),
 '8a98c3c': ('C27', 'DataGenerator.generate passed the column count as dtype and raised'),
 '93919d7': ('C27', 'LinearDataGenerator validated one noise draw and used another'),
 'bd778a3': ('C19', 'TabularCPD.fit kept x/z values of earlier fits in its support'),
 '9f8a79d': ('C19', 'TabularCPD rows did not sum to one / fell below the minimum after smoothing'),
 '1352acd': ('C19', 'TabularCPD.predict added zero entries to the fitted table'),
 'c59069f': ('C21', 'front-door f_1 looked up one coordinate of z instead of z'),
 '0d0a4f0': ('C23', 'LinearParameterBinaryTreatment.fit raised on data with a single treatment group'),
 '6176d0d': ('C23', 'LinearParameterBinaryTreatment never reported that it had been fit'),
 '213cc39': ('C10', 'LinearRegressionParameter.reset was a no-op, keeping the fitted model'),
 'e78437c': ('C25', 'SCM.compute_treatment_effect raised and left the treatment distribution replaced'),
 'd93f910': ('C26', 'categorical_conditioning removed the index variable from the caller\'s parent list'),
 '1bb5eb4': ('C26', 'the linear distributions raised UFuncTypeError when the first term was an integer array'),
 '44edf5b': ('C26', 'add_gaussian_noise raised for the documented (1, 1) covariance of a one-dimensional variable'),
 'ec1f920': ('C28', 'section 5 arms selected columns that did not match the covariate order of the SCM'),
 '6d9a940': ('C29', 'get_section_5_2_cpds drew parameters from the global random state although a seed was given'),
}
log = subprocess.run(['git', '-C', '/repo', 'log', '--format=%H %s'], capture_output=True, text=True).stdout.splitlines()
fixed = []
for l in log:
  h, s = l.split(' ', 1)
  if s.startswith('fix:'):
    p, w = P[h[:7]]
    fixed.append(f'fixed: property={p} {h[:12]} {w}')
fixed.reverse()
json.dump({'open': [], 'fixed': fixed}, open(os.path.join(HERE, 'known-findings.json'), 'w'), indent=1)
print(len(fixed))
