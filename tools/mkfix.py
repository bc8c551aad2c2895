import os, subprocess
lines=subprocess.check_output(['git','-C','/repo','log','--reverse','--format=%h %s']).decode().splitlines()
M={'irfs altered the given':'C24','kept the given initial':'C24','altering returned parameters':'C24','set_par with given npar':'C24','failing decompositions':'C23','obs left the model':'C23','gen_sys_from_dict failed when':'C22','extract repeated':'C13','irfs compared imposed':'C05','durations beyond':'C05','box_check':'C21','gfevd ':'C20','k_map ignored':'C19','post_mean failed':'C18','nhd ':'C13','extract failed':'C13','extract left':'C12','modified harmonic':'C12','info failed':'C09','stored description':'C09','linear filter was not':'C10','reduced-form filter failed':'C10','parameters that are all zero':'C05','affects no other':'C02','rank condition':'C02','lagged variables in the constraint':'C01','lag of a forward':'C01','leads of three':'C01','without control':'C01','without endogenous':'C02','loadings are':'C02','mistook a string':'C06','get_par and get_cov':'C06','rejected parametrization':'C06','traj was off':'C19','traj and k_map':'C19','single state vector':'C17','intervals of observables':'C17','o_func with given':'C17','small l_max':'C03','calling irfs for models':'C16','gen_sys_from_dict without':'C16','gen_sys_from_dict altered':'C16','without a pool':'C12','load_rdict':'C09','contain lags':'C01','k_max is zero':'C04','without a source':'C05','mislabelled':'C05','before the first shock':'C05','cached model':'C08','without data':'C09','tune was not given':'C14','mode found by mcmc':'C14','create initial walkers':'C14','get_sample':'C18','load_data':'C15'}
out=[]
for l in lines:
    h,s=l.split(' ',1)
    if not s.startswith('fix: '): continue
    p=[v for k,v in M.items() if k in s]
    assert p,s
    out.append('fixed: property=%s %s %s'%(p[0],h,s[5:]))
open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'KNOWN_FINDINGS.txt'),'w').write('\n'.join(out)+'\n')
