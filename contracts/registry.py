"""Property -> contract module, driver files, assumptions."""
COMMON_ASSUMPTIONS = [
    'machine arithmetic treated as mathematical: double operations are the exact real operations, no rounding, no NaN/inf; decimal literals that are the nearest double of pi, 2pi, pi/2, sqrt(pi), 1/sqrt(2pi) denote the exact constants; finite values are below DBL_MAX',
    'libm functions (sin, cos, atan2, acos, asin, sqrt, floor, ceil, fmod, pow, fabs) satisfy their mathematical specification',
    'std::vector, std::pair, std::unique_ptr, std::min/max and Eigen fixed-size matrices behave as the contract headers in /verif/stubs',
    'assert() is compiled out (NDEBUG)',
]
TRUSTED = ['clang 18 front end and mem2reg', 'vcg (IR parser, symbolic executor, algebraic normaliser)', 'z3', 'contract headers in /verif/stubs', 'specification drivers in /verif/drivers']
REG = {
    'C01': dict(module='dubins', drivers=['dubins'], assumptions=['goal given in polar form around the start (every goal has one); headings relative to the bearing; kappa > 0']),
    'C02': dict(module='dubins', drivers=['dubins'], assumptions=['goal given in polar form around the start; kappa > 0; kappa*distance < 1e100']),
    'C03': dict(module='rs', drivers=['rs'], trusted=['contract of pify (C07)', 'existence of at least one word for every pose (Reeds-Shepp theorem)'], assumptions=['kappa > 0; goal given by its coordinates in the frame of the start, polar form around each word centre']),
    'C04': dict(module='rs', drivers=['rs'], trusted=['contract of pify (C07)'], assumptions=['kappa > 0; word lengths below 1e50']),
    'C05': dict(module='motion', drivers=['motion', 'sampling'], trusted=['contract of fresnel (odd, derivatives sin/cos of pi/2 u^2): discharged up to 1e-8 by C06'],
                assumptions=['integrate/integrate_with_covariance/interpolate are observed for one step with |delta_s| equal to the discretization, integrate_ODE for every step length and state; composition over steps and controls: C10-C12']),
    'C06': dict(module='fresnel', drivers=['fresnel'], assumptions=['evaluation of the Chebyshev sums in exact arithmetic; literals of the coefficient tables denote their shortest decimal']),
    'C07': dict(module='utils', drivers=['utils'], assumptions=['array_index_min is called with size >= 1 on an array of at least that size']),
    'C08': dict(module='ekf', drivers=['ekf'], trusted=['contract of fresnel (C06)'], assumptions=['output matrices are zero-initialised by the caller, as predict does']),
    'C09': dict(module='ekf', drivers=['ekf'], assumptions=['Sigma and Lambda are symmetric (beliefs); the innovation covariance Sigma + R is regular', 'motion Jacobians are arbitrary matrices here (their values: C08)']),
    'C10': dict(module='sampling', drivers=['sampling'], assumptions=['the control list is not empty; discretization > 0'], trusted=['contract of integrate_ODE: the exact motion, which composes over arc length (C05)']),
    'C11': dict(module='sampling', drivers=['sampling'], assumptions=['the control list is not empty; discretization > 0'], trusted=['contract of integrate_ODE: the exact motion, which composes over arc length (C05)', 'contract of EKF::predict, EKF::update: functions of belief, state, control, step (C09)']),
    'C12': dict(module='sampling', drivers=['sampling'], assumptions=['the control list is not empty; discretization > 0'], trusted=['contract of integrate_ODE: the exact motion, which composes over arc length (C05)']),
    'C13': dict(module='turns', drivers=['turns'], trusted=['contract of fresnel (C06)']),
}
_PA = ['goal given relative to the turning circles (every query has this form); the shortest family and circle pair are the ones array_index_min returns (C07)', 'minimum turning radius 1/kappa at least 1e-3',
       'a family whose length is not a number is never selected (IEEE comparisons with NaN are false)', 'families guarded by a tolerance of 1e-4 are exact at the centre of the tolerance; the error inside it is of the order of the tolerance',
       'paths of circle pairs that are not selected only contribute their length']
_PT = ['contracts of the turn primitives hc_turn_controls, cc_turn_controls, rs_turn_controls, straight_controls, empty_controls and of the turn lengths (C13)', 'contract of array_index_min (C07)', 'lemma L0: the turning circle of a clothoid has r cos mu > 1/kappa, sin mu > 0']
REG.update({
    'C14': dict(module='planner', drivers=['planners'], trusted=_PT, assumptions=_PA),
    'C15': dict(module='planner', drivers=['planners'], trusted=_PT, assumptions=_PA),
    'C16': dict(module='planner', drivers=['planners'], trusted=_PT, assumptions=_PA),
    'C18': dict(module='planner', drivers=['planners', 'turns'], trusted=_PT, assumptions=_PA),
    'C19': dict(module='planner', drivers=['planners'], trusted=_PT, assumptions=_PA),
})
REG['C20'] = dict(module='planner', drivers=['planners'], trusted=_PT[1:], assumptions=_PA)
REG['C21'] = dict(module='planner', drivers=['planners'], trusted=_PT[1:], assumptions=_PA)
NA = {}
