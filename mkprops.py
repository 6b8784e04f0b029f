"""writes properties.jsonl (kept in one readable place)"""
import json
U = 'src/utilities/utilities.cpp'; DU = 'src/dubins_state_space/dubins_state_space.cpp'; RS = 'src/reeds_shepp_state_space/reeds_shepp_state_space.cpp'
EK = 'src/filter/ekf.cpp'; HB = 'src/hc_cc_state_space/hc_cc_state_space.cpp'; HP = 'src/hc_cc_state_space/paths.cpp'; HCI = 'src/hc_cc_state_space/hc_cc_circle.cpp'
H = lambda n: 'src/hc_cc_state_space/%s.cpp' % n
ALLHC = [H(n) for n in ('cc00_dubins_state_space', 'cc0pm_dubins_state_space', 'ccpm0_dubins_state_space', 'ccpmpm_dubins_state_space', 'cc00_reeds_shepp_state_space', 'hc00_reeds_shepp_state_space', 'hc0pm_reeds_shepp_state_space', 'hcpm0_reeds_shepp_state_space', 'hcpmpm_reeds_shepp_state_space')]
P = []
def p(id, title, st, over, q, why, files, mech, obs):
    P.append(dict(id=id, title=title, statement=st, quantifier=dict(over=over, text=q), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=obs, hook_needed=None)))
p('C01', 'Dubins controls drive the vehicle exactly to the goal',
  'For every start pose, goal pose, curvature limit kappa>0 and driving direction, following the controls returned by the Dubins state space from the start ends at the goal position and heading (angles modulo 2*pi; error at most 1e-5 turning radii / 1e-5 rad). Every segment has sigma 0, curvature -kappa, 0 or kappa, and is driven in the configured direction only.',
  ['inputs', 'configurations'], 'all start and goal poses, all kappa > 0, forward-only and backward-only',
  'The tests sample random poses with kappa=1 and check the goal position only (not the heading), for one turning radius.',
  [DU], [('six Dubins words and their selection', DU + ' dubins*'), ('conversion to controls, reversal for backward driving', DU + ' get_controls')], ['get_controls'])
p('C02', 'Dubins distance is the length of the returned path and the shortest word',
  'For every pair of poses the Dubins distance equals the summed absolute arc length of the returned controls, and no feasible Dubins word (LSL, RSR, RSL, LSR, RLR, LRL) between the two poses is shorter.',
  ['inputs', 'configurations'], 'all start and goal poses, all kappa > 0, both driving directions',
  'Tests compare distance and path length on sampled poses with kappa=1 and never compare against the other words.',
  [DU], [('minimum over six words', DU + ' dubins()'), ('distance', DU + ' get_distance')], ['get_distance', 'get_controls'])
p('C03', 'Reeds-Shepp controls drive the vehicle exactly to the goal',
  'For every start pose, goal pose and curvature limit kappa>0, following the controls returned by the Reeds-Shepp state space from the start ends at the goal position and heading (angles modulo 2*pi; error at most 1e-5 turning radii / 1e-5 rad). Every segment has sigma 0 and curvature -kappa, 0 or kappa.',
  ['inputs', 'configurations'], 'all start and goal poses, all kappa > 0',
  'The tests sample random poses with kappa=1 and check the goal position only.',
  [RS], [('Reeds-Shepp word formulas with time-flip/reflection/backwards symmetries', RS + ' CSC..CCSCC'), ('conversion to controls', RS + ' get_controls')], ['get_controls'])
p('C04', 'Reeds-Shepp distance is the path length and the shortest word',
  'For every pair of poses the Reeds-Shepp distance equals the summed absolute arc length of the returned controls, and no word of the families CSC, CCC, CCCC, CCSC, CCSCC (with their reflected, time-flipped and reversed forms) whose canonical closed-form solution exists is shorter.',
  ['inputs', 'configurations'], 'all start and goal poses, all kappa > 0',
  'Tests compare distance and controls on samples with kappa=1 and never compare the words with each other.',
  [RS], [('running minimum over all words', RS + ' reeds_shepp'), ('distance', RS + ' get_distance')], ['get_distance', 'get_controls'])
p('C05', 'Motion primitives integrate the vehicle model exactly',
  'One integration step of any state space along a control moves the state along the exact solution of x\'=d cos(theta), y\'=d sin(theta), theta\'=d kappa, kappa\'=sigma in (unsigned) arc length for straight lines, circular arcs and clothoids, for either driving direction d and any sign of curvature and sharpness. Headings are equal modulo 2*pi. A sharpness of magnitude at most 1e-4, and on an arc a curvature of magnitude at most 1e-4, counts as zero.',
  ['inputs'], 'all states, all controls, all step lengths >= 0',
  'Tests only compose steps on planned paths with kappa=sigma=1 and discretization 0.1.',
  [U, DU, RS, HB], [('end_of_straight_line / end_of_circular_arc / end_of_clothoid', U), ('integrate_ODE', DU + ', ' + RS + ', ' + HB)], ['end_of_clothoid', 'end_of_circular_arc', 'end_of_straight_line', 'integrate_ODE'])
p('C06', 'Fresnel integrals are accurate and odd',
  'For every real argument the library\'s Fresnel sine and cosine integrals are within 1e-8 of the true integrals of sin(pi/2 u^2) and cos(pi/2 u^2), and both are odd functions.',
  ['inputs'], 'all real arguments', 'One test compares with tabulated values at fixed grid points; the arguments between and beyond the grid are not covered.',
  [U], [('Chebyshev expansions on [0,8] and [8,inf)', U + ' fresnel*')], ['fresnel'])
p('C07', 'Angle, frame and selection utilities obey their algebra',
  'twopify returns a value in [0,2pi) and pify one in [-pi,pi], both congruent to the argument modulo 2*pi; global-to-local and local-to-global frame changes are mutually inverse rigid motions; polar coordinates reproduce the point; sgn is -1 for negative and +1 otherwise; the index-of-minimum function returns the first index of a smallest entry for every array and size.',
  ['inputs'], 'all real arguments, all arrays', 'No unit test calls the utilities.',
  [U], [('twopify, pify, polar, point_distance, sgn, global_frame_change, local_frame_change, array_index_min', U)], ['utilities API'])
p('C08', 'Motion Jacobians are the exact derivatives of the motion model',
  'For every state, control and step length, the two Jacobians used by the covariance propagation equal the partial derivatives of the one-step motion with respect to the state (x, y, theta) and with respect to the two controls (arc length, curvature), for clothoids, arcs and straight lines; on a straight line the position is treated as independent of the curvature input.',
  ['inputs'], 'all states, controls and steps with the branch conditions of each primitive',
  'Tests compare with finite differences on sampled paths with kappa=sigma=1.',
  [EK, U], [('get_motion_jacobi', EK)], ['EKF::get_motion_jacobi'])
p('C09', 'Covariance prediction and update follow the filter equations',
  'For every belief, control, step and noise setting, prediction and update compute exactly the closed-loop filter equations: process covariance from the motion noise, Sigma_pred = F Sigma F^T + Q, Lambda_pred = (F-GK) Lambda (F-GK)^T, Kalman gain K = Sigma H^T (H Sigma H^T + R)^-1, Sigma_new = (I-LH) Sigma (I-LH)^T + L R L^T, Lambda_new = Lambda + L H Sigma, and covariance = Sigma + Lambda. Matrices that enter symmetric leave symmetric.',
  ['inputs', 'configurations'], 'all 4x4 covariances, states, controls, noise and controller parameters',
  'No existing test checks a covariance value.',
  [EK], [('predict, update, get_observation, get_motion_cov, get_controller_gain', EK)], ['EKF::predict', 'EKF::update'])
p('C10', 'Sampled paths start at the start, follow every control and are dense',
  'The path obtained by integrating any list of controls begins at the given start state, contains for each control its start state and then samples at arc-length steps of exactly the discretization except for a shorter last step, so the last sample of each control is the exact end of that control. Each sample carries the curvature and driving direction of the control at that arc length.',
  ['inputs', 'configurations'], 'all control lists, start states and discretizations > 0',
  'Tests check spacing and end points for paths produced with kappa=sigma=1 and discretization 0.1.',
  [DU, RS, HB], [('integrate', DU + ', ' + RS + ', ' + HB)], ['integrate', 'get_path'])
p('C11', 'The covariance path visits the same states and chains the filter',
  'Integration with covariance returns exactly the states of plain integration, starts with the given belief, and obtains each following belief from its predecessor by one prediction along the control with the same step followed by one update. A path between two states is the integration of the controls between them.',
  ['inputs', 'configurations'], 'all control lists, beliefs and discretizations > 0',
  'No existing test compares the two paths or checks belief values.',
  [DU, RS, HB], [('integrate_with_covariance, get_path, get_path_with_covariance', DU + ', ' + RS + ', ' + HB)], ['integrate_with_covariance', 'get_path_with_covariance', 'get_path'])
p('C12', 'Interpolation at t is the state at the fraction t of the arc length',
  'For every list of controls, interpolating at t in (0,1] gives the state reached after travelling the fraction t of the total absolute arc length, t<=0 gives the start and t>1 the end of the path; the returned curvature and driving direction belong to that point.',
  ['inputs', 'configurations'], 'all control lists, start states, t and discretizations',
  'Tests sample t in (0,1) on planned paths with kappa=sigma=1.',
  [DU, RS, HB], [('interpolate', DU + ', ' + RS + ', ' + HB)], ['interpolate'])
p('C13', 'Hybrid- and continuous-curvature turns connect the configurations they are given',
  'For every turning circle (left/right, forward/backward, regular/irregular) and every configuration on it, the controls of an HC turn, a CC turn (including elementary and degenerate turns), a circular turn and a straight line lead exactly from one configuration to the other in the requested order, with sharpness within the limit, and the reported turn length equals the summed absolute arc length of those controls.',
  ['inputs', 'configurations'], 'all circles, configurations on them, orders and directions; kappa, sigma > 0',
  'Tests sample turns with kappa=sigma=1 and check end position, limits and lengths within tolerances.',
  [HP, HCI], [('hc_turn_controls, cc_turn_controls, rs_turn_controls, straight_controls', HP), ('hc/cc/rs_turn_length, deflection', HCI)], ['*_turn_controls', 'HC_CC_Circle::*_turn_length'])
p('C14', 'Continuous-curvature Dubins controls reach the goal',
  'For every start and goal, curvature and sharpness limit and driving direction, the controls returned by each continuous-curvature Dubins state space (zero or maximum curvature at either end) lead from the start to the goal position and heading and start and end with the curvature that state space promises.',
  ['inputs', 'configurations'], 'all poses, kappa, sigma > 0, both directions, all four curvature boundary variants',
  'Tests check the end position for kappa=sigma=1 on sampled poses.',
  ALLHC[:4] + [HP], [('tangent-circle constructions per family and assembly of controls', ', '.join(ALLHC[:4]))], ['get_controls'])
p('C15', 'Hybrid-curvature Reeds-Shepp controls reach the goal',
  'For every start and goal and every curvature and sharpness limit, the controls returned by each hybrid-curvature Reeds-Shepp state space (zero or maximum curvature at either end) lead from the start to the goal position and heading and start and end with the curvature that state space promises.',
  ['inputs', 'configurations'], 'all poses, kappa, sigma > 0, all four curvature boundary variants',
  'Tests check the end position for kappa=sigma=1 on sampled poses.',
  ALLHC[5:] + [HP], [('tangent-circle constructions per family and assembly of controls', ', '.join(ALLHC[5:]))], ['get_controls'])
p('C16', 'Continuous-curvature Reeds-Shepp controls reach the goal',
  'For every start and goal and every curvature and sharpness limit, the controls returned by the continuous-curvature Reeds-Shepp state space lead from the start to the goal position and heading, starting and ending with zero curvature.',
  ['inputs', 'configurations'], 'all poses, kappa, sigma > 0',
  'Tests check the end position for kappa=sigma=1 on sampled poses.',
  [ALLHC[4], HP], [('tangent-circle constructions per family and assembly of controls', ALLHC[4])], ['get_controls'])
p('C17', 'State spaces with arbitrary boundary curvature reach the goal',
  'For every start and goal with curvatures within the limit, the controls returned by the continuous-curvature Dubins and the hybrid-curvature Reeds-Shepp state spaces for arbitrary boundary curvature lead from the start (pose and curvature) to the goal (pose and curvature), and the reported distance is the summed absolute arc length of the controls.',
  ['inputs', 'configurations'], 'all poses and curvatures |kappa_i| <= kappa, sigma > 0, both directions where applicable',
  'Tests check the end position for kappa=sigma=1 on sampled states.',
  [H('cc_dubins_state_space'), H('hc_reeds_shepp_state_space'), U], [('predict_state, choice of the boundary variant, adaptation of first/last control', H('cc_dubins_state_space') + ', ' + H('hc_reeds_shepp_state_space'))], ['get_controls', 'get_distance'])
p('C18', 'Curvature and sharpness stay within limits and curvature is continuous',
  'For every query, every point of every returned path has curvature of magnitude at most kappa and every segment sharpness of magnitude at most sigma; along continuous-curvature paths the curvature never jumps, and along hybrid-curvature paths it jumps only where the driving direction reverses.',
  ['inputs', 'configurations'], 'all poses, kappa, sigma > 0, all hybrid- and continuous-curvature state spaces',
  'Tests check curvature jumps on sampled paths with kappa=sigma=1 and discretization 0.1.',
  ALLHC + [HP], [('turn primitives and their concatenation', HP)], ['get_controls', 'get_path'])
p('C19', 'Distances of curvature-continuous state spaces equal the path length',
  'For every pair of states, the distance reported by each hybrid- and continuous-curvature state space with fixed boundary curvature equals the summed absolute arc length of the controls it returns for the same query.',
  ['inputs', 'configurations'], 'all poses, kappa, sigma > 0',
  'Tests compare on samples with kappa=sigma=1.',
  ALLHC + [HP], [('length computed with the path and turn lengths', ', '.join(ALLHC))], ['get_distance', 'get_controls'])
p('C20', 'Planning never leaks, double-frees or dereferences invalid memory',
  'In every query on every hybrid- or continuous-curvature state space each heap object created for intermediate configurations, circles and paths is released exactly once before the call returns, and no pointer is read after release, uninitialised or null.',
  ['inputs', 'histories'], 'all queries and all families that can win', 'The tests run without sanitizers and leaks do not fail them.',
  ALLHC + [HP], [('ownership by Path destructors and explicit deletes', HP + ', ' + ', '.join(ALLHC))], ['get_controls', 'get_distance'])
p('C21', 'Queries are pure: no state carries over between calls',
  'Every const query (distance, controls, path, integration, interpolation) leaves the state space object, its arguments and all global data unchanged, so the same query gives the same answer in every history of calls; only setting filter parameters changes later covariance results.',
  ['histories', 'inputs'], 'all sequences of calls on all state spaces', 'Tests never interleave queries to look for carried-over state.',
  [DU, RS, HB, EK, U], [('const interfaces without mutable members or static locals', 'all state spaces')], ['all query functions'])
open('properties.jsonl', 'w').write(''.join(json.dumps(x) + '\n' for x in P))
