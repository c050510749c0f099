for p in ('C01', 'C02', 'C03', 'C04', 'C08', 'C09', 'C10', 'C18'):
    add(p, WS)
add('C15', 'Bounded proof: dykstra is executed on symbolic iterates with arbitrary projector outputs (all values) and on parametric constraint families; '
    'bounds in the evidence. Larger n/p/sweeps and non-linear families are outside.')
add('C07', 'Bounded proof over arguments and parameter values (symbolic numbers, all keys, wrong types); whole runs with boundary parameter values are decided by z3 per path. '
    'Values outside the listed boundary sets in whole runs, n>2 and throw_error_on_nans are outside.')
add('C16', 'Bounded proof: the real Model fitting/Lagrange/base-shift code over all residual values and shifts on concrete point geometries (n<=3), and over arbitrary points for n=1; '
    'histories of <=4 operations. LAPACK factors of concrete matrices are trusted up to 1e-9*cond.')
add('C17', 'Bounded proof: the real Model bookkeeping under histories of <=5 arbitrary operations with symbolic residuals/steps, against a shadow model. Longer histories are outside.')
add('C12', 'Bounded proof: trsbox is executed symbolically - exhaustively for n=1, per explored path for one-parameter families (gradient direction or scale, radius, bound) with n=2,3; '
    'final clipping decided bit-precisely in double arithmetic. Exact real arithmetic elsewhere; unexplored paths and branches the solver could not decide are reported in the evidence.')
add('C20', 'Bounded proof: to_dict/from_dict/__str__/replace_nan_with_none executed on result objects whose every number is an arbitrary IEEE double (bit-precise), all shapes within the bounds, '
    'and on the results of symbolic whole runs. json text itself is modelled (replays use the real json module). Known finding: infinities are not strict JSON.')
add('C13', 'Bounded proof: the real step solvers are executed symbolically - exhaustively for the 1-D box geometry step, per explored path on one-parameter families for n=2,3, with arbitrary projector outputs for the convex solvers and arbitrary models for the regularised step. '
    'Exact real arithmetic; unexplored paths are reported in the evidence.')
add('C14', 'Bounded proof: the real initialisation code on symbolic start points, bounds, radius and residuals, and the direction generators on symbolic bounds/lengths/random numbers; conditioning decided from exact structure of the set built. n>3 only with one or two symbolic coordinates.')
add('C19', 'Bounded proof by self-composition: every symbolic whole run is repeated under another global random state and all points/results compared; the subproblem solvers run with a global generator whose use is an error; caller data compared afterwards. Bounds as in the whole-solve checks.')
add('C11', 'Bounded proof: over symbolic whole runs (all residual values, concrete geometry) the returned Jacobian is compared with an independent fit through the evaluations it names; linear in the residuals, so decided for all values. Bounds as in the whole-solve checks.')
add('C05', 'Bounded proof per parametric family: complete solver runs (real subproblem solver, default budget) executed symbolically with a symbolic right-hand side or start (n=1), or a symbolic residual scale and translation / unit of length (fixed integer instances, n<=4; thorough n<=5), '
    'against an active-set oracle; coefficients of the n>=2 families carry double rounding. Arbitrary (A, b) in several symbolic unknowns at once is outside.')
add('C06', 'Bounded proof per parametric family: complete regularised solver runs executed symbolically with a symbolic residual scale and translation on fixed instances (n<=2; thorough n<=3), L1/L2, boxes, scaling, symbolic argsh/argsprox; oracle: independent proximal gradient. '
    'Arbitrary (A, b) with several symbolic unknowns is outside.')
