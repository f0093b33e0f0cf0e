"""Single source of properties.jsonl and MANIFEST.json:  python3 tools/spec.py  rewrites both."""
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mechanism, technique, note, claimed=True, na=None, state=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mechanism=mechanism,
                  technique=technique, note=note, claimed=claimed, na=na, state=state))


NUM = ' Exploration: only the executions generated by the seed are judged; agreement is up to the stated numerical tolerance.'

prop('C01', 'Potential derivatives are the derivatives of the documented potential',
     'For every inflaton potential the library offers (including those with a bump, step or dip feature), any valid parameters and any '
     'field value in its domain, the potential has its documented closed form and the first to fourth derivatives it reports are the true '
     'derivatives of that form. Scalars and arrays of field values give the same numbers.',
     ['inputs', 'configurations'], 'All potential families, all valid parameters, all field values on both sides of the minimum and near features.',
     'Tests compare a few field values of default parameters by low-accuracy finite differences; features and higher derivatives are hardly sampled.',
     ['primpy/potentials.py'], 'Each potential class implements the potential and four derivatives as separate hand-written formulas.',
     'runtime monitor: return values of the real potentials judged online by an independent Taylor-arithmetic (jet) oracle over random workloads',
     'Random parameters and field values of every family.' + NUM)

prop('C02', 'Slow-roll parameters, inverse potential and end of inflation of potentials',
     'For every potential without a feature, the potential slow-roll parameters of first to fourth order equal the logarithmic flow of the '
     'previous one along the slow-roll trajectory, and the reported slow-roll end of inflation is a field value where the first parameter is one. '
     'Inverting the potential returns the field value on the inflating side whose potential energy is the one asked for, and the Hubble slow-roll '
     'parameters derived from them agree with the true ones up to the order of the slow-roll expansion.',
     ['inputs', 'configurations'], 'All non-feature potential families, all valid parameters and field values on the inflating side.',
     'Tests check a handful of field values for the default parameters of each family.',
     ['primpy/potentials.py'], 'Generic slow-roll formulas in the base class overridden with closed forms per family.',
     'runtime monitor: return values judged by an independent jet oracle (flow derivatives, round trips, roots)',
     'Random parameters and field values.' + NUM)

prop('C03', 'Slow-roll e-fold, tilt, ratio and amplitude relations are consistent',
     'Converting a field value to remaining slow-roll e-folds and back returns it, and the number of e-folds is the integral of the potential over its slope up to the slow-roll end of inflation. '
     'Where a family relates the number of e-folds to the spectral index or tensor ratio, both directions are inverses and agree with the leading slow-roll prediction for large e-fold numbers. '
     'A potential built from a scalar amplitude and a pivot gets the scale for which its leading slow-roll amplitude at that pivot is the requested one, whichever way the pivot was given.',
     ['inputs', 'configurations'], 'All non-feature families, all valid parameters, pivots and amplitudes.',
     'Tests verify single values for default parameters.',
     ['primpy/potentials.py'], 'Closed-form and tabulated slow-roll conversions per family and amplitude normalisation in the constructor.',
     'runtime monitor: round trips and quadrature oracle over random workloads',
     'Random parameters.' + NUM)

prop('C04', 'Every background solution satisfies the Friedmann and field equations',
     'Along every solution returned for either time variable and any spatial curvature, the scalar field, its velocity, the scale factor, cosmic and conformal time '
     'are those of the Friedmann and Klein-Gordon equations for the given potential and initial state, to the requested solver accuracy. '
     'The derived quantities (Hubble rate, equation of state, curvature density, comoving Hubble radius) are the ones of that state at every sample.',
     ['inputs', 'configurations'], 'All potentials, curvatures, initial states, time variables, integration methods.',
     'Tests integrate a few quadratic and Starobinsky cases and compare a few end values or array lengths.',
     ['primpy/time/inflation.py', 'primpy/efolds/inflation.py', 'primpy/equations.py', 'primpy/inflation.py', 'primpy/solver.py'],
     'Hand-coded right-hand sides in two time variables, with a slot table mapping variables to rows.',
     'runtime monitor hooked on the right-hand side (every call of the integrator judged online) plus trajectory monitor against an independent integrator',
     'Random scenarios; every derivative evaluation of the real run is judged.' + NUM)

prop('C05', 'Cosmic-time and e-fold runs describe the same universe',
     'Starting from the same physical state, integrating in cosmic time and integrating in e-folds give the same field, velocity, Hubble rate, conformal and cosmic time '
     'as a function of e-folds, the same duration of inflation and, after the same calibration, the same wavenumbers, approximate spectra and primordial power spectra.',
     ['inputs', 'configurations'], 'All potentials, curvatures and kinetically dominated initial states.',
     'Tests compare the two implementations for one potential and one set of initial conditions with loose tolerance.',
     ['primpy/time', 'primpy/efolds', 'primpy/inflation.py'], 'Two independent implementations of background and perturbation equations share the post-processing.',
     'runtime differential monitor over paired executions of the two real implementations',
     'Random scenarios; each is run in both time variables.' + NUM)

prop('C06', 'Background derivative helpers return the true derivatives',
     'For every background state in either time variable and any curvature, the reported first to third derivatives of the field, derivatives of the Hubble rate '
     'and the four Hubble-flow and field-flow slow-roll parameters are the true derivatives along the solution through that state.',
     ['inputs', 'configurations'], 'All states inside and outside slow roll, all curvatures, all potentials, both time variables.',
     'Tests compare the two time variables against each other on one or two runs, and not with curvature.',
     ['primpy/time/inflation.py', 'primpy/efolds/inflation.py', 'primpy/inflation.py'], 'Hand-differentiated formulas.',
     'runtime monitor: return values on recorded and random states judged by Taylor expansion of the exact flow',
     'Random states.' + NUM)

prop('C07', 'Events are genuine, complete and stop the integration when terminal',
     'Every recorded event lies on the solution and is a zero crossing in the requested direction of the condition it stands for, every such crossing of the solution is recorded '
     'under its own name with matching state values, and none is recorded twice. A terminal event ends the solution at the event, a non-terminal one does not.',
     ['inputs', 'configurations'], 'All event kinds, directions, thresholds, orders in the event list, both time variables.',
     'Tests check that some events fire on a handful of runs.',
     ['primpy/events.py', 'primpy/solver.py', 'primpy/equations.py'], 'Event objects with naming by direction and terminality; results re-keyed into dictionaries.',
     'runtime monitor: offline trace checker over the recorded event log against crossings of an independent dense reference solution',
     'Random scenarios and event lists.' + NUM)

prop('C08', 'Inflation start, end, duration and mask are right or announced as unknown',
     'When a run contains the start and end of accelerated expansion, the reported start, end, duration and end state are those of the transition points, and the inflating samples are exactly the ones in between. '
     'When a start or end is not determined by the run, the affected results are not-a-number and a warning tells the true reason; no other value is invented.',
     ['inputs', 'configurations'], 'All scenarios that do or do not start, inflate, end, collapse; all event lists.',
     'Tests look at a few complete runs and two or three incomplete ones.',
     ['primpy/inflation.py', 'primpy/time/inflation.py', 'primpy/efolds/inflation.py', 'primpy/exceptionhandling.py'], 'Post-processing of event dictionaries with defaults and warnings.',
     'runtime monitor: end-of-run state assertions against an independent reference, with warning capture, under truncated and hostile event lists',
     'Random complete and truncated scenarios.' + NUM)

prop('C09', 'Initial conditions deliver the requested state',
     'Slow-roll initial conditions give the slow-roll velocity and inflation-start initial conditions give a state exactly at the onset of acceleration, with the field value, start time and e-folds or initial curvature asked for, '
     'consistently for the state vector, the reported attributes and the start of the solution. Contradictory or impossible requests are refused or warned about rather than silently altered.',
     ['inputs', 'configurations'], 'All potentials, curvatures, both time variables, all ways of fixing the initial scale factor.',
     'Tests check a few fixed numbers.',
     ['primpy/initialconditions.py'], 'Constructor converts between e-folds, curvature density and state vector.',
     'runtime monitor: state-vector assertions against own formulas', 'Random states.' + NUM)

prop('C10', 'Shooting initial conditions hit their targets',
     'Initial conditions that ask for a total number of e-folds of inflation, or for the e-folds after horizon exit of the pivot together with a present-day curvature and Hubble parameter, '
     'produce a run that has the requested values to the accuracy of the search, for either time variable and any bracket of field values, in either order, with too little inflation at one end and too much at the other.',
     ['inputs', 'configurations'], 'All potentials, targets, curvatures, brackets.',
     'Tests check a few targets for one or two potentials.',
     ['primpy/initialconditions.py'], 'Root finding over repeated full background integrations.',
     'runtime monitor: targets re-measured on the resulting run and by an independent reference', 'Random targets.' + NUM)

prop('C11', 'Calibration puts the pivot scale where it was asked to be',
     'After calibration the number of e-folds of inflation before and after pivot horizon exit add up to the total, the pivot wavenumber crosses the comoving Hubble radius at the recorded exit, and every wavenumber and length of the run equals the '
     'comoving Hubble rate at the same sample in units of inverse megaparsec, for flat and curved universes. Today\'s scale factor, curvature radius and curvature density are consistent with each other and with the initial curvature, and a requested spectral index is the one obtained after calibration.',
     ['inputs', 'configurations'], 'All runs, curvatures, pivot placements, Hubble parameters, calibration methods.',
     'Tests verify selected identities for a few cases.',
     ['primpy/inflation.py'], 'Multiple calibration routes writing many interdependent attributes.',
     'runtime monitor: conservation identities over the calibrated state, judged with own unit conversion and reference solution', 'Random scenarios.' + NUM)

prop('C12', 'Reheating bookkeeping is self-consistent',
     'For every calibrated run the reheating duration, equation of state, final energy density and relativistic degrees of freedom satisfy the energy-scaling and entropy-conservation relations to today, '
     'and specifying any sufficient subset reproduces the same universe as any other subset. Instantaneous reheating is the limit of zero duration.',
     ['inputs', 'configurations'], 'All runs, all sufficient subsets of reheating parameters, all curvatures.',
     'Tests cover one subset for one run; curved universes are compared only with themselves.',
     ['primpy/inflation.py', 'primpy/reheating.py', 'primpy/parameters.py'], 'Case distinction over which reheating parameters are given.',
     'runtime monitor: redundancy (round-trip) checks between executions with different parametrisations and own entropy formula', 'Random scenarios.' + NUM)

prop('C13', 'Results do not depend on the calibration and query history',
     'After any sequence of calibrations and queries on one run, every quantity equals what a fresh run calibrated once with the last settings reports. '
     'Querying a spectrum or derived parameter never changes any other result.',
     ['histories'], 'All sequences of calibrations and queries.',
     'Tests calibrate each run once, or only repeat the same calibration.',
     ['primpy/inflation.py'], 'Results are cached as attributes of the run object, and calibration can be repeated.',
     'runtime monitor: state digest after random operation histories compared with a fresh single-calibration execution', 'Random histories.')

prop('C14', 'Approximate power spectra are expansions of the exact spectra',
     'On a background in slow roll, each approximation method of order n reports scalar and tensor spectra that differ from the exact spectra of that background by terms of order n+1 in the Hubble-flow parameters '
     '(the ARBDS expansion with the fourth flow parameter taken as zero), and therefore agree with each other and with the numerically integrated spectrum to that accuracy. '
     'The amplitudes, spectral indices, runnings and tensor-to-scalar ratio reported for a method are the values and logarithmic derivatives of the spectra of that method at the pivot scale, whatever the pivot scale and the calibration.',
     ['inputs', 'configurations'], 'All runs in slow roll, all methods and orders, all pivots.',
     'Tests compare approximations to loosely fitted values on few runs.',
     ['primpy/inflation.py'], 'Long hand-typed coefficient formulas, spline fits in log-log space.',
     'runtime monitor: reported spectra judged order by order by an independent exact integration of the modes on the same background; own differentiation of the returned spectra', 'Random scenarios, flat universes only.' + NUM)

prop('C16', 'Perturbation equations and vacua are those of the gauge-invariant theory',
     'For any background, curvature and wavenumber, the frequency and damping handed to the oscillator solver are those of the gauge-invariant scalar and tensor perturbation equations on that background, in either time variable, '
     'and each vacuum choice has the canonical normalisation.',
     ['inputs', 'configurations'], 'All backgrounds, curvatures, wavenumbers, vacua, both time variables.',
     'Tests check scalings between the two time variables for a few modes.',
     ['primpy/perturbations.py', 'primpy/time/perturbations.py', 'primpy/efolds/perturbations.py'], 'Hand-derived curved-space Mukhanov-Sasaki equation.',
     'runtime monitor: coefficients on recorded states judged by an independent Newtonian-gauge evolution; Wronskian conservation monitor', 'Random scenarios.' + NUM)

prop('C17', 'Numerical power spectra are those of independently integrated modes',
     'For every background, curvature, wavenumber and vacuum, the scalar and tensor power spectra returned agree with a direct integration of the mode equations on the same background, and do not depend on '
     'how the modes were grouped, ordered or sampled, on the time variable, or on modes that were requested alongside.',
     ['inputs', 'configurations'], 'All backgrounds, curvatures, wavenumbers, vacua, batch compositions.',
     'Tests compare one or two modes with stored numbers or approximate amplitudes.',
     ['primpy/oscode_solver.py', 'primpy/perturbations.py'], 'WKB/Runge-Kutta stepping solver with two basis solutions combined to the vacuum.',
     'runtime monitor: returned spectra judged by direct integration of the modes with an independent solver, metamorphic batch monitors', 'Random scenarios.' + NUM)

prop('C18', 'Big-bang evolution is the standard cosmology of its inputs',
     'The Hubble rate, comoving Hubble horizon, conformal time and curvature density after inflation are those of the Friedmann equation with the given present-day parameters at every redshift and in every supported unit. '
     'The dividing lines between universes with and without a big bang or an infinite future, the e-folds of nucleosynthesis and the reheating relations follow from the same equation, and impossible inputs are refused.',
     ['inputs', 'configurations'], 'All present-day parameter sets, scale factors, units.',
     'Tests check few values in one unit.',
     ['primpy/bigbang.py', 'primpy/units.py', 'primpy/parameters.py'], 'Stand-alone functions with unit switches and quadrature.',
     'runtime monitor: return values judged by own Friedmann formula and quadrature', 'Random cosmologies.' + NUM)

prop('C19', 'Cobaya theory wrappers return the primordial spectrum they are parametrised by',
     'For every parametric spectrum and any allowed combination of its parameters, the scalar and tensor spectra provided to the sampler are the documented functions of wavenumber (oscillation and cutoff factors multiply both), '
     'with omitted parameters at their defaults, the tensor tilt from the consistency relation unless given, and contradictory points refused, whichever points were evaluated before. '
     'The slow-roll variants provide the spectra and derived parameters of the background they integrate, with the requested amplitude and the requested e-folds, spectral index or reheating.',
     ['inputs', 'configurations'], 'All parameter combinations and values.',
     'The existing tests do not exercise the wrapper at all.',
     ['cobaya_wrapper'], 'Theory classes computing spectra from sampled parameters.',
     'runtime monitor: the real theory components driven with random parameter points, returned spectra judged by own formulas', 'Random parameter points.' + NUM)

prop('C20', 'Runs are repeatable, independent of each other and leave inputs alone',
     'Running the same computation again, after or concurrently with any other computation in the same process, returns bit-identical results, and no call alters its inputs, the objects it was given or the process state.',
     ['schedules', 'histories'], 'All interleavings and orders of independent computations.',
     'Tests run each computation once in a fixed order in one thread.',
     ['primpy/equations.py', 'primpy/solver.py', 'primpy/inflation.py', 'primpy/perturbations.py', 'primpy/potentials.py'], 'Mutable equation objects, class-level tables and cached interpolators.',
     'runtime monitor: digests of inputs, objects and results over stressed thread schedules and permuted histories', 'Random schedules, aggressive thread switching.')

prop('C21', 'The solver returns any system of equations with correct bookkeeping',
     'For any user-defined system of equations, the solution rows, named variables, event tables and derived accessors refer to the variables they are named after, at the times they belong to, and agree with a direct integration by the underlying integrator with the same settings.',
     ['programs', 'inputs'], 'All user-defined systems with any number, naming and order of variables, any events.',
     'Tests use one harmonic-oscillator-like system.',
     ['primpy/equations.py', 'primpy/solver.py'], 'Name-to-row table used by states, solutions and event arrays.',
     'runtime monitor: solutions of randomly generated systems judged by closed-form solutions and direct scipy integration', 'Random systems.' + NUM)

prop('C23', 'Backward continuation and borrowed calibration reproduce the same universe',
     'Integrating backwards (or forwards, in either time variable) from a state of a forward run retraces the same trajectory: field, velocity, Hubble rate, time and conformal time agree at the same number of e-folds, the run stops at the requested e-folds or value of the independent variable, and integrating forwards again returns to the starting state. In flat universes such a continuation can borrow the calibration of the forward run (background=..., with the matching N_star; anything else is refused with ValueError): it then has the same scale factor today, calibrated e-folds, comoving Hubble horizon and pivot, and the same wavenumber at the same number of e-folds for its samples inside of inflation, and the run it borrowed from is unchanged. Conformal time before inflation extends the conformal_time_ratio accordingly.',
     ['inputs', 'configurations'], 'All runs, curvatures, both time variables, all starting points and directions.',
     'Tests do this for one or two cases without comparing trajectories.',
     ['primpy/inflation.py', 'primpy/solver.py', 'primpy/time/inflation.py', 'primpy/efolds/inflation.py', 'primpy/bigbang.py'], 'Same solver with decreasing independent variable and calibration copied from another run.',
     'runtime differential monitor: continuations of executions joined on e-folds with each other and with own integration', 'Random scenarios; backward runs at most 3 e-folds (the slow-roll attractor amplifies errors backwards), away from almost static universes and, in e-folds, from deep kinetic domination.' + NUM)


def main():
    have = {f[:-3].upper() for f in os.listdir(os.path.join(V, 'rv', 'checks')) if f.startswith('c') and f.endswith('.py')}
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                                'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'],
                                'anchors': {'files': p['files'], 'mechanism': [{'name': p['mechanism'], 'where': ', '.join(p['files'])}]}}) + '\n')
    m = {'version': 1, 'setup_cmd': 'python3 tools/setup.py', 'checks': [], 'not_applicable': [],
         'notes': 'All checks: ./check <id> [--tier quick|thorough] [--seed n] [--replay file] [-v].  No hooks in /repo; instrumentation '
                  'is attached from outside (subclassing, wrapped callables, LD_PRELOAD padding shim).'}
    for p in P:
        if p['claimed'] and p['id'] in have:
            m['checks'].append({'property': p['id'], 'quick_cmd': './check %s --tier quick' % p['id'],
                                'thorough_cmd': './check %s --tier thorough' % p['id'], 'technique': p['technique'],
                                'level': 'exploration', 'level_note': p['note']})
        else:
            m['not_applicable'].append({'property': p['id'], 'reason': p['na'] or 'check not built yet'})
    with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')
    for p in P:
        n = p['statement'].count('. ') + 1
        if n > 3 or len(p['title']) > 80:
            print('CHECK', p['id'], n, len(p['title']))


main()
