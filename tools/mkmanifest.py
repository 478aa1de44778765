import json
T={
'C01':('online comparison of every evaluation with an extended-precision reference interpolant, on generated grids/points','exploration'),
'C02':('reference-model monitor over all extrapolation modes and calling conventions, hostile outside points','exploration'),
'C03':('invariant monitor on filtered coefficients (node reproduction, end conditions, dense reference solve)','exploration'),
'C04':('reference-model monitor (B-spline weights, full weight matrix, scipy natural spline), compiled and interpreted kernels','exploration'),
'C05':('reference-model monitor of requested derivatives and their order, in/outside the grid','exploration'),
'C06':('differential monitor: one logical request through every calling convention, Python / jitted / guvectorized','exploration'),
'C07':('reference-model monitor of interp/mlinterp in every argument form','exploration'),
'C08':('memory sanitizers for JIT code: guard pages, red zones, bounds-checked recompilation, hostile IEEE coordinates','exploration'),
'C09':('state monitors: digests of inputs and surrounding buffers, canaries and poisoned outputs, storage-overlap checks','exploration'),
'C10':('event-log monitor: results of equal calls compared across repeats, histories, threads, nogil stress and processes','exploration'),
'C11':('model-based history monitor of spline objects with rejected updates and caller-side mutation','exploration'),
'C12':('reference-model monitor of values and gradients, compiled and interpreted kernels, gradient weight tensors','exploration'),
'C13':('reference-model monitor of Hermite interpolation (extended precision), scalar/vector/jitted forms','exploration'),
'C14':('monomial-identification monitor (prime evaluation) and reference bases for all degrees and forms','exploration'),
'C15':('model-based history monitor of fits, damping and derivatives','exploration'),
'C16':('structural monitor of grids against an independent sparse-grid construction','exploration'),
'C17':('model-based history monitor of Smolyak interpolation against reference Chebyshev bases','exploration'),
'C18':('reference enumeration monitor and accept/reject monitor of grid constructors','exploration'),
'C19':('reference monitor (scipy) plus sign/support/partition monitors','exploration'),
'C20':('metamorphic monitor: every accepted representation (number type, container, memory layout) of the same numbers gives the result of plain doubles','exploration'),
'C21':('metamorphic monitor: pairs of calls related by a change of units, of the data, of the axes or of the batch must have results related in the same way','exploration'),
'C22':('reference renderer monitor over generated templates, accept/reject monitor with error positions','exploration'),
'C23':('accept/reject monitor of unsupported requests, with the supported requests compared before and after refusals','exploration'),
'C24':('monitor of process state, output, references, runtime allocation statistics, memory growth and compilations around calls','exploration'),
'C25':('lockstep monitor: copies and pickles against the original and against objects that replay the history, in and across processes','exploration'),
}
N={
'C08':'No out-of-bounds access was observed on the generated calls under three independent detectors (PROT_NONE pages adjacent to arrays, sentinel red zones, numba bounds checking). Trusts mprotect and numba code generation; only consistently shaped arguments are driven.',
'C10':'Results of equal calls agreed on all observed histories, interleavings and processes. Schedules are sampled (tiny switch intervals, barriers, nogil parallelism), not enumerated.',
}
D='Held on every generated case of the run (counts and samples in the evidence file). Exploration, not proof: reach comes from the generators; agreement is up to the stated rounding tolerance.'
checks=[dict(property=p,quick_cmd='./check.sh %s quick'%p,thorough_cmd='./check.sh %s thorough'%p,evidence_file='evidence/%s.json'%p,technique='runtime monitoring: '+t,level=l,level_note=N.get(p,D)) for p,(t,l) in T.items()]
json.dump(dict(version=1,setup_cmd='mkdir -p evidence replays && /opt/venv/bin/python -c "import numba, numpy, scipy"',checks=checks,not_applicable=[],
 notes='No hooks: the monitors wrap the public API and numba environment switches (NUMBA_BOUNDSCHECK, NUMBA_DISABLE_JIT). Known findings and fixes: known_findings.json.'),open('/verif/MANIFEST.json','w'),indent=1)
