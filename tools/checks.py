# One entry per claimed property: how it is built, run and described in the evidence.
CHECKS = {}
def check(cid, level, parts, rule, bounds='', assumptions=(), **kw):
    for p in parts:
        p.setdefault('mode', 'plain')
        p.setdefault('libs', ['*'])
    CHECKS[cid] = dict(level=level, parts=parts, rule=rule, bounds=bounds, assumptions=list(assumptions), **kw)

LOOP_ASSUME = ['sampler, hypothesis generator and scores are replaced by a scripted problem; the loop and the base-class '
               'selection/counting code are the real ones']
check('P01', 'model_checking', [dict(harness=['ransac.cpp'], libs=[], args=['--what', 'result'])],
      rule='one evaluation = one complete answer sequence of the environment (no sample / generation fails / hypothesis with one of all '
           'inlier masks) over one or two runs of the same object; distinct = distinct (configuration, sequence, run); states = states of '
           'the reference loop (hypotheses seen, best count, best index, failures)', assumptions=LOOP_ASSUME)
check('P02', 'model_checking', [dict(harness=['ransac.cpp'], libs=[], args=['--what', 'stop'])],
      rule='as P01; the oracle replays the documented stopping rule over the observed answers', assumptions=LOOP_ASSUME)
check('P03', 'model_checking', [dict(harness=['ransac.cpp'], libs=[], args=['--what', 'lmeds'])],
      rule='one evaluation = one complete answer sequence (no sample / generation fails / no scores / every score vector over a 2 or 4 '
           'letter alphabet); states = reference loop states', assumptions=LOOP_ASSUME)
check('P04', 'model_checking', [dict(harness=['sampling.cpp'], libs=[])],
      rule='one evaluation = one draw with one complete sequence of answers of the random source (or of the quality test); distinct = distinct '
           '(configuration, resulting sample); states = distinct (pool, sample size, attempts) states',
      assumptions=['the random source is uniform over its range; each answer is represented by its residue and fraction class'])
ADAPT = ['Adapter.cpp', 'src/absolute_pose/MA', 'src/relative_pose/MA', 'src/point_cloud/MA']
check('P06', 'model_checking', [dict(harness=['adapters.cpp'], libs=ADAPT, args=['--what', 'multi'], mode='asan')],
      rule='one evaluation = one index list conversion or one adapter built for one shape (number of correspondences per camera); all shapes '
           'within the bound are enumerated, empty cameras included; distinct = distinct (adapter, shape, index)')
check('P07', 'model_checking', [dict(harness=['adapters.cpp'], libs=ADAPT, args=['--what', 'single'], mode='asan')],
      rule='one evaluation = one adapter built one way, read completely after every step of one sequence of prior-setting operations; '
           'states = distinct prior states')
check('P05', 'model_checking', [dict(harness=['sac.cpp'], args=['--what', 'alloc'])],
      rule='one evaluation = one allocation (or draw) for one problem, number of cameras and answer of the random source; states = distinct (problem, '
           'allocation); distinct = distinct (case, problem, allocation)', assumptions=['the start camera is drawn from rand() (interposed); otherwise only the sums and the spread are judged'])
check('P09', 'exploration', [dict(harness=['sac.cpp'], args=['--what', 'score'])],
      rule='one evaluation = one call (scores of one index list, or one inlier selection) for one (problem, scene, model); distinct = distinct (case, problem, list)')
check('P10', 'exploration', [dict(harness=['sac.cpp'], args=['--what', 'hyp'])],
      rule='one evaluation = one hypothesis generated by a real problem from one ordered sample of one exact scene; distinct = distinct (scene, problem, sample) judged')
check('P11', 'exploration', [dict(harness=['sac.cpp'], args=['--what', 'e2e'])],
      rule='one evaluation = one complete consensus run with one problem on one scene with one subset of outliers; distinct = distinct (case, problem, final sample)')
MATH = ['src/math/', 'src/triangulation/', 'src/point_cloud/', 'Adapter.cpp']
check('P16', 'exploration', [dict(harness=['math.cpp'], libs=MATH, args=['--what', 'cloud'])],
      rule='one evaluation = one alignment (of one 3x3 matrix, or one pair of clouds with one list of indices); distinct = distinct grid cases')
check('P17', 'exploration', [dict(harness=['math.cpp'], libs=MATH, args=['--what', 'tri'])],
      rule='one evaluation = one triangulated correspondence; distinct = distinct (rotation, translation) pairs')
check('P18', 'exploration', [dict(harness=['math.cpp'], libs=MATH, args=['--what', 'roots'])],
      rule='one evaluation = one polynomial given to one root finder; distinct = distinct polynomials judged')
check('P19', 'exploration', [dict(harness=['math.cpp'], libs=MATH, args=['--what', 'conv'])],
      rule='one evaluation = one rotation converted in all directions; distinct = distinct rotations')
check('P20', 'exploration', [dict(harness=['math.cpp'], libs=MATH, args=['--what', 'gauss'])],
      rule='one evaluation = one matrix eliminated; distinct = distinct blocks of matrices')
for _p in ('P12', 'P13', 'P14', 'P15'):
    check(_p, 'exploration', [dict(harness=['solve.cpp'], args=['--what', _p])],
          rule='one evaluation = one solver call on one scene and list of indices; distinct = distinct (scene, solver, list) in which the true pose was found')
check('P22', 'model_checking', [dict(harness=['calls.cpp'])],
      rule='one evaluation = one operation at one place of one sequence of operations, compared with its result in a fresh process; states = distinct sequences')
check('P21', 'model_checking', [dict(harness=['threads.cpp'], mode='cov'), dict(harness=['threads.cpp'], mode='tsan', extra=['-DFREE'])],
      rule='one evaluation = one schedule of two real threads (preemption at one or two of the basic-block edges of the library) or one free run under '
           'ThreadSanitizer; both results are compared with the results of the same calls alone; states = distinct schedules')
check('P08', 'exploration', [dict(harness=['select.cpp'])],
      rule='one evaluation = one solver call compared with the call of the same solver on the selected correspondences alone; distinct = distinct (kind of selection, solver, data, list)')
check('P23', 'exploration', [dict(harness=['select.cpp'], args=['--what', 'weights'])],
      rule='one evaluation = one pair of runs of a weighted solver that have to agree; distinct = distinct (kind, correspondences, data)')
check('P24', 'exploration', [dict(harness=['refine.cpp'])],
      rule='one evaluation = one refinement from one start of one scene; distinct = distinct (scene, start, list) whose costs decreased')
MOCK = ['-I' + __import__('os').path.join(__import__('os').path.dirname(__import__('os').path.dirname(__import__('os').path.abspath(__file__))), 'harness', 'mock')]
check('P25', 'exploration', [dict(harness=['mex.cpp'], extra=MOCK, extsrc=[('matlab/opengv.cpp', []), ('matlab/opengv_donotuse.cpp', ['-DmexFunction=mexFunctionTiming', '-DfindCase=findCaseT', '-DprintCases=printCasesT']),
      ('matlab/opengv_experimental1.cpp', ['-DmexFunction=mexFunctionExp1', '-DMOCK_MWSIZE=int']), ('matlab/opengv_experimental2.cpp', ['-DmexFunction=mexFunctionExp2', '-DMOCK_MWSIZE=int'])])],
      rule='one evaluation = one call of the Matlab function (compared with the same call made directly in C++, or with its documented refusal); distinct = distinct valid calls')
check('P26', 'exploration', [dict(harness=['py.cpp'], extra=MOCK, extsrc=[('python/pyopengv.cpp', [])])],
      rule='one evaluation = one call of a Python function through a stand-in for pybind11, compared with the same call made directly in C++; distinct = distinct (function, data, parameters)')
check('P27', 'exploration', [dict(harness=['robust.cpp'], mode='san')],
      rule='one evaluation = one operation on one arrangement of data (degenerate, extreme or not finite), in a build with bounds and undefined-behaviour checks; distinct = distinct (arrangement, operation, number of candidates)')
check('P28', 'model_checking', [dict(harness=['reuse.cpp'])],
      rule='one evaluation = one operation (or consensus run) on a used object compared with the same operation on a new object; all sequences of operations up to the '
           'depth are enumerated; states = distinct (object, configuration) states')
check('P29', 'exploration', [dict(harness=['allsol.cpp'], args=['--what', 'absolute'])],
      rule='one evaluation = one solution (found independently) looked for among the candidates of one solver on one scene; distinct = distinct (scene, solver, solution) found')
check('P30', 'exploration', [dict(harness=['allsol.cpp'], args=['--what', 'relative'])],
      rule='one evaluation = one solution (found independently) looked for among the candidates, or one candidate put into its equations; distinct = distinct (scene, solver, item) passed')
check('P31', 'exploration', [dict(harness=['optimum.cpp'])],
      rule='one evaluation = one estimate judged against the optimum of its error (or its stationarity) on one scene and list; distinct = distinct (scene, judgement) passed')
check('P32', 'exploration', [dict(harness=['optimum.cpp'], args=['--what', 'eigen'])],
      rule='one evaluation = one output of one eigenvalue solver on one scene, list and weighting, recomputed from the returned rotation; distinct = distinct (scene, output) passed')
check('P33', 'exploration', [dict(harness=['frames.cpp'])],
      rule='one evaluation = one solver run on data in two frames, the results being compared after the change of frame; distinct = distinct (scene, solver, change) passed')
check('P34', 'exploration', [dict(harness=['counts.cpp'])],
      rule='one evaluation = one correspondence moved (the estimate has to move), or one estimate from a rearranged or repeated list; distinct = distinct (scene, solver, judgement) passed')
check('P35', 'exploration', [dict(harness=['noise.cpp'])],
      rule='one evaluation = one estimate from disturbed data, its error compared with disturbance times conditioning of the scene; distinct = distinct (scene, solver) within the limit')
