"""The check of each property."""

CHECKS = {}


def check(*props):
    def deco(f):
        for p in props:
            CHECKS[p] = f
        return f
    return deco


@check('G01', 'G02', 'G03', 'G04', 'G05', 'G08')
def graphs(ctx):
    ctx.design('MCTaskGraph', 'MCTaskGraph3.cfg' if ctx.thorough else None)
    ctx.validate('TraceTaskGraph', ctx.record('rec_graph.py'))


@check('G06', 'G07')
def objects(ctx):
    ctx.design('MCObjects', 'MCObjects3.cfg' if ctx.thorough else None)
    ctx.validate('TraceObjects', ctx.record('rec_objects.py'))


@check('H01', 'H02', 'H03', 'H04')
def trees(ctx):
    ctx.design('MCTaskTree', 'MCTaskTree3.cfg' if ctx.thorough else None)
    ctx.validate('TraceTaskTree', ctx.record('rec_tree.py'))


@check('T01', 'T02', 'T03')
def task_models(ctx):
    ctx.design('MCTaskModel', 'MCTaskModel5.cfg' if ctx.thorough else None)
    ctx.validate('TraceTaskModel', ctx.record('rec_task.py'))


@check('B01', 'B02', 'B03', 'B04')
def bring_models(ctx):
    ctx.design('MCBringModel', 'MCBringModel5.cfg' if ctx.thorough else None)
    ctx.validate('TraceBringModel', ctx.record('rec_bring.py'))


@check('T04')
def hold_release(ctx):
    ctx.design('MCHoldRelease')
    ctx.validate('TraceHoldRelease', ctx.record('rec_bring.py'))


@check('P01', 'P02', 'P03')
def pomdp(ctx):
    ctx.design('MCPomdp', 'MCPomdp2.cfg' if ctx.thorough else None)
    ctx.validate('TracePomdp', ctx.record('rec_pomdp.py'))


@check('P04', 'P05', 'P06')
def policies(ctx):
    ctx.design('MCPolicyGraph', 'MCPolicyGraph3.cfg' if ctx.thorough else None)
    ctx.validate('TracePolicy', ctx.record('rec_policy.py'))


@check('M01', 'M02', 'M03', 'M04', 'M05', 'M06')
def planners(ctx):
    for c in ('', 'S', 'F') + (('3', 'S4') if ctx.thorough else ()):
        if c == '' or ctx.thorough or c == ('S' if ctx.prop == 'M05' else 'F'):
            ctx.design('MCSearchTree', 'MCSearchTree%s.cfg' % c)
    ctx.validate('TraceSearchTree', ctx.record('rec_planner.py'))


@check('L01')
def beliefs(ctx):
    ctx.design('MCParticle', 'MCParticle3.cfg' if ctx.thorough else None)
    ctx.validate('TraceParticle', ctx.record('rec_belief.py'))


@check('S01', 'S02', 'S03', 'S04', 'S05')
def supportive(ctx):
    ctx.design('MCSupportive', 'MCSupportive3.cfg' if ctx.thorough else None)
    ctx.validate('TraceSupportive', ctx.record('rec_supportive.py'))


@check('A01', 'A02')
def background(ctx):
    ctx.design('MCAsyncRunner', 'MCAsyncRunner3.cfg' if ctx.thorough else None)
    ctx.validate('TraceAsync', ctx.record('rec_async.py'))


@check('E02')
def pool(ctx):
    ctx.design('MCRepeatPool', 'MCRepeatPool3.cfg' if ctx.thorough else None)
    ctx.validate('TracePool', ctx.record('rec_pool.py'))


@check('E03')
def long_policy(ctx):
    ctx.design('MCLongPolicy', 'MCLongPolicy3.cfg' if ctx.thorough else None)
    ctx.validate('TraceLong', ctx.record('rec_long.py'))


@check('E01')
def evaluations(ctx):
    ctx.design('MCEvaluation', 'MCEvaluation3.cfg' if ctx.thorough else None)
    ctx.validate('TraceEvaluation', ctx.record('rec_eval.py'))


@check('E04')
def experiments(ctx):
    ctx.design('MCExperiment', 'MCExperiment3.cfg' if ctx.thorough else None)
    ctx.validate('TraceExperiment', ctx.record('rec_exp.py'))


@check('H05')
def extraction(ctx):
    ctx.design('MCExtraction', 'MCExtraction6.cfg' if ctx.thorough else None)
    ctx.validate('TraceExtraction', ctx.record('rec_extract.py'))


@check('E05')
def jobs(ctx):
    if ctx.thorough:
        ctx.design('MCJobs', 'MCJobs1.cfg')
        ctx.design('MCJobs', 'MCJobs3.cfg')
    else:
        ctx.design('MCJobs')
    ctx.validate('TraceJobs', ctx.record('rec_jobs.py'))


@check('E06')
def figures(ctx):
    ctx.design('MCFigures', 'MCFigures4.cfg' if ctx.thorough else None)
    ctx.validate('TraceFigures', ctx.record('rec_figures.py'))
