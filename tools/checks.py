"""Which programs decide which property."""
import targets

ASSUME_MC = ['scheduling points: mutex, condition variable, thread, thread-local-destructor and shared-atomic operations; data races between them are reported by the happens-before detector',
             'sequentially consistent execution of atomics', 'bounds as listed per scenario (deviations from the default schedule)']
META = {}

def mc_args(prop, thorough, rdir, known):
    a = ['--property', prop, '--replay-dir', rdir]
    if thorough:
        a.append('--thorough')
    for k in known:
        a += ['--known', k['scenario'] + '=' + k['match']]
    return a

def mc(name, srcs, **kw):
    return dict(build=lambda: targets.mc_exe(name, srcs, **kw), args=mc_args)

CORE = mc('mc_core', ['sc_core.cpp', 'sc_api.cpp'])

PIPE = dict(build=targets.pipe_exe, args=mc_args)

def seq(name, srcs, env=None, **kw):
    return dict(build=lambda: targets.seq_exe(name, srcs, **kw), args=mc_args, env=env or {})

FILTERS = seq('sq_filters', ['sq_reorder.cpp', 'sq_geom.cpp', 'sq_spatial.cpp', 'sq_props.cpp', 'sq_arith.cpp', 'sq_expr.cpp', 'sq_audio.cpp'])

SEQCORE = seq('sq_core', ['sq_map.cpp', 'sq_frame.cpp', 'sq_cache.cpp', 'sq_func.cpp', 'sq_format.cpp', 'sq_log.cpp'], plugin='stub')
SEQLIFE = seq('sq_life', ['sq_life.cpp'], plugin='stub')      # replaces operator new
SEQPOOL = seq('sq_pool', ['sq_pool.cpp'], plugin='stub')      # interposes the allocator

CHECKS = {}
for p in ['C01', 'C02', 'C03', 'C04', 'C06']:
    CHECKS[p] = [CORE]
CHECKS['C05'] = [SEQCORE, CORE]
CHECKS['C07'] = [SEQLIFE, SEQCORE, CORE]
CHECKS['C12'] = [SEQCORE, CORE]
CHECKS['C13'] = [SEQPOOL, SEQCORE, CORE]
for p in ['C08', 'C09', 'C10', 'C11']:
    CHECKS[p] = [SEQCORE]
for p in ['C14', 'C15', 'C16', 'C17', 'C18', 'C19', 'C20', 'C25']:
    CHECKS[p] = [FILTERS]
CHECKS['C21'] = [PIPE]
CHECKS['C26'] = [seq('sq_args', ['sq_args.cpp', 'sq_kernels.cpp'], env={'ASAN_OPTIONS': 'detect_leaks=0:allocator_may_return_null=1'}, cfg='asan')]
CHECKS['C22'] = [dict(build=targets.filters_mc_exe, args=mc_args)]
CHECKS['C23'] = [dict(build=targets.py_site, args=mc_args)]
CHECKS['C28'] = [dict(build=lambda: targets.py_seq('py_values.py'), args=mc_args)]
CHECKS['C29'] = [dict(build=lambda: targets.py_seq('py_clips.py'), args=mc_args)]
CHECKS['C30'] = [dict(build=lambda: targets.py_seq('py_env.py'), args=mc_args)]
CHECKS['C31'] = [dict(build=lambda: targets.py_script('py_script.py'), args=mc_args)]
CHECKS['C32'] = [dict(build=lambda: targets.py_seq('py_errors.py'), args=mc_args)]
CHECKS['C27'] = [seq('sq_plugin', ['sq_plugin.cpp'], plugin='stub')]
