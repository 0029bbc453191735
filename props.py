import os
REL = ['-O3', '-march=x86-64-v3', '-maes', '-mpclmul', '-mrdseed']
CONFIGS = {
    # the flags of the repository's own build
    'rel': {'flags': REL},
    'asan': {'flags': ['-O1', '-g', '-march=x86-64-v3', '-maes', '-mpclmul', '-mrdseed', '-fsanitize=address,bounds', '-fno-sanitize-recover=bounds', '-fno-omit-frame-pointer'],
             'ldflags': ['-fsanitize=address,bounds']},
    # no BMI2 (nor AVX): the portable branches
    'portable': {'flags': ['-O2', '-msse4.1', '-maes', '-mpclmul', '-mrdseed']},
    'tsan': {'flags': ['-O1', '-g', '-march=x86-64-v3', '-maes', '-mpclmul', '-mrdseed', '-fsanitize=thread'], 'ldflags': ['-fsanitize=thread']},
    'rdseed': {'flags': REL + ['-DENABLE_RDSEED', '-include', os.path.join(os.path.dirname(os.path.abspath(__file__)), 'harness/rdseed_shim.hpp')]},
    'thr': {'flags': REL + ['-DTHREADING']},
    'thr_tsan': {'flags': ['-DTHREADING', '-O1', '-g', '-march=x86-64-v3', '-maes', '-mpclmul', '-mrdseed', '-fsanitize=thread'], 'ldflags': ['-fsanitize=thread']},
}
PROPS = {
    'C01': {'configs': [('rel', 1.5), ('asan', 0.12)]},
    'C02': {'configs': [('rel', 2.0), ('asan', 0.15)]},
    'C03': {'configs': [('rel', 2.0), ('asan', 0.15)]},
    'C04': {'libs': 'full', 'configs': [('rel', 0.5), ('asan', 0.03)]},
    'C05': {'libs': 'full', 'configs': [('rel', 0.8), ('asan', 0.05)]},
    'C06': {'configs': [('rel', 4.0), ('asan', 0.2)]},
    'C07': {'configs': [('rel', 4.0), ('asan', 0.2)]},
    'C08': {'configs': [('rel', 3.0), ('asan', 0.1)]},
    'C09': {'configs': [('rel', 2.0), ('asan', 0.1)]},
    'C10': {'configs': [('rel', 2.0), ('asan', 0.15)]},
    'C11': {'configs': [('rel', 6.0), ('asan', 0.1)]},
    'C12': {'configs': [('rel', 18.0), ('asan', 0.8)]},
    'C13': {'configs': [('rel', 30.0), ('asan', 1.0)]},
    'C14': {'configs': [('rel', 25.0), ('asan', 1.0)]},
    'C15': {'configs': [('rel', 6.0), ('asan', 0.2)]},
    'C16': {'configs': [('rel', 50.0), ('asan', 2.0)]},
    'C17': {'configs': [('rel', 25.0), ('asan', 1.0)]},
    'C18': {'configs': [('rel', 70.0), ('asan', 3.0)]},
    'C19': {'configs': [('rel', 60.0), ('asan', 2.0)]},
    'C20': {'configs': [('rel', 2.5), ('asan', 0.3)]},
    'C21': {'configs': [('rel', 1.0), ('asan', 0.1)]},
    'C22': {'configs': [('rel', 40.0), ('portable', 12.0), ('asan', 3.0)]},
    'C23': {'configs': [('rel', 6.0), ('asan', 0.6)]},
    'C24': {'configs': [('rel', 4.0), ('asan', 0.4)]},
    'C25': {'configs': [('rel', 4.0), ('asan', 0.3)]},
    'C26': {'configs': [('rel', 8.0), ('tsan', 0.8), ('asan', 0.8)]},
    'C27': {'configs': [('rel', 4.0), ('asan', 0.2)]},
    'C28': {'configs': [('rel', 8.0), ('asan', 0.3)]},
    'C29': {'libs': 'full', 'configs': [('thr', 20.0), ('thr_tsan', 2.0)]},
    'C30': {'configs': [('rel', 3.0), ('rdseed', 1.0)]},
    'C31': {'libs': 'full', 'configs': [('rel', 1.0)]},
}
