"""Property -> contract harnesses."""
from . import engine
from .engine import H

HEALTH = 'src/jitterentropy-health.c'


def stuck(p):
    return H('jent_stuck_p%d' % p, 'health_stuck.c', HEALTH, enforce='jent_stuck',
             defs=['-DJV_P=%d' % p], unwind=12)



def dup(p, f):
    return H('dup_%d' % p, 'health_dup.c', HEALTH, enforce=f, defs=['-DJV_P=%d' % p], unwind=40)


health_failure = H('jent_health_failure', 'health_failure.c', HEALTH, enforce='',
                   unwind=40, functions=['jent_set_fips_failure_callback_internal',
                                         'jent_health_cb_block_switch'])

SHA3 = 'src/jitterentropy-sha3.c'


def keccak_boundary(funcs):
    '''the permutation, by its role: static, takes only the state words, called from a
    function that takes the sponge context'''
    out = {}
    from . import prep

    def params(f):
        return [c['type']['qualType'] for c in f.get('inner', ()) if c.get('kind') == 'ParmVarDecl']
    for n, f in funcs.items():
        if any('jent_sha_ctx' in t for t in params(f)):
            for c in prep.calls_in(f):
                if c in funcs and params(funcs[c]) in (['uint64_t *'], ['uint64_t[25]']):
                    out[c] = 'jv_keccak'
    return out


sha3_perm = H('keccak_f1600', 'sha3_perm.c', SHA3, unwind=260, solver='cvc5', checks=False, covers=False,
              args=['--unwinding-assertions'], functions=['jent_sha3_update (one block, permutation)'])


def sha3_update(lane, safety=False):
    return H('jent_sha3_update_%s' % ('safety' if safety else 'lane%d' % lane), 'sha3_sponge.c', SHA3,
             roots=['jent_sha3_update'], rename=keccak_boundary, hint='jent_sha3_update',
             defs=['-DJV_P=1', '-DJV_LANE=%d' % lane], unwind=140,
             args=['--slice-formula', '--max-field-sensitivity-array-size', '200'] +
             (['--bounds-check', '--pointer-check'] if safety else []),
             checks=False, covers=lane >= 17 and not safety, weight=9 if safety else 5 if lane < 17 else 1,
             solver='cvc5' if safety or lane < 17 else None,
             loops=dict(ghosts=['jv_left'], pghosts=['jv_pin'], calling=['jv_keccak'], hard=['jv_hard({L})'],
                        inv=['jv_ctx.state[jv_lane] == jv_prev[jv_lane]', 'jv_part == 0'], bounds=(140,)),
             functions=['jent_sha3_update'])


sha3_final = H('jent_sha3_final', 'sha3_sponge.c', SHA3, rename=keccak_boundary,
               defs=['-DJV_P=2'], unwind=260, functions=['jent_sha3_final'])



def xdrbg(p, name, fns):
    return H(name, 'xdrbg.c', SHA3, rename=['jent_sha3_update', 'jent_sha3_final'] if p < 3 else [], defs=['-DJV_P=%d' % p],
             unwind=400, args=['--unwinding-assertions'] if p != 3 else [], functions=fns)


xdrbg_gen = xdrbg(1, 'jent_drbg_generate_block', ['jent_drbg_generate_block'])
sha3_kat = xdrbg(2, 'jent_sha3_tester', ['jent_sha3_tester'])
sha3_ctx = xdrbg(3, 'jent_sha3_context', ['jent_shake256_init', 'jent_sha3_256_init', 'jent_sha3_alloc', 'jent_sha3_dealloc'])

NOISE = 'src/jitterentropy-noise.c'


def collect(p):
    return H('jent_random_data_p%d' % p, 'noise_collect.c', NOISE, roots=['jent_random_data'],
             rename=['jent_measure_jitter', 'jent_measure_jitter_ntg1_sha3', 'jent_measure_jitter_ntg1_memaccess'],
             defs=['-DJV_P=%d' % p], unwind=40, functions=['jent_random_data'],
             loops=dict(ghosts=['jv_acc'], consts=['65535'],
                        inv=['jv_same(&jv_ec, &jv_e[{L}], G_CFG | G_ID | G_SELF | G_STATE)',
                             'jv_ec.rct_mem_nosr == jv_e[{L}].rct_mem_nosr',
                             '(jv_ec.health_failure & jv_e[{L}].health_failure) == jv_e[{L}].health_failure',
                             '!jv_bad_type', '!jv_order_bad', '!jv_after_failure', 'jv_phase({L})'],
                        bounds=(4,), min_unwind=40))


MEASURE = {1: 'jent_measure_jitter_ntg1_memaccess', 2: 'jent_measure_jitter_ntg1_sha3', 3: 'jent_measure_jitter'}


def measure(p, src, k=None):
    if p == 6:
        return H(MEASURE[src] + '_p6', 'noise_measure.c', NOISE, defs=['-DJV_P=6', '-DJV_SRC=%d' % src], unwind=1400, covers=False, checks=False,
                 args=['--unwinding-assertions', '--max-field-sensitivity-array-size', '1100'], functions=[MEASURE[src]],
                 bounded='two concrete runs of 300 and 1300 accesses')
    return H('%s_p%d%s' % (MEASURE[src], p, '_%d' % k if k else ''), 'noise_measure.c', NOISE, roots=[MEASURE[src]],
             defs=['-DJV_P=%d' % p, '-DJV_SRC=%d' % src] + (['-DJV_K=%d' % k] if k else []), hint='%s_p%d' % (MEASURE[src], p),
             unwind=140, functions=[MEASURE[src]], solver='cvc5' if p == 1 else 'cadical' if p == 5 else None, checks=p not in (1, 5),
             args=['--slice-formula'] if p in (1, 5) else [],
             bounded='at most 3 accesses in a region of 8 bytes' if p == 3 else None,
             loops=None if p == 3 else dict(
                 ghosts=['jv_nh'], ptr_hook=r'uint8_t ?(\*|\[)', min_unwind=140, bounds=(3,),
                 templates=['((jv_ec.memlocation - jv_loc0 - JV_MOVED({v} - {ev})) & jv_ec.memmask) == 0',
                            '((jv_ec.memlocation - jv_loc0 - JV_MOVED({ev} - {v})) & jv_ec.memmask) == 0'] if p == 5 else [],
                 inv=['jv_blk_ok()', '!jv_wrong', '!jv_hwiped', 'jv_nh == 0', 'jv_ec.memlocation <= jv_ec.memmask',
                      'jv_ec.memlocation == jv_old.memlocation']))


random_block = H('jent_read_random_block', 'noise_measure.c', NOISE, defs=['-DJV_P=4', '-DJV_SRC=3'], unwind=140,
                 functions=['jent_read_random_block'])

BASE = 'src/jitterentropy-base.c'


def read_entropy(p):
    return H('jent_read_entropy_p%d' % p, 'base_read.c', BASE, roots=['jent_read_entropy'], defs=['-DJV_P=%d' % p],
             unwind=40, functions=['jent_read_entropy'] + (['jent_selftest'] if p == 4 else []),
             loops=dict(ghosts=['jv_done'], calling=['jent_random_data', 'jent_read_random_block'],
                        inv=['jv_frame({L})', 'jv_running', '!jv_bad_block', '!jv_bad_clock', '!jv_blind', '!jv_unfresh', '!jv_marked',
                             '!jv_fresh', 'jv_done <= jv_len', 'jv_done == 0 || !jv_ec.selftest_failed', 'jv_done == 0 || !(jv_ec.is_fips_enabled && jv_ec.health_failure)'],
                        bounds=(4,), min_unwind=40))


def alloc(p):
    return H('jent_entropy_collector_alloc_p%d' % p, 'base_alloc.c', BASE, roots=['jent_entropy_collector_alloc'],
             rename=['jent_entropy_init_ex'], defs=['-DJV_P=%d' % p], unwind=40,
             functions=['jent_entropy_collector_alloc', 'jent_entropy_collector_free'] +
             (['jent_memsize', 'jent_hashloop_cnt'] if p == 4 else []),
             loops=dict(pghosts=['jv_live_ec'], ptr_havoc={'struct rand_data *': 'jv_any_ec()'}, consts=['20'], calling=['jent_random_data'], hard=['jv_hard({L})'],
                        inv=['jv_good()', 'jv_latch', 'jv_timer_ok()'],
                        bounds=(3,), min_unwind=40))


collector_free = H('jent_entropy_collector_free', 'base_alloc.c', BASE, defs=['-DJV_P=5'], unwind=40,
                   rename=['jent_entropy_init_ex'], functions=['jent_entropy_collector_free'])


def alloc_roles(funcs):
    """allocations by their role: (rate, flags) -> collector; the one that collects is the complete one"""
    from . import prep
    out = {n: n + '__jv' for n in ('jent_read_entropy', 'jent_entropy_init_ex', 'jent_entropy_collector_free')}
    for n, f in funcs.items():
        if f['type']['qualType'].replace(' ', '') == 'structrand_data*(unsignedint,unsignedint)':
            calls = {c for g in prep.reachable(funcs, [n]) for c in prep.calls_in(funcs[g])}
            out[n] = 'jv_alloc_full' if 'jent_random_data' in calls else 'jv_alloc_raw'
    return out


def read_safe(p):
    return H('jent_read_entropy_safe_p%d' % p, 'base_safe.c', BASE, roots=['jent_read_entropy_safe'],
             rename=alloc_roles, defs=['-DJV_P=%d' % p], unwind=40, functions=['jent_read_entropy_safe'],
             loops=dict(ghosts=['jv_done'], consts=['20'], hard=['jv_hard({L})'], calling=['jent_read_entropy'],
                        inv=['jv_good()', '!jv_ladder_bad', '!jv_xfer_bad', '!jv_xst', '!jv_dup_bad', '!jv_final',
                             'jv_intermittent(jv_last)', 'jv_last == 0 || jv_intermittent(jv_last)', 'jv_done == 0', 'jv_calls == 0 || jv_calls == 1',
                             'jv_done == jv_en_done[{L}]', 'jv_last == jv_en_last[{L}]', 'jv_done == 0 || jv_last == 0',
                             'jv_same(&JC(jv_new), &jv_e[{L}], G_ALL)'],
                        bounds=(3,), min_unwind=40))


qualify = H('jent_time_entropy_init', 'base_qual.c', BASE, roots=['jent_time_entropy_init'],
            rename=['jent_entropy_init_ex'], unwind=40, args=['--arrays-uf-always'], functions=['jent_time_entropy_init'],
            loops=dict(ghosts=['jv_cnt', 'jv_stuck', 'jv_back'], cut_const=True, calling=['jent_measure_jitter'],
                       inv=['jv_good()', 'jv_frame({L})', 'jv_hist_ok()', 'jv_primed == 1', '!jv_zts && !jv_zdelta', 'jv_cnt <= 1124',
                            'jv_prev == jv_c0.prev_time', 'jv_hf == jv_c0.health_failure', 'jv_stuck <= jv_cnt', 'jv_back <= jv_cnt',
                            '(jv_stuck == 0 && jv_back == 0) || jv_cnt > 100'],
                       bounds=(3,), min_unwind=40))


def init(p, timer=True):
    return H('jent_entropy_init_p%d%s' % (p, '' if timer else '_notimer'), 'base_init.c', BASE, rename=['jent_time_entropy_init'],
             defs=['-DJV_P=%d' % p] + ([] if timer else ['NO_TIMER']), unwind=8, args=['--unwinding-assertions'],
             functions=['jent_entropy_init', 'jent_entropy_init_ex', 'jent_entropy_collector_alloc'])


GCD = 'src/jitterentropy-gcd.c'
gcd_analyze = H('jent_gcd_analyze', 'gcd_analyze.c', GCD, roots=['jent_gcd_analyze'], unwind=8, args=['--arrays-uf-always'],
                functions=['jent_gcd_analyze', 'jent_gcd_get'],
                loops=dict(pairs=['jv_gcdf({v}, {w}) == jv_gcdf({ev}, {ew})', '{w} < 1 || {w} > 1024 || {v} == jv_G[{w}]',
                                  '{w} < 1 || {w} > 1024 || {v} == jv_S[{w}]'],
                           inst=['jv_def({v})'], consts=['1024', 'jv_nelem'], inv=['!jv_divzero'], bounds=(5,)))
gcd_self = H('jent_gcd_selftest', 'gcd_self.c', GCD, unwind=18, args=['--unwinding-assertions'],
             functions=['jent_gcd_selftest', 'jent_gcd_init', 'jent_gcd_fini'])

TIMER = 'src/jitterentropy-timer.c'


def timer(p, fns):
    return H('timer_p%d' % p, 'timer_thread.c', TIMER, defs=['-DJV_P=%d' % p], unwind=20, args=['--unwinding-assertions'],
             functions=fns)


timer_cfg = timer(1, ['jent_notime_switch', 'jent_notime_set_cpu', 'jent_notime_block_switch', 'jent_notime_enable'])
timer_life = timer(2, ['jent_notime_enable', 'jent_notime_settick', 'jent_notime_unsettick', 'jent_notime_disable',
                       'jent_notime_thread_create', 'jent_notime_thread_join'])
timer_pin = H('jent_thread_pin_to_cpu', 'timer_thread.c', TIMER, defs=['-DJV_P=4'], unwind=20, args=['--unwinding-assertions', '--arrays-uf-always'], functions=['jent_thread_pin_to_cpu'])
timer_stamp = H('jent_get_nstime_internal', 'timer_thread.c', TIMER, roots=['jent_get_nstime_internal'], defs=['-DJV_P=3'], unwind=20,
                functions=['jent_get_nstime_internal'], loops=dict(bounds=(4,)))

uuid = H('jent_uuid_generate', 'uuid.c', 'src/jitterentropy-uuid.c', unwind=40, args=['--unwinding-assertions'],
         functions=['jent_uuid_generate'])
os_random = H('jent_os_random_bytes', 'os_random.c', 'arch/jitterentropy-arch-random.c', roots=['jent_os_random_bytes'], unwind=20,
              functions=['jent_os_random_bytes'],
              loops=dict(ghosts=['jv_got'], inv=['jv_got <= jv_k || jv_cov', 'jv_got <= jv_len', '!jv_oob', '!jv_fd_bad'], bounds=(4,), min_unwind=20))

memory = H('jent_zalloc', 'memory.c', 'arch/jitterentropy-arch-memory.c', unwind=4, args=['--unwinding-assertions'],
           functions=['jent_zalloc', 'jent_zfree', 'jent_memset_secure', 'jent_memory_is_secure'])



def status(p, name, fns, defs=()):
    return H(name, 'status.c', 'src/jitterentropy-status.c', defs=['-DJV_P=%d' % p, *defs], unwind=80,
             args=['--unwinding-assertions', '--object-bits', '12', '--max-field-sensitivity-array-size', '220'], functions=fns,
             solver='cadical' if p == 2 else None)


status_values = status(1, 'jent_status_values', ['jent_status'])
status_noec = status(1, 'jent_status_version', ['jent_status'], ['-DJV_NOEC'])
status_bounds = status(2, 'jent_status_bounds', ['jent_status'])
status_bounds_noec = status(2, 'jent_status_bounds_version', ['jent_status'], ['-DJV_NOEC'])
status_bounds_large = status(2, 'jent_status_bounds_large', ['jent_status'], ['-DJV_LARGE'])
status_nobuf = status(4, 'jent_status_nobuf', ['jent_status'])
status_uuid = status(3, 'jent_uuid', ['jent_uuid'])

CACHE = 'arch/jitterentropy-arch-cache.c'


def cache(p, name, fns, rename=(), loops=None, roots=(), args=(), checks=True):
    return H(name, 'cache.c', CACHE, defs=['-DJV_P=%d' % p], unwind=50, rename=list(rename), loops=loops, roots=list(roots),
             args=['--object-bits', '10', *([] if loops else ['--unwinding-assertions']), *args], functions=fns, checks=checks)


cache_size = cache(1, 'jent_parse_cache_size', ['jent_parse_cache_size'])
cache_level = cache(2, 'jent_parse_cache_level', ['jent_parse_cache_level', 'jent_cache_type_is_data'])


def cache_walk(lvl):
    return H('jent_get_cachesize_sysfs_dir_l%d' % lvl, 'cache.c', CACHE, defs=['-DJV_P=3', '-DJV_LVL=%d' % lvl], unwind=50,
             rename=['jent_read_sysfs_attr', 'jent_cache_type_is_data', 'jent_parse_cache_level', 'jent_parse_cache_size'],
             loops=dict(ghosts=['jv_nc'], inv=['jv_sound()', 'jv_complete()', 'jv_ni == 0', '!jv_wrong', 'jv_nc >= 0', 'jv_nc <= 65536'],
                        consts=['65536'], bounds=(), min_unwind=50), timeout=240,
             roots=['jent_get_cachesize_sysfs_dir'], args=['--object-bits', '10', '--slice-formula'], checks=False,
             solver='cvc5', functions=['jent_get_cachesize_sysfs_dir'], hint='jent_get_cachesize_sysfs_dir')


cache_read = cache(4, 'jent_read_sysfs_attr', ['jent_read_sysfs_attr'], (),
                   dict(inv=['!jv_wrong', 'jv_fd == 1', 'jv_fd == 0', 'jv_buf[32] == 120', 'jv_hangs == 0'] +
                        ['jv_buf[%d] == 0' % i for i in range(32)], bounds=(3,), min_unwind=50), ['jent_read_sysfs_attr'])
cache_round = cache(5, 'jent_cache_size_roundup', ['jent_cache_size_roundup'], ['jent_get_cachesize_uncached'])
cache_fallback = cache(6, 'jent_get_cachesize_uncached', ['jent_get_cachesize_uncached'], ['jent_get_cachesize_sysfs_dir'])
fips = H('jent_fips_enabled', 'fips.c', 'arch/jitterentropy-arch-fips.c', roots=['jent_fips_enabled'], unwind=40, functions=['jent_fips_enabled'],
         loops=dict(inv=['!jv_wrong', 'jv_fd == 1', 'jv_outcome == 0'], bounds=(4,), min_unwind=40))

KDEF = ['-DCONFIG_EXTERNAL_JITTERENTROPY_KCAPI', '-DCONFIG_EXTERNAL_JITTERENTROPY_CHARDEV', '-DCONFIG_EXTERNAL_JITTERENTROPY_HWRNG']
KINC = [engine.CONTRACTS + '/klinux', engine.REPO + '/linux_kernel']


def kernel(u, p, name, tu, fns, roots=(), loops=None):
    return H(name, 'kernel.c', 'linux_kernel/jitterentropy_%s.c' % tu, defs=['-DJV_U=%d' % u, '-DJV_P=%d' % p, *KDEF], inc=KINC,
             unwind=70, args=['--unwinding-assertions'], functions=fns, roots=list(roots), loops=loops)


k_read = kernel(1, 1, 'chardev_read', 'chardev', ['jent_chardev_read', 'jent_chardev_open', 'jent_chardev_release', 'jent_map_read_error'],
                roots=['*'],
                loops=dict(ghosts=['jv_done'], inv=['jv_idle()', 'jv_done <= jv_len', 'jv_done == 0 || jv_rc >= 0', '!jv_uses || jv_rc >= 0',
                                                    '!jv_uses || jv_done > 0'],
                           bounds=(3,), min_unwind=70))
k_ioctl = kernel(1, 2, 'chardev_ioctl', 'chardev', ['jent_chardev_ioctl', 'jent_chardev_ioctl_status', 'jent_chardev_ioctl_field', 'jent_ioctl_selftest'])
k_hwrng = kernel(2, 1, 'hwrng_read', 'hwrng', ['jent_hwrng_read', 'jent_hwrng_init', 'jent_hwrng_exit', 'jent_map_read_error'])
k_kcapi = kernel(3, 1, 'kcapi_random', 'kcapi', ['jent_kcapi_random', 'jent_kcapi_tfm_init', 'jent_kcapi_tfm_cleanup', 'jent_map_read_error'])
k_field = kernel(4, 1, 'jent_ioctl_field_get', 'ioctl', ['jent_ioctl_field_get', 'jent_ioctl_is_field'])
k_self = kernel(5, 1, 'jent_selftest_instance_run', 'selftest', ['jent_selftest_instance_run', 'jent_selftest_instance_init', 'jent_selftest_instance_exit',
                                                             'jent_selftest_run_now'])

PROPS = {
    'C33': dict(harnesses=[k_read, k_hwrng, k_kcapi]),
    'C34': dict(harnesses=[k_field, k_ioctl, k_self]),
    'C12': dict(harnesses=[xdrbg_gen, sha3_ctx, random_block]),
    'C13': dict(harnesses=[measure(1, 1), measure(1, 2), measure(1, 3)]),
    'C25': dict(harnesses=[measure(2, 1), measure(2, 3), measure(3, 1), measure(3, 3), measure(6, 3)] + [measure(5, 1, k) for k in range(10, 30)]),
    'C32': dict(harnesses=[cache_walk(1), cache_walk(2), cache_walk(3), cache_size, cache_level, cache_read, cache_round, cache_fallback, fips]),
    'C26': dict(harnesses=[status_values, status_noec, status_bounds, status_bounds_noec, status_bounds_large, status_nobuf, status_uuid]),
    'C14': dict(harnesses=[memory]),
    'C04': dict(harnesses=[collect(1), read_entropy(1), read_entropy(3)]),
    'C24': dict(harnesses=[collect(2), alloc(3)]),
    'C01': dict(harnesses=[collect(3), read_entropy(1)]),
    'C02': dict(harnesses=[read_entropy(2)]),
    'C03': dict(harnesses=[read_entropy(3)]),
    'C15': dict(harnesses=[collector_free, timer_life, sha3_ctx]),
    'C16': dict(harnesses=[alloc(1)]),
    'C17': dict(harnesses=[alloc(2)]),
    'C28': dict(harnesses=[alloc(4)]),
    'C18': dict(harnesses=[read_safe(1)]),
    'C20': dict(harnesses=[qualify]),
    'C21': dict(harnesses=[init(1), init(1, False)]),
    'C22': dict(harnesses=[gcd_analyze, gcd_self]),
    'C23': dict(harnesses=[timer_cfg, init(2), health_failure]),
    'C31': dict(harnesses=[timer_life, timer_stamp, timer_pin]),
    'C27': dict(harnesses=[uuid, os_random]),
    'C29': dict(harnesses=[read_entropy(4), read_safe(3)]),
    'C11': dict(harnesses=[sha3_kat, sha3_ctx, sha3_perm, sha3_final, sha3_update(17, True)] + [sha3_update(i) for i in range(24, -1, -1)]),
    'C10': dict(harnesses=[H('jent_health_init', 'health_init.c', HEALTH, enforce='jent_health_init',
                             unwind=40)]),
    'C30': dict(harnesses=[health_failure]),
    'C19': dict(harnesses=[dup(1, 'jent_lag_duplicate'), dup(2, 'jent_apt_duplicate'),
                           dup(3, 'jent_rct_duplicate'), dup(4, 'jent_rct_mem_duplicate'),
                           read_safe(2)]),
    'C05': dict(harnesses=[stuck(1)]),
    'C06': dict(harnesses=[stuck(2)]),
    'C07': dict(harnesses=[stuck(3)]),
    'C08': dict(harnesses=[stuck(4)]),
    'C09': dict(harnesses=[stuck(5)]),
}
