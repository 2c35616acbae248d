#!/usr/bin/env python3
"""Single source of properties.jsonl (python3 tools/mkprops.py > properties.jsonl)."""
import json
P = []


def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
                          "mechanism": [{"name": a, "where": b} for a, b in mech],
                          "observe_at": list(observe), "hook_needed": None}})


BASE, HEALTH, NOISE, SHA, GCD, TIMER, STATUS, UUID = (
    'src/jitterentropy-%s.c' % x for x in ('base', 'health', 'noise', 'sha3', 'gcd', 'timer', 'status', 'uuid'))
MEM, CACHE = 'arch/jitterentropy-arch-memory.c', 'arch/jitterentropy-arch-cache.c'

p('C01', 'No random bytes are delivered once a health test has failed',
  'A read of entropy in a mode that enforces the health tests writes random data into the caller\'s buffer only for blocks whose collection ended with no health failure recorded: as soon as any failure (intermittent or permanent) is recorded, not one further byte is generated or written and the call returns a negative code. The failure record is never cleared by a read, so every later read of the same collector fails as well.',
  ['inputs', 'histories'], 'all collector states, all request lengths, a failure raised at any block of the request, all combinations of failure bits',
  'The unit tests raise one failure kind before a read; they do not try a failure at the k-th block of an arbitrary request nor every bit combination.',
  [BASE, HEALTH, NOISE], [('health check between collection and block generation', 'jent_read_entropy() in ' + BASE), ('failure mask is only ever or-ed', HEALTH)],
  [('health_failure', 'sticky mask of failed tests', 'src/jitterentropy-internal.h')], ['jent_read_entropy()', 'jent_read_entropy_safe()'])
p('C02', 'Every health failure is reported with its documented error code',
  'When a read stops on a health failure, the returned code names a failure that is really recorded: a permanent one whenever any permanent failure is recorded (repetition count, adaptive proportion, lag predictor, repetition count with memory, in this order), else an intermittent one (repetition count, adaptive proportion, repetition count with memory, lag predictor, in this order). A failed cryptographic self test is reported with its own code and a clock thread that cannot be started with the no-timer code; no failure is ever reported as success.',
  ['inputs', 'configurations'], 'all 2^32 failure masks, all collector states, all request lengths',
  'Tests look at single failure bits; the precedence between simultaneous failures is a table over all masks.',
  [BASE], [('precedence chain', 'jent_read_entropy() in ' + BASE)], observe=['return value of jent_read_entropy()'])
p('C03', 'A read fills exactly the requested bytes and accounts for them exactly once',
  'For every length, a successful read returns exactly the requested length (capped at the largest signed size) and has written each of these bytes and nothing outside of them; a missing collector, or a missing buffer with a non-zero length, is rejected as invalid with no effect. Invocation and byte counters advance by one and by the returned length on success and do not move on any failure, and the clock thread is started before and stopped after the collection on every path.',
  ['inputs', 'fault_sequences'], 'all lengths (0, partial blocks, beyond the signed maximum), all buffers, failure at any block, thread start failing',
  'A test can only sample lengths and cannot observe a write just outside of the buffer or a missing clock stop on each failure path.',
  [BASE], [('block loop and error exit', 'jent_read_entropy() in ' + BASE)],
  [('read_invocations, bytes_output', 'lifetime counters', 'src/jitterentropy-internal.h')], ['jent_read_entropy()', 'jent_status() output object'])
p('C04', 'Every output block is backed by a fresh, complete entropy collection',
  'Each (at most 32 byte) output block is preceded by its own collection, and a collection finishes only after at least (256 + 65 in FIPS/NTG.1 mode) times the oversampling rate non-stuck measurements of its own - stuck ones never count - or after a health failure. The running mode performs one discarded-for-counting priming measurement first, and the oversampling budget can never be silently truncated: an unrepresentable budget is recorded as a permanent failure.',
  ['inputs', 'histories'], 'all oversampling rates, all modes, every sequence of stuck/non-stuck measurements of any length, any number of blocks',
  'Tests see bytes, not how many accepted measurements stand behind them; sequences of stuck verdicts are unbounded.',
  [NOISE, BASE], [('collection loop', 'jent_random_data_one() / jent_random_data() in ' + NOISE)], observe=['number of measurements between output blocks'])
p('C05', 'A measurement is stuck iff delta, or its 1st or 2nd difference, is zero',
  'For every time delta and every history of the two preceding deltas, a measurement is classified as stuck exactly if the delta, the difference to the preceding delta, or the difference of these differences is zero (modulo 2^64). Classifying never alters the configuration of the collector and never clears a recorded failure.',
  ['inputs', 'histories'], 'all 64-bit deltas and all histories', 'The test feeds a few sequences; the claim is about all 2^192 triples including wrap-around.',
  [HEALTH], [('discrete derivatives', 'jent_stuck() in ' + HEALTH)], observe=['jent_stuck() result'])
p('C06', 'Repetition count test fires exactly at its cut-offs',
  'The repetition counter equals the number of consecutive stuck measurements; the intermittent failure is recorded exactly when it reaches the intermittent cut-off and the permanent one on every stuck measurement at or beyond the permanent cut-off; a non-stuck measurement returns the counter to zero. No other health failure state is influenced.',
  ['histories'], 'all counter values, cut-offs and measurement sequences', 'Cut-offs of up to 1200 consecutive events for each rate and mode cannot be swept by tests in all combinations.',
  [HEALTH], [('jent_rct_insert', HEALTH)], observe=['health failure mask'])
p('C07', 'Adaptive proportion test counts one 512-sample window against its base',
  'In each window of 512 measurements the first one is the base; the counter equals the number of measurements of the window equal to the base over their full 64 bits; reaching the intermittent cut-off records the intermittent failure and reaching or exceeding the permanent cut-off the permanent one; after 512 measurements a new window with a new base is opened. Nothing else records or clears this failure.',
  ['histories', 'inputs'], 'all window positions, all base/delta values, all cut-offs', 'Windows, values and cut-offs multiply beyond sampling; the window edge is a single step of 512.',
  [HEALTH], [('jent_apt_insert', HEALTH)], observe=['health failure mask'])
p('C08', 'Lag predictor test scores its 8 lags exactly over a 2^17-sample window',
  'Once eight deltas are known, each further delta is compared with the prediction of the currently best of the eight lags; the run and total success counts follow these hits (a miss zeroes the run only), reaching or exceeding the local or global cut-off records the intermittent, the permanent cut-offs the permanent failure. Every lag that would have predicted the delta is credited, the best lag is re-elected only by a strictly higher score, the delta enters the history, and after 131072 observations all predictor state restarts from zero.',
  ['histories', 'inputs'], 'all scoreboards, histories, positions in the window, deltas, cut-offs', 'The state space is 8 histories x 8 scores x window position; tests run a few constant or periodic sequences.',
  [HEALTH], [('jent_lag_insert', HEALTH)], observe=['health failure mask'])
p('C09', 'RCT with memory counts every third stuck sample and recovers exactly once',
  'Within one collection window the memory repetition test counts the stuck measurements at every third position starting with the first, starting from zero with each window, and records the permanent failure at or beyond the permanent cut-off. On first reaching the intermittent cut-off it discards the count and performs exactly ten further full collections in running mode, keeping whatever failures these record and restoring the start-up state and recovery mark afterwards; reaching it again during this recovery records the intermittent failure.',
  ['histories'], 'all window positions, counts, cut-offs, recovery states', 'Reaching the cut-off requires hundreds of precisely placed stuck samples, and the second-level case a nested collection.',
  [HEALTH], [('jent_rct_mem_insert', HEALTH)], observe=['health failure mask', 'number of collections'])
p('C10', 'Health cut-offs are the documented function of oversampling rate and mode',
  'For every permitted oversampling rate and for the common and the NTG.1 mode, (re-)initialising the health tests installs exactly the documented repetition count (30 and 60 times the rate, divided by eight and rounded up for NTG.1), adaptive proportion, lag predictor and memory repetition cut-offs for that rate, clears the repetition counter and leaves everything else alone. A higher rate never selects a stricter intermittent cut-off than a lower one, and a permanent cut-off is never below its intermittent one.',
  ['configurations'], 'all rates 1..20 and beyond, both modes, all prior states', 'Tests check the cut-offs of a few rates; an off-by-one index is legal C for every rate.',
  [HEALTH, 'src/jitterentropy-health.h'], [('cut-off tables', 'jent_health_init() in ' + HEALTH)], observe=['cut-offs in effect', 'jent_health_init()'])
p('C11', 'SHA3-256/SHAKE-256 compute FIPS 202 for every message and every chunking',
  'The permutation equals Keccak-f[1600] of FIPS 202 on all 2^1600 states, and absorbing any message in any sequence of chunks followed by finalisation yields the FIPS 202 sponge output with the right rate, suffix, padding and length; finalisation leaves the context ready for a new message with no residue of the old one. The built-in known-answer test passes only if every byte of every expected digest is matched.',
  ['inputs'], 'all states, all messages, all chunk boundaries, all digest lengths used', 'Known-answer tests sample a handful of messages; buffer-boundary errors need particular chunk sizes.',
  [SHA, 'src/jitterentropy-sha3.h'], [('theta..iota, update, final', SHA)], observe=['jent_sha3_update()', 'jent_sha3_final()', 'jent_sha3_tester()'])
p('C12', 'Output generation follows XDRBG-256 and is backtracking resistant',
  'Generating a block seeds from everything absorbed so far (domain byte 0 for the first, 85 for later reseeds), derives a new 512-bit state and the output from it with domain byte 170, hands out at most 32 bytes taken from behind the state part, and carries only the new state over into the pool. No byte of the state that is carried over is ever given to the caller, and the temporary holding state and output is wiped.',
  ['inputs', 'histories'], 'all pool states, all output lengths, first and later calls', 'An output that leaks or reuses state bytes is still 32 random looking bytes to any test.',
  [SHA, NOISE], [('jent_xdrbg256_generate_block', SHA)], observe=['jent_drbg_generate_block()', 'jent_read_random_block()'])
p('C13', 'Every measurement is mixed into the pool with its own domain separation',
  'Every timing measurement - stuck or not - is absorbed into the entropy pool as one message of exactly one sponge block that carries the full 64-bit delta, a domain byte unique to the noise source (1 memory, 2 hash, 3 combined) and, for the hash based sources, the complete digest of the hash loop; the delta judged by the health tests is the delta absorbed and the delta reported. The temporary block and the hash loop context are wiped before return.',
  ['inputs', 'histories'], 'all timer values, all collector states, all three noise sources', 'A dropped or truncated measurement is invisible in the output.',
  [NOISE], [('jent_hash_insert and the three measure functions', NOISE)], observe=['calls absorbing into the pool'])
p('C14', 'Secure memory is zeroed, guarded, locked on demand and wiped before release',
  'An allocation either fails with nothing left mapped, or returns zeroed memory of at least the requested size between two inaccessible guard pages, excluded from core dumps; if locked memory is demanded, a failure to lock always fails the allocation, and otherwise only a missing permission or exhausted limit is tolerated. Releasing overwrites the whole allocation with zeros before exactly the mapping obtained for it is returned, and sizes whose rounding would overflow are refused.',
  ['inputs', 'fault_sequences', 'configurations'], 'all sizes, page sizes, flags, and every failing system call', 'Needs system calls failing at each step and sizes near the end of the address space.',
  [MEM], [('jent_zalloc/jent_zfree', MEM)], observe=['system calls issued', 'contents at release'])
p('C15', 'Releasing a collector stops its clock and wipes and frees all of it',
  'Releasing a collector - complete or only partly constructed - stops its clock thread before anything is freed, releases the thread context, the entropy pool, the memory-access region with exactly the size it was allocated with, and finally the collector itself, each exactly once and each through the wiping release; releasing nothing is a no-op.',
  ['configurations', 'fault_sequences'], 'all combinations of present/absent parts, all region sizes', 'Tests free complete collectors only, and cannot see the size handed to the wiping release.',
  [BASE, TIMER, SHA], [('jent_entropy_collector_free', BASE)], observe=['jent_entropy_collector_free()'])
p('C16', 'Collector allocation refuses every unsafe request',
  'Allocation returns a collector only if the self tests and the timer qualification have passed, the internal timer is not both forced and disabled, the oversampling rate does not exceed 20, the memory access is not disabled in FIPS or NTG.1 operation, and the internal timer is not disabled where it is the only usable one; rates below 3 are raised to 3. A returned collector enforces health tests exactly if FIPS or NTG.1 is requested or the system is in FIPS mode, uses locked memory whenever FIPS or NTG.1 is requested, never uses the internal timer in NTG.1, and carries the requested configuration.',
  ['configurations'], 'all 2^32 flag words x all rates x FIPS system state', 'The flag word has 32 bits; tests use about a dozen combinations.',
  [BASE], [('jent_entropy_collector_alloc_internal and wrapper', BASE)], observe=['jent_entropy_collector_alloc()'])
p('C17', 'A failed allocation leaves nothing behind and no half-built collector escapes',
  'Whichever allocation, thread start, self test or start-up health test fails while a collector is being set up, the caller gets no collector and every memory area and clock thread obtained on the way has been released exactly once; on success exactly the returned collector\'s resources are held and its clock thread is not running.',
  ['fault_sequences'], 'a failure at every single step, including during start-up retries with higher oversampling', 'The fault injection test fails allocations one at a time in one configuration.',
  [BASE, TIMER, SHA], [('error paths', 'jent_entropy_collector_alloc_internal() in ' + BASE)], observe=['jent_entropy_collector_alloc()'])
p('C18', 'The self-recovering read only continues with a fresh, stricter collector',
  'After an intermittent failure the recovering read continues only with a newly allocated and re-qualified collector whose oversampling rate is higher than before and at most 20, with larger memory (unless the caller fixed its size) and more hash loops, never beyond their maxima; permanent failures, self-test failures and invalid or timer errors are returned at once and never retried. The handle always refers to a live collector - the old one is released only after its replacement is complete - and the bytes already delivered are kept.',
  ['histories', 'fault_sequences'], 'all sequences of read results and re-initialisation outcomes', 'Requires failures of a chosen kind at chosen points of long retry sequences.',
  [BASE], [('jent_read_entropy_safe / jent_health_failure_reset', BASE)], observe=['jent_read_entropy_safe()'])
p('C19', 'Identity, counters and test state survive a recovery',
  'Replacing a failed collector preserves its identifier, its delivery counters, its self-test verdict and the fixed-memory-size choice, and counts one re-initialisation. The health tests of the new collector continue from the failed ones - adaptive proportion and both repetition tests positioned at their intermittent cut-off (the one with memory until its next window starts), the lag predictor with its complete history - so that a persisting defect escalates to a permanent failure instead of being forgotten.',
  ['histories'], 'all states of the failed collector, all new configurations', 'Only one test reaches a recovery, and it compares a few fields.',
  [BASE, HEALTH], [('jent_*_duplicate and field transfer', BASE)], observe=['jent_status()', 'jent_uuid()'])
p('C20', 'Timer qualification accepts only timers that pass every power-up criterion',
  'The power-up test takes 1024 scored measurements and reports success only if no timestamp and no delta was zero, time went backwards at most three times, no health test failed, the variations of the deltas were sufficient, their common divisor acceptable and at most 90 percent of them stuck; otherwise it reports the code documented for the first criterion violated. On every path its buffers and temporary collector are released and its clock thread stopped.',
  ['inputs', 'fault_sequences'], 'all sequences of 1124 measurement results, all resource failures', 'Tests run with the real timer, which always passes.',
  [BASE, GCD], [('jent_time_entropy_init', BASE)], observe=['jent_entropy_init()', 'jent_entropy_init_ex()'])
p('C21', 'Initialisation unlocks allocation only after all self tests passed',
  'The library initialisation returns success only if the hash self test, the arithmetic self test and the timer qualification of at least one permitted timer succeeded, and returns the code of what failed; NTG.1 never accepts the internal timer. After any failed initialisation - whichever step failed - no collector can be allocated without running the complete qualification again.',
  ['histories', 'fault_sequences'], 'all outcomes of each self test, all flags, all sequences of initialisation attempts', 'Self-test failures do not occur in a healthy build.',
  [BASE, GCD, SHA], [('jent_entropy_init*, self-test latch', BASE)], observe=['jent_entropy_init()', 'jent_entropy_init_ex()', 'jent_entropy_collector_alloc()'])
p('C22', 'The common timer divisor is the true gcd, never zero, and published once',
  'For every series of deltas the analysis computes their greatest common divisor and the sum of their absolute successive differences, rejects series whose scaled variation is below one per sample or whose divisor is 2^31-1 or more, and publishes the divisor only if it is non-zero and only the first time; once published it never changes and every collector uses it, using 1 as long as none is published.',
  ['inputs', 'histories', 'schedules'], 'all delta series of any length, all sequences of analyses', 'gcd tests use one arithmetic series; zero and huge divisors need degenerate timers.',
  [GCD], [('jent_gcd_analyze, claim/publish flags', GCD)], observe=['jent_gcd_analyze()', 'jent_gcd_get()'])
p('C23', 'Process-wide configuration is frozen by the first initialisation',
  'The failure callback, the clock-thread implementation and its CPU can be set until the first initialisation starts, and afterwards every attempt is refused with the try-again error and changes nothing; a thread implementation lacking any of its four handlers is refused as invalid. An accepted setting is exactly the one used from then on.',
  ['histories'], 'all orders of configuration and initialisation calls, all handler tables', 'Order and combination space; tests run one order per process.',
  [HEALTH, TIMER, BASE], [('switch-blocked latches', HEALTH + ', ' + TIMER)], observe=['jent_set_fips_failure_callback()', 'jent_entropy_switch_notime_impl()', 'jent_entropy_set_notime_cpu()'])
p('C24', 'Start-up samples both noise sources separately before the first output',
  'In FIPS and NTG.1 operation a collector becomes usable only after one complete collection from the memory noise source alone followed by one complete collection from the hash noise source alone, in this order, with the health tests re-armed for the mode after each; in other modes one running-mode collection is made. A completed start-up is never repeated, and a collector is handed out only if the start-up is complete with no failure recorded.',
  ['configurations', 'histories'], 'all modes, all start-up states, failures in each phase', 'The start-up of a returned collector is not observable from outside.',
  [NOISE, BASE], [('start-up state machine', 'jent_random_data() in ' + NOISE)], observe=['jent_entropy_collector_alloc()'])
p('C25', 'Noise sources touch only their own memory, at every position and loop count',
  'For every region size from 1 kB to 512 MB, every position, loop count and timer value, the memory noise source reads and writes only inside its own region, performs the configured number of read-modify-write accesses (three times as many during start-up, or exactly the number asked for), and keeps its position inside the region; without a region it does nothing. The running-mode source visits pseudo-random, the start-up source deterministic positions.',
  ['inputs', 'configurations'], 'all 20 sizes, all positions, all loop counts, all timer values', 'An out-of-region access needs a particular pseudo-random value or wrap-around.',
  [NOISE], [('memory access loops', NOISE)], observe=['jent_measure_jitter*()'])
p('C26', 'Status and UUID reporting never overruns and reports the true values',
  'For every buffer size, status output stays inside the caller\'s buffer, is always terminated, and success is reported only if the report is complete; a missing buffer is refused and a missing collector yields the version only. The identifier is copied completely or not at all, and every reported counter, mode, failure flag, size and setting is the collector\'s actual one.',
  ['inputs', 'configurations'], 'all buffer sizes, all collector contents', 'Truncation points are as many as report bytes; tests use a large buffer and a tiny one.',
  [STATUS], [('bounded append', STATUS)], observe=['jent_status()', 'jent_uuid()'])
p('C27', 'Instance identifiers are well-formed version 4 UUIDs from OS randomness',
  'Every identifier is 36 lower-case characters in 8-4-4-4-12 form and terminated; it carries version 4 and the RFC variant and otherwise exactly the 122 bits delivered by the operating system; if no complete randomness was delivered it is all zero. Short, interrupted or failed reads of the OS source never yield partly filled randomness.',
  ['inputs', 'fault_sequences'], 'all random inputs, all read result sequences', 'Tests see a few identifiers; failing and short reads are not provoked for each position.',
  [UUID, 'arch/jitterentropy-arch-random.c'], [('format, getrandom loop', UUID)], observe=['jent_uuid()'])
p('C28', 'Flags map to memory size and hash loops exactly, capped and monotone',
  'A requested maximum memory size or hash loop count takes effect exactly (2^(n+9) bytes, 2^n loops), values beyond the maximum are capped, and without a request the memory is derived from the cache size (four times the first-level cache, or all caches if asked for), bounded by 512 MB and defaulting to 256 kB; deriving or raising one setting never alters any other flag. The region mask is always the region size minus one.',
  ['configurations', 'inputs'], 'all flag words, all cache sizes', '2^32 flag words and arbitrary cache sizes.',
  [BASE], [('jent_update_memsize, jent_memsize, jent_hashloop_cnt', BASE)], observe=['jent_status() memoryBlockSizeBytes, hashLoopCount'])
p('C29', 'A failed self test bound to a collector stops its output for good',
  'Running the self test bound to a collector either returns success and changes nothing, or returns the hash error and marks the collector; from then on every read of it delivers not one byte and returns the self-test code, in every mode and also after the recovering read replaced the collector. No later passing self test lifts the mark.',
  ['histories', 'configurations'], 'all orders of self test, read and recovery, all modes', 'A healthy build never fails the self test.',
  [BASE], [('selftest_failed mark', BASE)], observe=['jent_selftest()', 'jent_read_entropy()'])
p('C30', 'The failure callback reports every failure, and health results gate by mode',
  'Querying the health state in a health-test enforcing mode returns the complete failure record, calling the registered callback with the same collector and record exactly when there is a failure; in other modes it returns no failure and calls nothing. The query itself changes no state.',
  ['inputs', 'configurations'], 'all masks, modes, with and without callback', 'Masks and modes beyond the sampled ones.',
  [HEALTH], [('jent_health_failure', HEALTH)], observe=['callback invocations'])
p('C31', 'The internal clock thread lifecycle is balanced and its clock never stale',
  'The clock thread is started only for collectors that use it, with counter and stop request reset beforehand; stopping requests termination before joining, joins only a thread that was started, and is harmless when repeated; a failed start leaves no thread and no thread attributes behind. Each timestamp taken from it differs from the previous one, and selecting a CPU or context never happens on fewer than two CPUs.',
  ['histories', 'fault_sequences'], 'all collector states, handler results, thread library failures, CPU counts', 'Needs failing thread creation and repeated stop; schedules are not controllable in tests.',
  [TIMER, 'arch/jitterentropy-arch-thread.c'], [('settick/unsettick, create/join', TIMER)], observe=['calls of the thread handlers'])
p('C32', 'Linux cache and CPU discovery never trusts malformed input',
  'The cache size is taken only from well-formed data or unified cache descriptions (the size starts with a positive decimal number and is scaled by its K or M suffix, the read is not truncated, the value does not overflow), per level the largest over all CPUs is used, and the published size is rounded up to a power of two that is not smaller than the true size unless that exceeds 32 bits, or zero if unknown. The FIPS switch counts as on only if its file can be read and starts with the digit one.',
  ['inputs', 'fault_sequences'], 'all file contents, read results and cache sizes', 'The parsers see one machine\'s files in tests plus a few samples.',
  [CACHE, 'arch/jitterentropy-arch-fips.c'], [('parsers and round-up', CACHE)], observe=['jent_cache_size_roundup()', 'jent_fips_enabled()'])
p('C33', 'Kernel interfaces pass on only delivered bytes and map every error',
  'A read of the kernel device, hwrng or crypto interface returns to its caller only bytes the library delivered, never reports success for an error, maps permanent and self-test failures to the fault code (or a panic in FIPS mode), unrecovered intermittent ones to try-again and usage errors to invalid; the instance lock is held around every use of the collector and released on every path, and the bounce buffer is wiped.',
  ['inputs', 'fault_sequences'], 'all lengths, all library results, interrupted locks, failing copies', 'The kernel module cannot be loaded in the test environment.',
  ['linux_kernel/jitterentropy_chardev.c', 'linux_kernel/jitterentropy_hwrng.c', 'linux_kernel/jitterentropy_kcapi.c', 'linux_kernel/jitterentropy_error.h'],
  [('read handlers', 'linux_kernel/jitterentropy_chardev.c')], observe=['read(2)', 'hwrng read', 'crypto rng generate'])
p('C34', 'Kernel ioctls report the instance\'s own fields and gate the self test',
  'Each field query returns exactly the named value and size of that instance, no uninitialised memory reaches the caller, unknown requests are refused; the status query never copies more than the caller\'s buffer and announces the needed length. The self test needs the administrator capability, a failed one is sticky for the instance and is reported by every later run.',
  ['inputs', 'histories'], 'all request codes, all instance states, all caller buffers', 'The kernel module cannot be loaded in the test environment.',
  ['linux_kernel/jitterentropy_ioctl.c', 'linux_kernel/jitterentropy_chardev.c', 'linux_kernel/jitterentropy_selftest.c'],
  [('field query', 'linux_kernel/jitterentropy_ioctl.c')], observe=['ioctl(2)'])
p('C35', 'Concurrent use of distinct collectors is free of data races',
  'Threads that each use their own collector, initialise the library or run the self test concurrently never race on shared state: under every schedule each observes either the old or the complete new value of every shared setting.',
  ['schedules'], 'all interleavings of any number of threads', 'The concurrency test samples schedules under a sanitizer.',
  ['arch/jitterentropy-arch-atomic.c', GCD, TIMER, HEALTH, BASE], [('atomic latches', 'arch/jitterentropy-arch-atomic.c')])
p('C36', 'Output carries the claimed entropy',
  'Each 256-bit block delivered has full min-entropy under the documented noise model.',
  ['inputs', 'configurations'], 'all platforms and noise distributions', 'A statistical and physical claim.',
  [NOISE], [('oversampling', NOISE)])
p('C37', 'Every call terminates while the timer advances',
  'Initialisation, allocation and reads finish for every advancing timer: collection loops end by enough accepted measurements or by a health failure, and recovery attempts are bounded by the maximum oversampling rate.',
  ['histories', 'schedules'], 'all timers', 'Non-termination cannot be observed by finite tests.',
  [NOISE, BASE, TIMER], [('RCT bounds stuck runs', HEALTH)])

for x in P:
    print(json.dumps(x))
