"""Which driver decides which property, and how each driver is built from /repo."""
import os
_FBU = '-I' + os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'drivers/fbt_util')
def _fbt(n, node=16, feat=4, ext='false'):
    return ('fbt_%s.cpp' % n, ['-DINDEXRESEARCH_VERIF_FBT_NODE=%d' % node, '-DINDEXRESEARCH_VERIF_FBT_FEATURES=%d' % feat, '-DINDEXRESEARCH_VERIF_FBT_EXTENT=%s' % ext, '-DFeatureBTree=FBT_%s' % n])
FAST_FN = 'fast_lookup64 fast_lookup32 count_greater64 count_greater_eq64 count_greater32 count_greater_eq32'.split()
DRIVERS = {
    'fbtree': dict(drivers=['fbtree.cpp', _fbt('u64'), _fbt('i64'), _fbt('u32'), _fbt('i32'), _fbt('str'), _fbt('strx', ext='true'), _fbt('str1', feat=1), _fbt('big', node=32)], flags=[_FBU, '-fwrapv', '-DSSE2_ENABLE', '-DAVX2_ENABLE']),
    'tlxsort': dict(drivers=['tlxsort.cpp', 'tlxsort_str.cpp', 'tlxsort_par.cpp', 'tlxsort_ps5.cpp', 'tlxsort_pub.cpp'], repo=['STX/tlx/tlx/thread_pool.cpp', 'STX/tlx/tlx/multi_timer.cpp', 'STX/tlx/tlx/algorithm/parallel_multiway_merge.cpp', 'STX/tlx/tlx/logger/core.cpp', 'STX/tlx/tlx/die/core.cpp'], flags=['-ISTX/tlx']),
    'tlxconc': dict(drivers=['tlxconc.cpp'], repo=['STX/tlx/tlx/thread_pool.cpp'], flags=['-ISTX/tlx']),
    # the Rust library is built with rustc; lookup.c is linked twice, in its portable and its AVX-512 form
    'fast': dict(drivers=['fast64.cpp'], repo=[('FAST/fast64/c/lookup.c', ['-DVANILLA=1'] + ['-D%s=%s_plain' % (f, f) for f in FAST_FN]), ('@FAST/fast64/c/lookup.c', ['-DAVX512=1', '-mavx512f'] + ['-D%s=%s_avx' % (f, f) for f in FAST_FN])],
                 rust=['fast_num.rs', 'fast_wrap.rs'], rust_env=('VERIF_FAST_DIR', 'FAST/fast64'), libs=['-ldl', '-lm']),
    'tlxstr': dict(drivers=['tlxstr.cpp'], repo=['STX/tlx/tlx/digest/%s.cpp' % x for x in 'md5 sha1 sha256 sha512'.split()] + ['STX/tlx/tlx/string/%s.cpp' % x for x in 'appendline base64 bitdump compare_icase contains contains_word ends_with equal_icase erase_all escape_html escape_uri expand_environment_variables extract_between format_si_iec_units hexdump index_of join join_quoted less_icase pad parse_si_iec_units replace split split_quoted split_words ssprintf starts_with to_lower to_upper trim union_words word_wrap'.split()], flags=['-ISTX/tlx']),
    'tlxcont': dict(drivers=['tlxcont.cpp'], flags=['-ISTX/tlx']),
    'stxbtree': dict(drivers=['stxbtree.cpp'], flags=['-ISTX/tlx']),
    'gbtree': dict(drivers=['gbtree.cpp'], flags=['-IGoogleBTree']),
    'hot': dict(gcc=True, drivers=['hot.cpp'], flags=['-IHOT/include', '-mavx2', '-mbmi', '-mbmi2', '-mlzcnt', '-mpopcnt', '-DINDEXRESEARCH_VERIF_HOT_FREES=1'], libs=['-ltbb']),
    'whlib': dict(drivers=['whlib.cpp', ('whlib_shim.c', ['-msse4.2', '-DNOSIGNAL'])], repo=[('wormhole/lib.c', ['-msse4.2', '-DNOSIGNAL'])], flags=['-Iwormhole']),
    'wormhole': dict(drivers=['wormhole.cpp', ('wh_a.c', ['-msse4.2', '-DNOSIGNAL'], 'wh_a'), ('wh_b.c', ['-mavx2', '-DNOSIGNAL'], 'wh_b'), ('wh_c.c', ['-mavx2', '-DNOSIGNAL'], 'wh_c')],
                     repo=[('wormhole/lib.c', ['-msse4.2', '-DNOSIGNAL']), ('wormhole/kv.c', ['-msse4.2', '-DNOSIGNAL'])], flags=['-Iwormhole'],
                     wrap=['slab_create', 'slab_destroy', 'slab_alloc_safe', 'slab_free_safe', 'slab_alloc_unsafe', 'slab_free_unsafe', 'slab_free_all', 'slab_reserve_unsafe']),
    'mtjson': dict(drivers=['mtjson.cpp', 'mtmsgpack.cpp'], repo=['MassTree/' + x for x in 'json.cc msgpack.cc compiler.cc string.cc straccum.cc str.cc string_slice.cc'.split()], flags=['-IMassTree', '-include', 'MassTree/config.h']),
    'mtblocks': dict(drivers=['mtblocks.cpp'], repo=['MassTree/' + x for x in 'compiler.cc string.cc straccum.cc str.cc string_slice.cc'.split()], flags=['-IMassTree', '-include', 'MassTree/config.h', '-DNOSUPERPAGE=1']),
    'mtlog': dict(drivers=['mtlog.cpp'], repo=['MassTree/' + x for x in 'checkpoint.cc file.cc json.cc kvio.cc kvrandom.cc kvthread.cc memdebug.cc misc.cc msgpack.cc perfstat.cc query_masstree.cc compiler.cc string.cc straccum.cc str.cc string_slice.cc value_array.cc value_string.cc value_versioned_array.cc'.split()],
                  flags=['-IMassTree', '-include', 'MassTree/config.h', '-DNOSUPERPAGE=1', '-DINDEXRESEARCH_VERIF_NO_POOL', '-DINDEXRESEARCH_VERIF_LOG_BUFFER=512', '-DINDEXRESEARCH_VERIF_INBUF=48'],
                  wrap='open creat close fstat stat mkdir write read fsync ftruncate lseek mmap munmap rename unlink nanosleep gettimeofday pthread_create pthread_cond_wait pthread_cond_timedwait sleep pthread_cond_broadcast pthread_cond_signal pthread_mutex_lock pthread_mutex_unlock pthread_self'.split()),
    'masstree': dict(drivers=['masstree.cpp'], repo=['MassTree/' + x for x in 'kvthread.cc compiler.cc string.cc straccum.cc str.cc string_slice.cc'.split()], flags=['-IMassTree', '-include', 'MassTree/config.h', '-DNOSUPERPAGE=1', '-DINDEXRESEARCH_VERIF_NO_POOL', '-DINDEXRESEARCH_VERIF_LIMBO_CAPACITY=12', '-DINDEXRESEARCH_VERIF_RCU_FREE_COUNT=3']),
    'optiqllocks': dict(drivers=['optiql_locks.cpp'] + ['oql_%s.cpp' % x for x in 'abcdefghi'], libs=['-lnuma']),
    'optiql': dict(drivers=['optiql.cpp'], repo=['OptiQL/Tree.cpp'], flags=['-IOptiQL', '-DOMCS_LOCK', '-DIS_CONTEXTFUL'], libs=['-lnuma']),
    'artolc': dict(drivers=['artolc.cpp'], repo=['ARTOLC/Tree.cpp'], flags=['-IARTOLC', '-DINDEXRESEARCH_VERIF_GC_THRESHOLD=0'], libs=['-ltbb']),
    'blink': dict(drivers=['blink.cpp'], flags=['-mavx2']),
    'btreeolc': dict(drivers=['btreeolc.cpp'], flags=['-DINDEXRESEARCH_VERIF_PAGE_SIZE=96']),
}
PROPS = {
    'C35': 'mtlog',
    'C31': 'tlxstr', 'C34': 'fast',
    'C32': 'fbtree', 'C33': 'fbtree',
    'C29': 'tlxconc',
    'C30': 'tlxsort',
    'C20': 'mtjson',
    'C21': 'mtjson',
    'C28': 'tlxcont',
    'C27': 'stxbtree',
    'C26': 'gbtree',
    'C12': 'hot', 'C13': 'hot', 'C14': 'hot',
    'C25': 'whlib',
    'C22': 'wormhole', 'C23': 'wormhole', 'C24': 'wormhole',
    'C19': 'mtblocks',
    'C15': 'masstree', 'C16': 'masstree', 'C17': 'masstree', 'C18': 'masstree',
    'C05': 'artolc', 'C06': 'artolc', 'C07': 'artolc', 'C08': 'artolc',
    'C11': 'optiqllocks',
    'C09': 'optiql', 'C10': 'optiql',
    'C01': 'btreeolc', 'C02': 'btreeolc',
    'C03': 'blink', 'C04': 'blink',
}
NOTES = {
    'C35': 'Exhaustive over all sequences of requests, epoch ticks, logger and checkpointer steps and crashes (every tear position of the write in progress) up to the stated depth; real log.cc and mtd.cc against an in-memory file system; loggers and checkpointer run as coroutines that yield where they sleep, write or sync; two logs, two workers, small log buffer; renames are taken to be ordered; worker code is not interleaved with a logger inside one request.',
    'conc': 'Exhaustive over all interleavings of the listed small programs at the granularity of single memory accesses (sequential consistency), unbounded or up to the preemption bound given in the configuration; compiler (clang) and the explorer are trusted; larger programs and weak-memory effects are outside.',
    'seq': 'Exhaustive over all operation sequences of the listed alphabets up to the stated depth from the listed prefilled states, executed by the real code with every memory access bounds- and lifetime-checked; larger universes are outside.',
}
NA = {}
