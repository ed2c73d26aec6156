"""cffi binding to the deterministic runtime (runs under PyPy)."""
import os
import cffi
ffi = cffi.FFI()
ffi.cdef("""
void det_begin(uint64_t seed, int strat, double quantum, double hotp, int team, int vary, int ordered, uint64_t limit, int poison, int pctd, uint64_t pctlen);
void det_script(int n, uint64_t *st, int32_t *ch);
void det_end(void);
int det_stats(uint64_t *o);
int det_log(uint64_t *st, int32_t *ch, int max);
uint64_t det_now(void);
void det_mix(uint64_t v);
int det_reserve(void);
void det_attach(int id);
void det_yield(void);
void det_exit(void);
void det_join(void);
int det_self(void);
""")
BUILD = os.environ['ACVSIM_LIB']
lib = ffi.dlopen(os.path.join(BUILD, 'libdetomp.so'), ffi.RTLD_NOW | ffi.RTLD_GLOBAL)
RANDOM, PCT, RR, STARVE, RACE, SERIAL, SCRIPT = range(7)
NAMES = ['random', 'pct', 'round-robin', 'starve', 'race-directed', 'serial', 'script']
STATS = ['steps', 'switches', 'regions', 'hot_yields', 'conflicts', 'hash', 'poison_bytes', 'team_sum', 'team_max',
         'max_ready', 'barriers', 'lock_waits', 'gil_events', 'py_yields', 'log_len', 'shadow_drop']


def stats():
    a = ffi.new('uint64_t[32]')
    n = lib.det_stats(a)
    return dict(zip(STATS, [int(a[i]) for i in range(n)]))


def log(maxn=200000):
    n0 = int(stats()['log_len'])
    n0 = min(n0, maxn)
    s = ffi.new('uint64_t[]', n0 + 1)
    c = ffi.new('int32_t[]', n0 + 1)
    n = lib.det_log(s, c, n0)
    return [[int(s[i]), int(c[i])] for i in range(n)]


def script(entries):
    n = len(entries)
    s = ffi.new('uint64_t[]', [e[0] for e in entries] + [0])
    c = ffi.new('int32_t[]', [e[1] for e in entries] + [0])
    lib.det_script(n, s, c)
