#!/usr/bin/env python3
"""C28: the helper scripts tell the truth. Runs the repository's file_compare.py and
prime.py and judges what they print and return."""
import contextlib, io, json, os, random, re, runpy, signal, subprocess, sys, time, traceback

sys.dont_write_bytecode = True
REPO = os.environ.get('VERIF_REPO', '/repo')
BASE = os.path.join(REPO, 'proof_of_storage/src')
COMPARE = os.path.join(BASE, 'proof_of_storage/file_compare.py')
PRIME = os.path.join(BASE, 'vde/prime.py')
EVID = os.environ['VERIF_EVIDENCE']
TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1'))
THOROUGH = TIER == 'thorough'
rng = random.Random(SEED * 1000003 + 28)
start = time.time()
state = {'case': '', 'evals': 0, 'distinct': set(), 'counters': {}, 'samples': []}


def count(name, n=1):
    state['counters'][name] = state['counters'].get(name, 0) + n


def evidence(violations):
    json.dump({
        'property': 'C28', 'tier': TIER, 'seed': SEED, 'level': 'exploration',
        'coverage': {
            'evaluations': state['evals'], 'distinct_nontrivial': len(state['distinct']),
            'rule': 'pairs of files (equal, altered at chosen places, longer, shorter, empty, missing) given to the comparison script; '
                    'numbers (all small ones, primes, worst composites, made primes) given to the prime script; distinct by content or number',
            'observed': state['counters'], 'samples': state['samples'][:8]},
        'assumptions': ['verdicts on composites are random: only a rate far outside chance counts'],
        'wall_s': round(time.time() - start, 3), 'violations': violations,
    }, open(os.path.join(EVID, 'C28.json'), 'w'), indent=1)


def violate(msg):
    d = os.path.join(EVID, 'replay')
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, 'C28.json')
    json.dump({'property': 'C28', 'tier': TIER, 'seed': SEED, 'case': state['case'], 'failure': msg,
               'again': f'VERIF_SEED={SEED} bash /verif/check.sh C28 {TIER}'}, open(p, 'w'), indent=1)
    print('case:', state['case'])
    print('failure:', msg)
    print(f'VIOLATION property=C28 replay={p}')
    evidence(1)
    sys.stdout.flush()
    os._exit(1)


def case(desc, key=None):
    state['case'] = desc
    state['evals'] += 1
    state['distinct'].add(key if key is not None else desc)
    signal.alarm(120)


def timeout(*_):
    violate('did not finish within 120 s')


signal.signal(signal.SIGALRM, timeout)


# ------------------------------------------------------------- file comparison
def run_compare(process):
    """(failed visibly, output)"""
    if process:
        r = subprocess.run([sys.executable, '-B', COMPARE], capture_output=True, text=True)
        return r.returncode != 0, r.stdout
    out = io.StringIO()
    failed = False
    try:
        with contextlib.redirect_stdout(out):
            runpy.run_path(COMPARE, run_name='__main__')
    except SystemExit as e:
        failed = bool(e.code)
    except Exception:
        failed = True
    return failed, out.getvalue()


def says_good(out):
    return 'good' in out.lower() and 'wrong' not in out.lower().replace('wrong: 0', '')


def compare(a, b, what, process=False):
    d = 'proof_of_storage/src/proof_of_storage/data'
    os.makedirs(d, exist_ok=True)
    for name, x in (('origin_data', a), ('unsealed_data', b)):
        p = os.path.join(d, name)
        if x is None:
            if os.path.exists(p):
                os.remove(p)
        else:
            open(p, 'wb').write(x)
    case(f'{what}: origin {desc(a)}, unsealed {desc(b)}', (hash(a), hash(b)))
    failed, out = run_compare(process)
    if a is None or b is None:
        if says_good(out):
            violate(f'a missing file is reported as right: {out!r}')
        count('missing files')
        return
    if a == b:
        if failed or not says_good(out):
            violate(f'equal files are not reported as equal: {out!r}')
        count('equal pairs')
    else:
        if says_good(out):
            violate(f'different files are reported as equal: {out!r}')
        want = sum(x != y for x, y in zip(a, b)) + abs(len(a) - len(b))
        got = [int(x) for x in re.findall(r'(\d+)\s*bytes', out)]
        if not failed and want not in got:
            violate(f'{want} bytes differ, reported {got}: {out!r}')
        count('different pairs')
        if len(a) != len(b):
            count('pairs of different length')
    for x in (a, b):
        if not failed and str(len(x)) not in re.findall(r'\d+', out):
            violate(f'the length {len(x)} is not reported: {out!r}')
    for name, x in (('origin_data', a), ('unsealed_data', b)):
        if open(os.path.join(d, name), 'rb').read() != x:
            violate(f'{name} was altered by comparing')


def desc(x):
    return 'missing' if x is None else f'{len(x)} bytes {x[:16].hex()}'


def contents(n):
    k = rng.randrange(6)
    if k == 0:
        return bytes(n)
    if k == 1:
        return b'\xff' * n
    if k == 2:
        return bytes(rng.choice(b'\r\n\x1a\x00ab') for _ in range(n))
    return rng.randbytes(n)


def comparisons():
    sizes = [0, 1, 2, 3, 63, 64, 255, 256, 4095, 4096, 4097, 65536, 70001]
    for n in sizes:
        for r in range(3):
            a = contents(n)
            compare(a, a, 'equal', process=(r == 0))
            for at in sorted({0, n // 2, n - 1}):
                if 0 <= at < n:
                    b = bytearray(a)
                    b[at] ^= 1 << rng.randrange(8)
                    compare(a, bytes(b), f'byte {at} altered', process=(r == 0 and at == 0))
            for k in (1, 2, 256, 4096):
                compare(a, a + contents(k), f'{k} bytes too long')
                if k <= n:
                    compare(a, a[:-k], f'{k} bytes too short')
                    compare(a, a[k:], f'{k} bytes missing at the front')
    for x, y in ((None, b'abc'), (b'abc', None), (None, None)):
        compare(x, y, 'missing', process=True)
        compare(x, y, 'missing')
    for i in range(3000 if THOROUGH else 300):
        n = rng.choice([rng.randrange(1, 50), rng.randrange(1, 5000), rng.randrange(1, 100000)])
        a = contents(n)
        b = bytearray(a)
        for _ in range(rng.choice([0, 1, 1, 2, 3, 10, 256, 300])):
            b[rng.randrange(len(b))] = rng.randrange(256)
        if rng.randrange(3) == 0:
            b = b[:rng.randrange(n + 1)]
        if rng.randrange(4) == 0:
            i, j = rng.randrange(n), rng.randrange(n)
            if i < len(b) and j < len(b):
                b[i], b[j] = b[j], b[i]
        compare(a, bytes(b), 'random')
    # a big pair with one alteration far out
    n = 5_000_000
    a = rng.randbytes(n)
    for at in (4_194_303, 4_194_304, n - 1):
        b = bytearray(a)
        b[at] ^= 0x80
        compare(a, bytes(b), f'byte {at} of {n} altered')
    state['samples'].append(state['case'])


# ----------------------------------------------------------------------- primes
def sure_prime(n):
    """Miller-Rabin, independent: deterministic below 3.3e24, else 40 random bases."""
    if n < 2:
        return False
    small = [2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41]
    for p in small:
        if n % p == 0:
            return n == p
    d, s = n - 1, 0
    while d % 2 == 0:
        d //= 2
        s += 1
    bases = small if n < 3317044064679887385961981 else [rng.randrange(2, n - 1) for _ in range(40)]
    for a in bases:
        x = pow(a, d, n)
        if x in (1, n - 1):
            continue
        for _ in range(s - 1):
            x = x * x % n
            if x == n - 1:
                break
        else:
            return False
    return True


# smallest strong pseudoprimes to the first 5, 6, 7, 9, 12 and 13 primes, and Arnault's to all below 200
P1 = 29674495668685510550154174642905332730771991799853043350995075531276838753171770199594238596428121188033664754218345562493168782883
MADE = [2152302898747, 3474749660383, 341550071728321, 3825123056546413051, 318665857834031151167461, 3317044064679887385961981,
        P1 * (313 * (P1 - 1) + 1) * (353 * (P1 - 1) + 1)]


def primes():
    try:
        m = runpy.run_path(PRIME, run_name='prime_under_test')
        is_prime, get_prime = m['is_prime'], m['get_prime']
    except Exception:
        violate('the prime script cannot be loaded: ' + traceback.format_exc())

    def ask(n):
        try:
            return bool(is_prime(n))
        except Exception as e:
            violate(f'is_prime({n}) raised {e!r}')

    # everything below the square of the first prime not in the list is decided without chance
    top = 2_200_000
    sieve = bytearray([1]) * (top + 1)
    sieve[0:2] = b'\0\0'
    for i in range(2, int(top ** 0.5) + 1):
        if sieve[i]:
            sieve[i * i::i] = bytes(len(range(i * i, top + 1, i)))
    lim = 1009 * 1009 - 1 if THOROUGH else 200_000
    for n in range(-20, lim + 1):
        if n % 5000 == 0:
            case(f'is_prime on the 5000 numbers from {n}')
        want = n >= 2 and sieve[n] == 1
        if ask(n) != want:
            state['case'] = f'is_prime({n})'
            violate(f'{n} is called {"composite" if want else "prime"}')
        count('small numbers')
    # primes are never refused
    for bits in list(range(20, 130, 3)) + [160, 255, 256, 257, 512, 521, 1024]:
        for _ in range(6 if bits < 300 else 2):
            n = rng.getrandbits(bits) | 1 | 1 << (bits - 1)
            while not sure_prime(n):
                n += 2
            case(f'is_prime(a prime of {bits} bits: {n})')
            if not ask(n):
                violate('a prime is called composite')
            count('primes')
    for e in (31, 61, 89, 107, 127, 521, 607, 1279):
        case(f'is_prime(2^{e}-1)')
        if not ask(2 ** e - 1):
            violate('a Mersenne prime is called composite')
        count('primes')
    built = '10711734159436774894171334484137626675507759979749407253125221261168087448899876831488509454695461974257751111853456275453329348448922191916590010377596767'
    case('is_prime(the 512-bit prime of the repository)')
    if not ask(int(built)):
        violate('a built-in prime is called composite')
    # composites: the worst have almost a quarter of liars, so at most one in 1024 calls may err
    kinds, each = {}, {}

    def composite(kind, n):
        case(f'is_prime({kind}: {n})', n)
        count('composites')
        r = ask(n)
        a, b = kinds.get(kind, (0, 0))
        kinds[kind] = (a + r, b + 1)
        if r:
            each[n] = each.get(n, 0) + 1
        return r

    def rprime(bits):
        n = rng.getrandbits(bits) | 1 | 1 << (bits - 1)
        while not sure_prime(n):
            n += 2
        return n
    worst, squares, carm = [], [], []
    while len(worst) < 12:
        p = rprime(40) | 3          # p = 3 mod 4, 2p-1 prime: almost a quarter of strong liars
        if sure_prime(p) and sure_prime(2 * p - 1):
            worst.append(p * (2 * p - 1))
    while len(carm) < 8:
        k = rng.randrange(10 ** 5, 10 ** 8)
        f = [6 * k + 1, 12 * k + 1, 18 * k + 1]
        if all(map(sure_prime, f)):
            carm.append(f[0] * f[1] * f[2])
    squares = [rprime(b) ** 2 for b in (12, 20, 64, 200)]
    reps = 4 if THOROUGH else 1
    for n in worst:
        for _ in range(1700 * reps):
            composite('p(2p-1)', n)
    for n in carm:
        for _ in range(100 * reps):
            composite('Carmichael number', n)
    for n in squares:
        for _ in range(50):
            composite('square of a prime', n)
    for _ in range(300 * reps):
        composite('product of two primes', rprime(rng.choice([12, 30, 64, 128])) * rprime(rng.choice([12, 30, 64, 128])))
    for _ in range(300 * reps):
        composite('multiple of a small prime', rng.choice([2, 3, 5, 7, 991, 997]) * rprime(rng.choice([11, 30, 200])))
    # composites made against fixed bases
    for n in MADE:
        for _ in range(200 * reps):
            composite('pseudoprime to the first bases', n)
    # one call each on many of the worst: whoever is taken for a prime is so by chance only
    some = [p for p in range(1009, top // 2, 2) if p % 4 == 3 and sieve[p] and sieve[2 * p - 1]]
    for p in rng.sample(some, min(len(some), 3000 * reps)):
        n = p * (2 * p - 1)
        if composite('p(2p-1), another each time', n):
            again = sum(ask(n) for _ in range(60))
            count('accepted composites asked again')
            if again > 9:
                violate(f'the composite {n} is called prime in {again + 1} of 61 calls')
    for n, bad in each.items():
        if bad > 2 + 1700 * reps / 1024 + 9 * (1700 * reps / 1024) ** 0.5:
            state['case'] = f'is_prime({n}), many times'
            violate(f'this composite is called prime {bad} times')
    for k, (bad, n) in kinds.items():
        allowed = 0 if k == 'multiple of a small prime' else 2 + n / 1024 + 7 * (n / 1024) ** 0.5
        if bad > allowed:
            state['case'] = f'is_prime on {n} composites, {k}'
            violate(f'{bad} of {n} composites are called prime')
        state['samples'].append(f'{k}: {bad} of {n} called prime')
    # made primes
    seen = set()
    sizes = [2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 15, 16, 17, 20, 24, 31, 32, 33, 48, 64, 100, 128, 160, 256, 512]
    for bits in sizes:
        for _ in range(max(3, min(150, 4000 // bits)) * (3 if THOROUGH else 1)):
            case(f'get_prime({bits})')
            try:
                p = get_prime(bits)
            except Exception as e:
                violate(f'raised {e!r}')
            if p.bit_length() != bits:
                violate(f'{p} has {p.bit_length()} bits')
            if p % 4 != 3:
                violate(f'{p} is not 3 modulo 4')
            if not sure_prime(p):
                violate(f'{p} is not a prime')
            if bits >= 100:
                if p in seen:
                    violate(f'{p} was made twice')
                seen.add(p)
            count('made primes')
            state['distinct'].add(p)
    # every eligible prime of a small width can come out
    got = {get_prime(8) for _ in range(2000)}
    want = {p for p in range(128, 256) if sure_prime(p) and p % 4 == 3}
    state['case'] = 'get_prime(8), 2000 times'
    if got != want:
        violate(f'made {sorted(got)}, there are {sorted(want)}')
    case('get_prime() of the default width')
    p = get_prime()
    if p.bit_length() != 1024 or p % 4 != 3 or not sure_prime(p):
        violate(f'{p}')
    # as a program
    case('the script as a program')
    r = subprocess.run([sys.executable, '-B', PRIME], capture_output=True, text=True)
    lines = r.stdout.split()
    if r.returncode != 0 or len(lines) != 2 or not lines[0].isdigit() or lines[1] != 'True':
        violate(f'printed {r.stdout!r} {r.stderr[-300:]!r}')
    p = int(lines[0])
    if p.bit_length() != 512 or p % 4 != 3 or not sure_prime(p):
        violate(f'printed {p}')


work = os.path.join(os.environ['VERIF_SCRATCH'], 'c28')
os.makedirs(work)
os.chdir(work)
comparisons()
primes()
signal.alarm(0)
evidence(0)
print(f'C28: held ({time.time() - start:.1f} s)')
