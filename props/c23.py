'''isxml recognises XML by signature or first character, safely'''
import codecs
import fcntl
import os
import resource
import subprocess
import sys
import tempfile

from hypothesis import strategies as st

from vlib import env, gen
from vlib.harness import OracleError, Sub, oracle, fail, short

RULE = ('The C extension is built from the current source with AddressSanitizer and UBSan and called in a process of its own, where the memory right after the given bytes is poisoned. '
        'All strings of up to two bytes, all of four bytes from the signatures and marks with several continuations (as examples), and random compositions of signatures, '
        'byte order marks, encoded texts, white space, NULs and invalid sequences, cut anywhere; results compared with a reference. Non-trivial: longer than three bytes, '
        'and the first byte is not "<" and not a letter.')
ASSUMPTIONS = ['Where a byte order mark is of an unusual byte order (2143, 3412), no decoding is available, so the result is False']

SIGNATURES = ['3c3f786d', '003c003f', '3c003f00', '4c6fa794', '0000003c', '3c000000', '00003c00', '003c0000']
WS = '\t\n\r '


def reference(b):
    if len(b) >= 4:
        first = b[:4].hex()
        if first in SIGNATURES:
            return True
        if first in ('0000feff', 'fffe0000'):
            codec = 'utf-32'
        elif first in ('0000fffe', 'feff0000'):
            return False
        elif first.startswith('efbbbf'):
            codec = 'utf-8'
            b = b[3:]
        elif first[:4] in ('feff', 'fffe'):
            codec = 'utf-16'
        else:
            codec = 'utf-8'
    else:
        codec = 'utf-8'
    try:
        s = b.decode(codec)
    except UnicodeDecodeError:
        return False
    return s.lstrip(WS)[:1] == '<'


class Driver:
    def __init__(self, mode):
        self.mode = mode
        self.proc = None

    def start(self):
        lock = open(os.path.join(env.scratch(), 'isxml.lock'), 'w')
        fcntl.flock(lock, fcntl.LOCK_EX)
        done = os.path.join(env.scratch(), 'ext_asan', 'done')
        if not os.path.exists(done):
            with oracle():
                try:
                    env.build_ext(sanitize=True)
                except subprocess.CalledProcessError as e:
                    raise OracleError('the extension can not be built: ' + e.stderr.decode()[-1500:])
                open(done, 'w').close()
        lock.close()
        lib = subprocess.run(['gcc', '-print-file-name=libasan.so'], capture_output=True, text=True).stdout.strip()
        self.err = tempfile.TemporaryFile()
        environ = dict(os.environ, LD_PRELOAD=os.path.realpath(lib), PYTHONMALLOC='malloc', ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:allocator_may_return_null=1')

        def unlimited():
            resource.setrlimit(resource.RLIMIT_AS, (resource.getrlimit(resource.RLIMIT_AS)[1],) * 2)
        dirs = [os.path.join(env.scratch(), 'ext_asan'), os.path.join(env.scratch(), 'path'), env.SITE]
        self.proc = subprocess.Popen([sys.executable, '-B', os.path.join(env.VERIF, 'vlib', 'isxml_driver.py'), self.mode] + dirs,
                                     stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err, text=True, env=environ, preexec_fn=unlimited)
        self.owner = os.getpid()

    def ask(self, strings):
        '''Answers, or None and what happened'''
        if self.proc is None or self.owner != os.getpid():
            self.start()
            with oracle():
                if self.send(['3c616161616161', '61616161616161']) is None:
                    raise OracleError('isxml does not work in the driver: ' + self.errors())
        out = self.send([s.hex() for s in strings])
        if out is None:
            what = self.errors()
            self.proc.kill()
            self.proc.wait()
            self.proc = None
            return None, what
        return out, None

    def send(self, hexes):
        try:
            self.proc.stdin.write(','.join(hexes) + '\n')
            self.proc.stdin.flush()
        except BrokenPipeError:
            return None
        line = self.proc.stdout.readline()
        return line.strip().split(',') if line.endswith('\n') else None

    def errors(self):
        self.proc.wait()
        self.err.seek(0)
        return self.err.read().decode('utf-8', 'replace')


drivers = {m: Driver(m) for m in ('module', 'package')}


def expand(case):
    if 'two' in case:
        a = bytes.fromhex(case['two'])
        return [a] + [a + bytes([x]) for x in range(256)] + ([b''] if a == b'\0' else [])
    if 'four' in case:
        a = bytes.fromhex(case['four'])
        rest = [bytes.fromhex(r) for r in case['rest']]
        return [a + bytes([x, y]) + r for x in BYTES for y in BYTES for r in rest]
    if 'page' in case:
        chars = [chr(case['page'] * 256 + i) for i in range(256)]
        return [t.encode(e) if e == 'utf-8' else codecs.BOM_UTF16_LE + t.encode(e) for e in ('utf-8', 'utf-16-le') for c in chars if not '\ud800' <= c <= '\udfff' for t in (c + '<', ' ' + c + '<x')]
    return [bytes.fromhex(''.join(p))[:cut if cut is not None else None] for p, cut in case['strings']]


def check(case, rec):
    with oracle():
        strings = expand(case)
        expected = [reference(s) for s in strings]
    answers, crash = drivers[case['as']].ask(strings)
    if answers is None:
        for s in strings:       # Which one
            answers, crash2 = drivers[case['as']].ask([s])
            if answers is None:
                fail('isxml({!r}) ends the process: {}', short(s), short(crash2, 1200))
        fail('isxml ends the process for one of {}: {}', short(strings), short(crash, 1200))
    rec.is_nontrivial = False
    for s, got, want in zip(strings, answers, expected):
        if got != str(int(want)):
            fail('isxml({!r}) gives {}, expected {}', short(s), {'0': 'False', '1': 'True'}.get(got, got), want)
        rec.label(str(want), 'short' if len(s) < 4 else 'signature' if s[:4].hex() in SIGNATURES else 'mark' if s[:2] in (b'\xfe\xff', b'\xff\xfe', b'\xef\xbb') or s[:4] == b'\0\0\xfe\xff' else 'other')
        if len(s) > 3 and s[:1] != b'<' and not s[:1].isalpha():
            rec.is_nontrivial = True


BYTES = sorted({int(s[i:i + 2], 16) for s in SIGNATURES for i in range(0, 8, 2)} | {0xfe, 0xff, 0xef, 0xbb, 0xbf, 0x20, 0x0a, 0x61, 0xc3})
MARKS = ['efbbbf', 'feff', 'fffe', '0000feff', 'fffe0000', '0000fffe', 'feff0000', 'efbb', 'ef', 'fe', 'ff', '0000', '2b2f76']


def h(s, enc):
    return s.encode(enc, 'surrogatepass').hex()


def strings():
    ws = st.text(alphabet=WS, max_size=9)
    text = st.tuples(ws, st.sampled_from(['<', '<a', '<?xml version="1.0"?>', 'a<', '', '>', '<é', '&lt;', '\x00<', '\xa0<', '\u2003<', '\x0b<', '\x0c<', '\x85<', '\ufeff<', '\u3c00', '\u003c\u3c3c', '\U0001f600<', 'x' * 40]), ws,
                     gen.texts(max_chunks=2)).map(''.join)
    enc = st.sampled_from(['utf-8', 'utf-8', 'utf-8', 'utf-16-le', 'utf-16-be', 'utf-32-le', 'utf-32-be', 'latin-1', 'cp037'])

    def encode(t):
        s, e = t
        try:
            return h(s, e)
        except UnicodeEncodeError:
            return h(s, 'utf-8')
    body = st.tuples(text, enc).map(encode)
    matching = st.tuples(text, st.sampled_from([('efbbbf', 'utf-8'), ('feff', 'utf-16-be'), ('fffe', 'utf-16-le'), ('0000feff', 'utf-32-be'), ('fffe0000', 'utf-32-le'), ('', 'utf-8'), ('fffe', 'utf-16-be'), ('feff', 'utf-16-le')])).map(
        lambda t: t[1][0] + h(t[0], t[1][1]))
    bad = st.sampled_from(['ff', 'c3', 'e282', 'f0', 'eda080', 'd8', 'd800', '00d8', 'c080', 'f4908080', '00', '0000', '80', 'f8888080', '00dc'])
    raw = st.binary(max_size=6).map(bytes.hex)
    wsh = st.text(alphabet=WS + '\x0b\x0c\x00', max_size=5).map(lambda s: h(s, 'utf-8'))
    piece = gen.pick(st.sampled_from(SIGNATURES), st.sampled_from(MARKS), body, body, bad, raw, wsh)
    whole = gen.pick(st.lists(piece, max_size=4), st.tuples(matching).map(list), st.tuples(matching, bad).map(list), st.tuples(wsh, body).map(list), st.tuples(st.sampled_from(MARKS), body).map(list))
    cut = gen.pick(st.none(), st.none(), st.integers(0, 12))
    return st.fixed_dictionaries({'strings': st.lists(st.tuples(whole, cut).map(list), min_size=1, max_size=8), 'as': st.sampled_from(['module', 'package'])})


EX2 = [{'two': '{:02x}'.format(a), 'as': 'module'} for a in range(256)]
EX4 = [{'four': '{:02x}{:02x}'.format(a, b), 'rest': ['', '3c', '20', '003c', '000000', '0a3c00', '3c000000', 'ff'], 'as': 'module'} for a in BYTES for b in BYTES]
# All characters of the basic plane, and some of others, in front of "<"
PAGES = [{'page': p, 'as': 'module'} for p in list(range(0xd8)) + list(range(0xe0, 0x102)) + [0x1d4, 0x1f6, 0x200, 0xe00, 0x10ff]]
SUBS = [
    Sub('strings', strings, check, 3000, 100000),
    Sub('short', strings, check, 0, 0, examples=EX2),
    Sub('beginnings', strings, check, 0, 0, examples=EX4),
    Sub('characters', strings, check, 0, 0, examples=PAGES),
]
