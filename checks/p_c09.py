"""C09: configuration files keep everything that was stored in them over any history of sessions, faults and crashes."""
from common import *
from common import _lib
from p_c06 import Disk
import math

_lib.shim_ini_open.restype = ctypes.c_void_p
_lib.shim_ini_open.argtypes = [ctypes.c_char_p, ctypes.c_int, ctypes.c_char_p]
_lib.shim_ini_close.argtypes = [ctypes.c_void_p]
_lib.shim_ini_sections.argtypes = [ctypes.c_void_p, ctypes.c_char_p, ctypes.c_int]
_lib.shim_ini_op.argtypes = [ctypes.c_void_p, ctypes.c_int] + [ctypes.c_char_p]*4 + [ctypes.c_int, ctypes.c_char_p]

class Ini:
    """the library's ConfigFile"""
    def __init__(self, name, must):
        e = ctypes.create_string_buffer(1000)
        self.h = _lib.shim_ini_open(name.encode(), int(must), e)
        if not self.h: raise RuntimeError(e.value.decode('latin1'))
    def sections(self):
        b = ctypes.create_string_buffer(100000); _lib.shim_ini_sections(self.h, b, 100000)
        return b.value.decode('latin1').split('\n')[:-1]
    def op(self, c, sec, key='', val=''):
        b = ctypes.create_string_buffer(100000); e = ctypes.create_string_buffer(1000)
        r = _lib.shim_ini_op(self.h, ord(c), sec.encode('latin1'), key.encode('latin1'), val.encode('latin1'), b, 100000, e)
        return ('error',) if r else ('ok', b.value.decode('latin1'))
    def close(self): _lib.shim_ini_close(self.h); self.h = None

WS = ' \t\n\r'
class Dup(Exception): pass
class Err(Exception): pass

class Model:
    """reference model, written from the documentation of the classes: ordered sections of ordered lines"""
    def __init__(self, b):
        self.secs = []      # [name, [(key or None, text)]]
        self.mod = False
        lines = b.decode('latin1').split('\n')
        if lines and lines[-1] == '': lines.pop()
        cur = None
        for l in lines:
            t = l.lstrip(WS)
            if t.startswith('[') and ']' in t:
                n = t[1:t.index(']')].strip(WS)
                if n == '': continue
                cur = self.find(n)
            else:
                if cur is None: cur = self.find('')
                self.addline(cur, l)
    def find(self, name):
        for s in self.secs:
            if s[0].lower() == name.lower(): return s
        self.secs.append([name, []]); return self.secs[-1]
    @staticmethod
    def get(s, key):
        for i, (k, v) in enumerate(s[1]):
            if k is not None and k.lower() == key.lower(): return i
        return None
    def addline(self, s, l):
        t = l.lstrip(WS) if l.strip(WS) else l
        if '=' in t and t.index('=') > 0 and t[0] not in '#;':
            k, v = t.split('=', 1); k = k.rstrip(WS); v = v.strip(WS)
            if self.get(s, k) is not None: raise Dup(k)
            s[1].append((k, v))
        else:
            for c in '\r\n':
                if c in t: t = t[:t.index(c)]
            s[1].append((None, t))
    def lines(self, s): return [v if k is None else k+'='+v for k, v in s[1]]
    def dump(self):
        o = []
        for i, s in enumerate(self.secs):
            L = self.lines(s)
            if not L: continue
            if s[0]: o.append('['+s[0]+']')
            o += L
            if L[-1] != '' and i < len(self.secs)-1: o.append('')
        return ''.join(l+'\n' for l in o).encode('latin1')
    def op(self, c, sec, key='', val=''):
        try: return ('ok', self.op1(c, self.find(sec), key, val))
        except (Dup, Err): return ('error',)
    def unset(self, s, key):
        i = self.get(s, key)
        if i is None: return False
        del s[1][i]; self.mod = True; return True
    def put(self, s, key, val):
        self.mod = True
        i = self.get(s, key)
        if i is None: s[1].append((key, val))
        else: s[1][i] = (s[1][i][0], val)
    def op1(self, c, s, key, val):
        i = self.get(s, key); v = None if i is None else s[1][i][1]
        if c == 's': return val if v is None else v
        if c == 'c': return str(int(v is not None))
        if c == 'k': return ''.join(k+'\n' for k, _ in s[1] if k is not None)
        if c == 'l': return ''.join(l+'\n' for l in self.lines(s))
        if c == 'L': return ''.join('%s=%s ' % (k, x) for k, x in s[1] if k is not None)
        if c == 'd': return '%.17g' % (float(val) if not v else number(v))
        if c == 'i': return '%d' % (int(val) if not v else toint(number(v)))
        if c == 'b': return str(int(boolean(('True' if val == '1' else 'False') if v is None else v)))
        if c == 'v': return '%.17g ' % 42. if not v else ''.join('%.17g ' % number(q) for q in v.replace(',', ' ').split(' ') if q)
        if c in 'SP':
            j = self.get(s, val)
            if i is not None and j is not None: raise Err
            r = v if v is not None else s[1][j][1] if j is not None else 'none'
            if c == 'P': self.unset(s, key); self.unset(s, val)
            return r
        if c == 'p': r = val if v is None else v; self.unset(s, key); return r
        if c == 'u': return str(int(self.unset(s, key)))
        if c == '=': self.put(s, key, val); return ''
        if c == 'I': self.put(s, key, '%d' % int(val)); return ''
        if c == 'B': self.put(s, key, 'true' if val == '1' else 'false'); return ''
        if c == 'a': self.addline(s, val); return ''
        raise ValueError(c)

def number(v):
    import re
    m = re.match(r'\s*([-+]?(?:inf(?:inity)?|nan|(?:\d+\.?\d*|\.\d+)(?:e[-+]?\d+)?))', v, re.I)
    if not m: raise Err
    return float(m.group(1))
def toint(x):
    if not math.isfinite(x): raise Err
    return max(-2147483648, min(2147483647, int(x)))
def boolean(v):
    for ch in v:
        if ch in '0nNfF': return False
        if ch in '1yYtT': return True
        if ch not in ' \t"\'': raise Err
    return False

KEYS = ['alpha', 'Alpha', 'beta', 'two words', 'mass', 'MASS', 'x', 'lmax', 'gamma', 'k1', 'k2', 'k3']
SECS = ['Potential', 'potential disk', 'POTENTIAL', 'Data', 'Orbit params', 's1', 'S1']
def value(rng): return rng.choice(['1', '-2.5', '1e5', '3.75e-3', 'text', 'a=b', 'true', 'False', 'yes', 'no', '1, 2, 3', '4 5', '', 'file name.txt', 'inf', 'x#y', '[1]', '7 units', '2147483648', '-3e10', 'Text', 'TEXT', 'TRUE', '1E5', 'model #2', 'left ; right', "'quoted text'", '"q"', 'a  b', 'p=[2] # 3', '#lead', ';lead', 'tab\there'])

class History(Disk):
    name = 'ini-history'
    runs = 26
    def params(self, rng):
        S = []; init = self.init(rng); have = []; sec = ''
        for l in init.split('\n'):
            if l.strip().startswith('[') and ']' in l: sec = l.strip()[1:l.strip().index(']')].strip()
            elif '=' in l and l.strip()[0] not in '=#;': have.append((sec,)+tuple(t.strip() for t in l.split('=', 1)))
        alter = lambda t: rng.choice([t, t, t.lower(), t.upper(), t.swapcase()])
        for _ in range(rng.choice([1, 1, 2, 3, 4])):
            ops = []
            for _ in range(rng.choice([0, 1, 3, 6, 12])):
                c = rng.choice('=='*4 + 'IBDaaupP' + 'sscdibvSklL')
                key = rng.choice(KEYS); val = ''
                if c in 's=p': val = value(rng)
                elif c in 'dD': val = repr(rng.choice([0., 1.5, -3e-7, rng.gauss(0, 100)]))
                elif c in 'iI': val = str(rng.choice([0, 7, -12, 100000]))
                elif c in 'bB': val = rng.choice('01')
                elif c in 'SP': val = rng.choice(KEYS)
                elif c == 'a': val = rng.choice(['# comment', '', '  ; another', rng.choice(KEYS)+rng.choice(['=', ' = ', '= ', '\t=\t'])+value(rng), 'no equal sign'])
                sec = rng.choice(SECS)
                if rng.random() < 0.6 and have:      # an existing entry, or one set before
                    h = rng.choice(have); sec, key = alter(h[0]), alter(h[1])
                    if c == '=' and rng.random() < 0.4: val = rng.choice([alter(h[2]), h[2]+' ', h[2]+'0'])
                    if c in 'SP' and rng.random() < 0.5: val = alter(rng.choice(have)[1])
                if c == '=': have.append((sec, key, val))
                ops.append((c, sec, key, val))
            S.append(dict(file=rng.choice(['o_a', 'o_a', 'o_a', 'o_b']), must=rng.random() < 0.15, ops=ops, dump=rng.random() < 0.5))
        return dict(sessions=S, init=init)
    def init(self, rng):
        if rng.random() < 0.25: return ''
        L = []; nl = rng.choice(['\n', '\n', '\n', '\r\n'])
        for _ in range(rng.choice([1, 3, 10, 40, 400])):
            u = rng.random()
            if u < 0.15: L.append(rng.choice(['[%s]', ' [%s]', '[ %s ]', '[%s] # tail', '[%s']) % rng.choice(SECS))
            elif u < 0.25: L.append(rng.choice(['', '# comment = 1', '; remark', '   ', 'free text', '= 5', '[]']))
            else: L.append(rng.choice(['', '', ' ', '\t']) + rng.choice(KEYS)+ (str(len(L)) if rng.random() < 0.997 else '') + rng.choice(['=', ' = ', '= ', '\t=\t']) + value(rng) + rng.choice(['', '', ' ', '\t']))
        return nl.join(L) + (nl if rng.random() < 0.8 else '')
    def make(self, p): return {}
    def populate(self, p, ctx):
        if p['init']:
            with open('o_a', 'wb') as s: s.write(p['init'].encode('latin1'))
    def run(self, p, ctx, x):
        fd0 = self.nfd(); R = []
        err = os.open('stderr', os.O_WRONLY | os.O_CREAT | os.O_TRUNC); keep = os.dup(2); os.dup2(err, 2); os.close(err)
        _lib.shim_verbosity(1)
        self.armio(1)
        def raw(f):      # not subject to faults: read through the harness' own descriptor
            simlib.rt.agsim_pause_io(0)
            try:
                with open(f, 'rb') as s: b = s.read()
            except OSError: b = None
            simlib.rt.agsim_pause_io(1)
            return b
        nf = lambda: [int(v) for v in simlib.res.iofired]
        for i, s in enumerate(p['sessions']):
            self.progress(i)
            q = dict(before=raw(s['file'])); f0 = nf(); e0 = os.fstat(2).st_size
            try: h = Ini(s['file'], s['must'])
            except RuntimeError as ex: h = None; q['open'] = msg1(str(ex))
            f1 = nf()
            if h is not None:
                q['out'] = [h.op(*o) for o in s['ops']]; q['secs'] = h.sections()
                if s['dump']: q['dump'] = [h.op('l', n) for n in q['secs']]
                h.close()
            q['after'] = raw(s['file']); f2 = nf()
            q['fopen'] = {simlib.FKN[k]: f1[k]-f0[k] for k in range(simlib.NK) if f1[k] > f0[k]}
            q['fsave'] = {simlib.FKN[k]: f2[k]-f1[k] for k in range(simlib.NK) if f2[k] > f1[k]}
            q['warn'] = os.fstat(2).st_size > e0
            R.append(q)
        self.progress(len(p['sessions']))
        self.armio(0); os.dup2(keep, 2); os.close(keep)
        return dict(R=R, fds=self.nfd()-fd0)
    def check(self, s, q):
        """one session against the reference model, given the bytes found on the disk"""
        HL = ('rshort', 'reintr', 'wshort', 'weintr', 'crash')
        bad = [k for k in q['fopen'] if k not in HL+('closeerr',)]; badw = [k for k in q['fsave'] if k not in HL]
        if bad:
            if 'openerr' in bad and not s['must']: return ''        # an inaccessible file counts as a new one
            if 'open' not in q: 
                # the error may have been irrelevant only if everything has been read
                try: m = Model(q['before'] or b'')
                except Dup: return 'an input error was ignored'
                if q['secs'] != [t[0] for t in self.touched(m, s).secs]: return 'an input error was ignored: sections %s' % q['secs']
                return 'an input error was not reported'
            return '' if q['after'] == q['before'] else 'file changed although opening failed'
        try: m = Model(q['before'] or b''); dup = False
        except Dup: dup = True
        if q['before'] is None and s['must']:
            return '' if 'open' in q and q['after'] is None else 'a missing file was accepted'
        if dup: return '' if 'open' in q and q['after'] == q['before'] else 'duplicate key was accepted'
        if 'open' in q: return 'opening failed: '+q['open']
        for o, r in zip(s['ops'], q['out']):
            o = tuple(o)
            if o[0] == 'D':
                v = self.real(m, o, q, r)
                if v: return v
                continue
            w = m.op(*o)
            if tuple(r) != w: return 'operation %s returned %r instead of %r' % (o, tuple(r), w)
        if q['secs'] != [t[0] for t in m.secs]: return 'sections %s instead of %s' % (q['secs'], [t[0] for t in m.secs])
        if s['dump']:
            w = [('ok', m.op('l', t[0])[1]) for t in m.secs]; g = [tuple(t) for t in q['dump']]
            if w != g:
                for a, b in zip(w, g):
                    if a != b and not all(self.closeline(u, v) for u, v in zip(a[1].split('\n'), b[1].split('\n'))): return 'content of a section %r instead of %r' % (b, a)
        want = m.dump() if m.mod and m.secs else q['before']
        if badw:
            if not m.mod: return '' if q['after'] == q['before'] else 'unmodified file was rewritten'
            a = q['after']; ok = a == q['before'] and 'openerr' in badw or a is not None and self.prefix(a, want)
            if not ok: return 'after a failed write the file (%r) is neither unchanged nor a beginning of the new content' % (a and a[-80:],)
            if not q['warn'] and not (a is not None and self.equal(a, want)): return 'a failure to store the file left no message'
            return ''
        if m.mod and q['before'] is not None and m.secs == []: want = q['before']
        if (q['after'] is None) != (want is None) or want is not None and not self.equal(q['after'], want): return 'file after closing is %r instead of %r' % (q['after'] and q['after'][-200:], want and want[-200:])
        return ''
    def touched(self, m, s):
        for o in s['ops']: m.find(o[1])
        return m
    def real(self, m, o, q, r):
        m.op('=', o[1], o[2], '%.14g' % float(o[3])); return '' if r[0] == 'ok' else 'setting a number failed'
    @staticmethod
    def closeline(u, v):
        if u == v: return True
        a, b = u.split('='), v.split('=')
        try: return len(a) == 2 and len(b) == 2 and a[0] == b[0] and abs(float(a[1])-float(b[1])) <= 1e-10*abs(float(a[1]))
        except ValueError: return False
    def equal(self, a, b):
        if a == b: return True
        A, B = a.decode('latin1').split('\n'), b.decode('latin1').split('\n')
        return len(A) == len(B) and all(self.closeline(u, v) for u, v in zip(A, B))
    def prefix(self, a, b):
        if b is None: return False
        if b.startswith(a): return True
        A, B = a.decode('latin1').split('\n'), b.decode('latin1').split('\n')      # numbers may be printed in another form
        return len(A) <= len(B) and all(self.closeline(u, v) for u, v in zip(A[:-1], B))
    def refcheck(self, p, ref):
        r = ref['ref']
        if r.exc is not None: return [(self.name+':ref-exception', str(r.exc))]
        for i, (s, q) in enumerate(zip(p['sessions'], r.obs['R'])):
            d = self.check(s, q)
            if d: return [(self.name+':model', 'session %d: %s' % (i, d))]
        return []
    def plan(self, rng, p, ref, sidx):
        r = ref['ref']; f = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            k = rng.choice(['rerr', 'rshort', 'reintr', 'openerr', 'werr', 'werr', 'wshort', 'weintr', 'space', 'space', 'closeerr', 'crash', 'crash', 'crash'])
            if k == 'rerr': f.append((k, rng.randint(1, max(1, r.nreads)), rng.choice([5, 116])))
            elif k == 'rshort': f.append((k, rng.randint(1, max(1, r.nreads)), rng.choice([1, 2, 7, 100, 4096])))
            elif k == 'reintr': f.append((k, rng.randint(1, max(1, r.nreads))))
            elif k == 'openerr': f.append((k, rng.randint(1, max(1, r.nopen)), rng.choice([13, 24, 5])))
            elif k == 'werr': f.append((k, rng.randint(1, max(1, r.nwrite)), rng.choice([5, 28, 122]), rng.choice([0, 1])))
            elif k == 'wshort': f.append((k, rng.randint(1, max(1, r.nwrite)), rng.choice([1, 300, 999])))
            elif k == 'weintr': f.append((k, rng.randint(1, max(1, r.nwrite))))
            elif k == 'space': f.append((k, rng.choice([0, rng.randint(0, max(1, r.bytesw)), max(0, r.bytesw-1), r.bytesw])))
            elif k == 'closeerr': f.append((k, rng.randint(1, max(1, r.nopen)), rng.choice([5, 28])))
            elif k == 'crash': f.append((k, rng.randint(1, max(1, r.ioops)), rng.choice([0, 1, 250, 500, 777, 999, 1000])))
        return dict(seed=rng.getrandbits(40), faults=f), {}
    def judge(self, p, ref, out, cfg, x):
        if out.exc is not None: return [(self.name+':harness', str(out.exc[:2]))]
        if out.status == 'KILLED':
            if [k for k in out.fired if k not in ('rshort', 'reintr', 'wshort', 'weintr', 'crash')]: return []      # contents before the crash are not known
            fs = self.files(); cur = int(fs['progress']); R = ref['ref'].obs['R']
            state = dict(o_a=p['init'].encode('latin1') if p['init'] else None, o_b=None)
            for q, s in zip(R[:cur], p['sessions']): state[s['file']] = q['after']
            v = []
            for f in state:
                b = fs.get(f)
                if cur < len(R) and p['sessions'][cur]['file'] == f:
                    q = R[cur]
                    if not (b == q['before'] or b is not None and q['after'] is not None and q['after'].startswith(b)): v.append((self.name+':crash', 'killed during session %d: the file (%s bytes) is neither the old one nor a beginning of the new one' % (cur, b and len(b))))
                elif b != state[f]: v.append((self.name+':crash', 'killed during session %d: another file, stored earlier, is damaged' % cur))
            return v
        v = []; stick = {}
        for i, (s, q) in enumerate(zip(p['sessions'], out.obs['R'])):
            for k in ('werr', 'space'):      # these errors persist from their first occurrence on
                if k in q['fsave']: stick[k] = 1
            q['fsave'] = dict(stick, **q['fsave'])
            d = self.check(s, q)
            if d: v.append((self.name+':fault' if out.fired else self.name+':model', 'session %d: %s; faults %s %s' % (i, d, q['fopen'], q['fsave']))); break
        if out.obs['fds']: v.append((self.name+':fd', '%d file descriptors leaked' % out.obs['fds']))
        return v
    def stats(self, p, out, x):
        R = out.obs['R'] if out.obs else []
        return dict(killed=int(out.status == 'KILLED'), rejected=sum('open' in q for q in R), stored=sum(q['after'] != q['before'] for q in R), warned=sum(q['warn'] for q in R))

WORKLOADS = [History()]
