"""Builds the real library from /repo's working tree and runs it over a line protocol (concrete search and replay)."""
import os, subprocess, tempfile, shutil, threading, glob, atexit
from concurrent.futures import ThreadPoolExecutor
REPO = os.environ.get('REPO', '/repo')
HERE = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'native')
LIB = 'Base58Check CurvePoint Ecdsa ExtendedPrivateKey FieldInt Keccak256 Ripemd160 Sha256 Sha256Hash Sha512 Uint256 Utils'.split()

class Build:
    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix='dvnat'); self.pid = os.getpid()
        self.jobs = {}; self.pool = ThreadPoolExecutor(8); self.lock = threading.Lock(); self.errors = {}
        atexit.register(self.close)
    def close(self):
        if os.getpid() == self.pid: shutil.rmtree(self.dir, ignore_errors=True)
    def job(self, key, f):
        with self.lock:
            if key not in self.jobs: self.jobs[key] = self.pool.submit(f)
            return self.jobs[key]
    def cc(self, cmd):
        r = subprocess.run(cmd, capture_output=True, text=True)
        return r.returncode == 0, r.stderr
    def objs(self, config, flags):
        defs = ['-DUSE_X8664_ASM_IMPL'] if config == 'asm' else []
        srcs = sorted(glob.glob(os.path.join(REPO, 'cpp', '*.cpp')))
        js = []
        for s in srcs:
            b = os.path.basename(s)[:-4]
            if b.endswith('Test') or b == 'EcdsaOpCount': continue
            o = '%s/%s_%s.o' % (self.dir, config, b)
            js.append(self.job((config, b), lambda s=s, o=o: (self.cc(['g++', '-std=c++11', '-w'] + flags + defs + ['-I' + REPO + '/cpp', '-c', s, '-o', o]), o)))
        if config == 'asm':
            o = '%s/asm_s.o' % self.dir
            js.append(self.job((config, 's'), lambda: (self.cc(['g++', '-c', REPO + '/cpp/AsmX8664.s', '-o', o]), o)))
        return js
    FLAGS = ['-O1', '-fsanitize=address,undefined', '-fno-sanitize-recover=all']
    def trace(self, config):
        """executable recording basic blocks and addresses (constant-time replay)"""
        defs = ['-DUSE_X8664_ASM_IMPL'] if config == 'asm' else []
        d = '%s/tr_%s' % (self.dir, config)
        def f():
            os.makedirs(d, exist_ok=True); os_ = []
            fl = ['clang++', '-std=c++11', '-w', '-O0', '-I' + REPO + '/cpp'] + defs
            js = []
            for b in LIB:
                s = '%s/cpp/%s.cpp' % (REPO, b)
                if not os.path.exists(s): continue
                o = '%s/%s.o' % (d, b); os_.append(o)
                js.append(self.pool.submit(self.cc, fl + ['-fsanitize-coverage=trace-pc,trace-loads,trace-stores', '-c', s, '-o', o]))
            o = d + '/hct.o'; os_.append(o); js.append(self.pool.submit(self.cc, fl + ['-c', HERE + '/hct.cpp', '-o', o]))
            if config == 'asm':
                o = d + '/asm.o'; os_.append(o); js.append(self.pool.submit(self.cc, ['clang++', '-c', REPO + '/cpp/AsmX8664.s', '-o', o]))
            for j in js:
                if not j.result()[0]: return j.result()
            return self.cc(['clang++'] + os_ + ['-o', d + '/x'])
        with self.lock:
            if not hasattr(self, 'trc'): self.trc = {}
            if config not in self.trc: self.trc[config] = f()
        ok, err = self.trc[config]
        if not ok: self.errors[('trace', config)] = err[:500]; return None
        return d + '/x'
    def exe(self, config, group):
        """path of a harness executable or None"""
        js = self.objs(config, self.FLAGS)
        defs = ['-DUSE_X8664_ASM_IMPL'] if config == 'asm' else []
        h = '%s/h_%s_%s.o' % (self.dir, config, group)
        j = self.job((config, 'h', group), lambda: (self.cc(['g++', '-std=c++11', '-w'] + self.FLAGS + defs + ['-DG_' + group, '-I' + REPO + '/cpp', '-c', HERE + '/h.cpp', '-o', h]), h))
        (ok, err), _ = j.result()
        if not ok: self.errors[(config, group)] = err[:500]; return None
        os_ = []
        for x in js:
            (ok, err), o = x.result()
            if not ok: self.errors[(config, group)] = err[:500]; return None
            os_.append(o)
        e = '%s/x_%s_%s' % (self.dir, config, group)
        ok, err = self.job((config, 'x', group), lambda: self.cc(['g++'] + self.FLAGS + [h] + os_ + ['-o', e])).result()
        if not ok: self.errors[(config, group)] = err[:500]; return None
        return e
    def java(self):
        d = self.dir + '/java'
        def f():
            os.makedirs(d, exist_ok=True)
            srcs = [s for s in sorted(glob.glob(REPO + '/java/io/nayuki/bitcoin/crypto/*.java')) if not s.endswith('Test.java')]
            return self.cc(['/usr/bin/javac', '-nowarn', '-encoding', 'UTF-8', '-d', d] + srcs + [HERE + '/DvHarness.java'])
        ok, err = self.job('java', f).result()
        if not ok: self.errors['java'] = err[:500]; return None
        return d
    def proc(self, target):
        """target: 'pure:U', 'asm:U', 'java'"""
        if target == 'java':
            d = self.java()
            return Proc(['java', '-ea', '-Xss64m', '-XX:+UseSerialGC', '-XX:TieredStopAtLevel=4', '-cp', d, 'io.nayuki.bitcoin.crypto.DvHarness']) if d else None
        c, g = target.split(':')
        if c == 'trace':
            e = self.trace(g); return Proc([e]) if e else None
        e = self.exe(c, g)
        return Proc([e]) if e else None

class Proc:
    def __init__(self, cmd):
        self.cmd = cmd; self.p = None
    def start(self):
        env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0', UBSAN_OPTIONS='print_stacktrace=0')
        self.p = subprocess.Popen(self.cmd, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env)
    def run(self, lines, timeout=60, max_crashes=1 << 30):
        """responses, one per line; a crash gives 'CRASH ...', a hang 'HANG'"""
        out = []
        i = 0; crashes = 0
        while i < len(lines):
            if crashes >= max_crashes: break
            if self.p is None: self.start()
            p = self.p; chunk = lines[i:]
            def feed():
                try:
                    p.stdin.write(('\n'.join(chunk) + '\n').encode('ascii')); p.stdin.flush()
                except (BrokenPipeError, OSError): pass
            th = threading.Thread(target=feed, daemon=True); th.start()
            hang = []
            tm = threading.Timer(timeout, lambda: (hang.append(1), p.kill())); tm.start()
            n = 0
            try:
                while n < len(chunk):
                    l = p.stdout.readline()
                    if not l.endswith(b'\n'): break
                    out.append(l.decode('ascii', 'replace').rstrip('\n')); n += 1
            finally: tm.cancel()
            i += n
            if n < len(chunk):
                if hang:
                    self.stop(); out.append('HANG'); i += 1; crashes += 1
                    continue
                err = b''
                try: p.kill()
                except OSError: pass
                try: err = p.stderr.read()
                except Exception: pass
                self.p = None
                txt = err.decode('utf-8', 'replace')
                key = [l for l in txt.split('\n') if 'ssert' in l or 'runtime error' in l or 'ERROR' in l]
                out.append('CRASH ' + (key[0] if key else txt[-200:].replace('\n', ' ')))
                i += 1; crashes += 1
            th.join(1)
        return out
    def stop(self):
        if self.p is not None:
            try: self.p.kill(); self.p.wait(5)
            except Exception: pass
            self.p = None
