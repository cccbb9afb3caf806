"""Drives the real code: builds the observer and the CLI from /repo's working
tree, runs observer processes, and classifies what happened to each request."""
import os, sys, json, struct, subprocess, resource, signal, time, select, tempfile, hashlib, shutil

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
TARGET = os.path.join(VERIF, 'target')
OBS = os.path.join(VERIF, 'harness', 'observer')


class HarnessError(Exception):
    """Something of ours failed: neither held nor violated."""


def toolchain_env():
    env = dict(os.environ)
    out = subprocess.run(['bash', '-c', '. /opt/vp/env.sh; env -0'], capture_output=True).stdout
    for item in out.split(b'\0'):
        if b'=' in item:
            k, v = item.split(b'=', 1)
            env[k.decode()] = v.decode('utf-8', 'surrogateescape')
    env['CARGO_NET_OFFLINE'] = 'true'
    env.pop('RUSTFLAGS', None)
    env.pop('CARGO_TARGET_DIR', None)
    return env


def cargo(args, env, cwd, log):
    t = time.time()
    r = subprocess.run(['cargo'] + args, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode != 0:
        sys.stderr.write(r.stdout.decode('utf-8', 'replace')[-6000:])
        raise HarnessError('%s: cargo %s failed' % (log, ' '.join(args)))
    return time.time() - t


def build(variant='plain'):
    """-> path of the binary built from the current working tree of /repo."""
    env = toolchain_env()
    if variant == 'plain':
        env['CARGO_TARGET_DIR'] = os.path.join(TARGET, 'observer')
        env['RUSTFLAGS'] = ''
        cargo(['build', '--offline', '--quiet', '--bin', 'seamobs'], env, OBS, variant)
        return os.path.join(TARGET, 'observer/debug/seamobs')
    if variant == 'lib':
        return build_lib(env)
    if variant == 'asan':
        env['CARGO_TARGET_DIR'] = os.path.join(TARGET, 'asan')
        env['RUSTFLAGS'] = '-Zsanitizer=address -Cforce-frame-pointers=yes'
        cargo(['build', '--offline', '--quiet', '--bin', 'seamobs', '--target', 'x86_64-unknown-linux-gnu'], env, OBS, variant)
        return os.path.join(TARGET, 'asan/x86_64-unknown-linux-gnu/debug/seamobs')
    if variant == 'cli':
        # The real command line program, as a user builds it.
        env['CARGO_TARGET_DIR'] = os.path.join(TARGET, 'cli')
        cargo(['build', '--offline', '--quiet', '--bin', 'seam'], env, REPO, variant)
        return os.path.join(TARGET, 'cli/debug/seam')
    if variant == 'miri':
        env, cmd = miri()
        r = subprocess.run(cmd, cwd=OBS, env=env, input=enc([('op', 'ping')]), stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        if b'pong' not in r.stdout:
            if b'could not compile' in r.stderr:
                # The tree uses something that Miri's compiler (a later one) no longer has.
                sys.stderr.write('note: Miri cannot compile this tree: AddressSanitizer only\n')
                return None
            sys.stderr.write(r.stderr.decode('utf-8', 'replace')[-4000:])
            raise HarnessError('Miri does not run')
        return cmd
    raise HarnessError('variant')


DECLARATIONS = 11       # `arguments!` in the observer's src/library.rs
REFUSED = {}            # those that do not compile: number -> compiler's words


def build_lib(env):
    """The observer of the library interface.  A declaration of arguments that
    does not compile is a result, not a failure of the harness."""
    env['CARGO_TARGET_DIR'] = os.path.join(TARGET, 'observer')
    env['RUSTFLAGS'] = ''

    def attempt(sets):
        r = subprocess.run(['cargo', 'build', '--offline', '--quiet', '--bin', 'seamlib', '--features', ','.join('s%d' % k for k in sets)], cwd=OBS, env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        return r.returncode == 0, r.stdout.decode('utf-8', 'replace')
    path = os.path.join(TARGET, 'observer/debug/seamlib')
    every = list(range(DECLARATIONS))
    ok, words = attempt(every)
    if ok:
        return path
    ok, plain = attempt([])
    if not ok:
        sys.stderr.write(plain[-6000:])
        raise HarnessError('lib: cargo build failed')
    for k in every:
        ok, words = attempt([k])
        if not ok:
            at = words.find('\nerror')
            REFUSED[k] = words[max(0, at):][:1500]
    ok, words = attempt([k for k in every if k not in REFUSED])
    if not ok or not REFUSED:
        sys.stderr.write(words[-6000:])
        raise HarnessError('lib: cargo build failed')
    return path


def miri():
    env = toolchain_env()
    for k in ('RUSTUP_TOOLCHAIN', 'RUSTC_WRAPPER', 'RUSTC_WORKSPACE_WRAPPER', 'CARGO_BUILD_RUSTC_WRAPPER'):
        env.pop(k, None)
    env.update(base_env({'PATH': env['PATH'], 'HOME': env.get('HOME', '/root')}))
    env['RUSTFLAGS'] = '--cfg seam_verif'
    env['MIRIFLAGS'] = '-Zmiri-disable-isolation -Zmiri-tree-borrows -Zmiri-ignore-leaks'
    env['CARGO_TARGET_DIR'] = os.path.join(TARGET, 'miri')
    env['SEAMOBS_STACK_MB'] = '16'
    return env, ['cargo', '+nightly', 'miri', 'run', '--offline', '--quiet', '--bin', 'seamobs']


def enc(fields):
    out = bytearray()
    for k, v in fields:
        k = k.encode()
        if isinstance(v, str):
            v = v.encode('utf-8')
        out += struct.pack('<I', len(k)) + k + struct.pack('<I', len(v)) + v
    return struct.pack('<I', len(out)) + bytes(out)


def base_env(extra=None):
    env = {'PATH': '/usr/bin:/bin', 'NO_COLOR': '1', 'TZ': 'UTC', 'LANG': 'C.UTF-8', 'HOME': '/nonexistent'}
    env.update(extra or {})
    return env


class Observer:
    """One observer process; restarted after a crash or a hang."""
    again = True            # whether to ask a second time after a hang
    CPU_LIMIT = 20.0        # seconds of CPU for one request
    WALL_LIMIT = 240.0      # watchdog only; firing without CPU use is inconclusive

    def __init__(self, binary, asan=False, env=None, mem_gb=6):
        self.binary, self.asan, self.extra, self.mem = binary, asan, env or {}, mem_gb
        self.p = None
        self.errfile = tempfile.TemporaryFile()
        self.served = 0
        self.uar = 1

    def start(self):
        env = base_env(self.extra)
        if self.asan:
            env['ASAN_OPTIONS'] = 'abort_on_error=1:halt_on_error=1:detect_leaks=0:allocator_may_return_null=0:' \
                                  'detect_stack_use_after_return=%d:quarantine_size_mb=64:symbolize=1:hard_rss_limit_mb=3500' % self.uar
        mem = self.mem

        def limits():
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            if mem and not self.asan:
                resource.setrlimit(resource.RLIMIT_AS, (mem << 30, mem << 30))
        self.errfile.seek(0)
        self.errfile.truncate()
        # Answers come on a descriptor of their own: what the library itself
        # might print is not one.
        self.answers, theirs = os.pipe()
        try:
            self.p = subprocess.Popen([self.binary], stdin=subprocess.PIPE, stdout=subprocess.DEVNULL, stderr=self.errfile,
                                      env=dict(env, SEAMOBS_FD=str(theirs)), preexec_fn=limits, cwd='/tmp', pass_fds=(theirs,))
        finally:
            os.close(theirs)

    def stop(self):
        if self.p:
            try:
                self.p.stdin.close()
            except OSError:
                pass
            try:
                self.p.kill()
            except OSError:
                pass
            self.p.wait()
            os.close(self.answers)
            self.p = None

    def cpu(self):
        try:
            with open('/proc/%d/stat' % self.p.pid) as f:
                parts = f.read().rsplit(')', 1)[1].split()
            return (int(parts[11]) + int(parts[12])) / os.sysconf('SC_CLK_TCK')
        except (OSError, IndexError):
            return 0.0

    def stderr_tail(self, n=4000):
        self.errfile.seek(0, 2)
        size = self.errfile.tell()
        self.errfile.seek(max(0, size - n))
        return self.errfile.read().decode('utf-8', 'replace')

    def ask(self, fields):
        """-> response dict, or {'crash': ..}, {'hang': ..}, {'lost': ..}"""
        r = self.ask_once(fields)
        if 'hang' in r and not self.again:
            return r
        if 'hang' in r or 'lost' in r:
            # Once more, alone in a fresh process, before believing it.
            r = self.ask_once(fields)
        elif 'crash' in r and 'signal 9' in r['crash']:
            r = self.ask_once(fields)
            if 'crash' in r and 'signal 9' in r['crash']:
                return {'lost': 'killed from outside'}
        return r

    def ask_once(self, fields):
        if self.p is None:
            self.start()
        cpu0, t0 = self.cpu(), time.time()
        try:
            self.p.stdin.write(enc(fields))
            self.p.stdin.flush()
        except (BrokenPipeError, OSError):
            return self.died()
        fd = self.answers
        need = None
        chunks, have = [], 0
        while True:
            if need is None and have >= 4:
                data = b''.join(chunks)
                need = struct.unpack('<I', data[:4])[0] + 4
                chunks = [data]
            if need is not None and have >= need:
                break
            ready, _, _ = select.select([fd], [], [], 1.0)
            if ready:
                b = os.read(fd, 1 << 16)
                if not b:
                    return self.died()
                chunks.append(b)
                have += len(b)
            else:
                used = self.cpu() - cpu0
                if used > self.CPU_LIMIT * (6 if self.asan else 1):
                    self.stop()
                    return {'hang': 'no answer after %.0f s of CPU time' % used}
                if time.time() - t0 > self.WALL_LIMIT:
                    self.stop()
                    return {'lost': 'watchdog'}
        self.served += 1
        try:
            return json.loads(b''.join(chunks)[4:need].decode('utf-8'))
        except UnicodeDecodeError as e:
            return {'crash': 'invalid UTF-8 in a result: %s' % e, 'stderr': ''}

    def died(self):
        p = self.p
        p.wait()
        err = self.stderr_tail()
        full = ''
        if self.asan:
            full = self.stderr_tail(200000)
        code = p.returncode
        self.stop()
        what = 'signal %d' % -code if code < 0 else 'exit status %d' % code
        return {'crash': what, 'stderr': full or err}


def digest(*parts):
    h = hashlib.sha1()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode('utf-8', 'surrogatepass'))
        h.update(b'\0')
    return h.hexdigest()


class Scratch:
    """A scratch directory removed on exit."""

    def __init__(self, prefix='seamv-'):
        self.path = tempfile.mkdtemp(prefix=prefix, dir='/tmp')

    def __enter__(self):
        return self.path

    def __exit__(self, *a):
        shutil.rmtree(self.path, ignore_errors=True)
