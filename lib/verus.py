"""Runs Verus on a generated file and reads its verdict."""
import json, os, signal, subprocess, time

NL6 = ['--smt-option', 'smt.arith.nl=true', '--smt-option', 'smt.arith.solver=6']
NL2 = ['--smt-option', 'smt.arith.nl=true', '--smt-option', 'smt.arith.solver=2']
MODES = {None: [], False: [], True: NL6, 6: NL6, 2: NL2}

def run(path, nl=False, rlimit=20, timeout=400, threads=8, extra=()):
    cmd = ['verus', '--triggers-mode', 'silent', '--output-json', '--time', '--rlimit', str(rlimit),
           '--num-threads', str(threads), '--multiple-errors', '20', path, '--error-format=json'] + list(extra)
    cmd += MODES[nl]
    t = time.time()
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                         cwd=os.path.dirname(path), start_new_session=True)
    try:
        so, se = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        try: os.killpg(p.pid, signal.SIGKILL)     # verus and its z3 processes
        except ProcessLookupError: pass
        p.communicate()
        return {'cmd': cmd, 'timeout': True, 'diags': [], 'wall': time.time() - t, 'json': None, 'stderr': 'timeout', 'stdout': '', 'rc': -9}
    diags = []
    for l in se.splitlines():
        if l.startswith('{'):
            try: d = json.loads(l)
            except ValueError: continue
            if d.get('level') in ('error', 'note', 'warning'): diags.append(d)
    try:
        j = json.loads(so)
    except ValueError:
        j = None
    return {'cmd': cmd, 'timeout': False, 'diags': diags, 'wall': time.time() - t, 'json': j,
            'stderr': se, 'stdout': so, 'rc': p.returncode}
