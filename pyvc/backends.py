import subprocess
import tempfile
import os


def cvc5_check(smt, timeout_s=20):
    """second back end: the same query given to cvc5 as SMT-LIB text"""
    txt = '(set-logic ALL)\n' + '\n'.join(l for l in smt.splitlines() if not l.startswith('(set-info'))
    fd, name = tempfile.mkstemp(suffix='.smt2')
    try:
        with os.fdopen(fd, 'w') as f:
            f.write(txt)
        try:
            r = subprocess.run(['cvc5', '--strings-exp', '--tlimit=%d' % (timeout_s * 1000), name],
                               capture_output=True, text=True, timeout=timeout_s + 5)
        except (subprocess.TimeoutExpired, OSError):
            return 'unknown'
        out = r.stdout.strip().splitlines()
        return out[0] if out and out[0] in ('sat', 'unsat') else 'unknown'
    finally:
        os.unlink(name)
