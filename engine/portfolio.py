"""Second-line discharge of one verification condition: fresh z3 with the QF tactic, int-blasting, cvc5."""
import subprocess, tempfile, time, os, re
import z3
import lia
import lia2


def smt2(fs):
    s = z3.Solver()
    s.add(*fs)
    # z3's names for division by what is known not to be zero
    return re.sub(r'\bbv([us](?:div|rem|mod))_i\b', r'bv\1', s.to_smt2())


def cvc5(fs, timeout, opt):
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
        f.write('(set-logic ALL)\n' + smt2(fs))
    try:
        p = subprocess.run(['cvc5', '--tlimit=%d' % int(timeout * 1000), *opt, f.name], capture_output=True, text=True, timeout=2 * timeout)
        return p.stdout.startswith('unsat')
    except subprocess.TimeoutExpired:
        return False
    finally:
        os.unlink(f.name)


def prove(fs, timeout, stats):
    t = time.time()
    try:
        if lia2.prove(fs, int(timeout * 1000 / 2)) == 'unsat':
            return 'unsat', None, 'z3-lia2'
        if lia.prove(fs, int(timeout * 1000 / 3))[0] == 'unsat':
            return 'unsat', None, 'z3-lia'
        for name, mk in (('z3', lambda: z3.Solver()), ('z3-qf', lambda: z3.Then('simplify', 'solve-eqs', 'propagate-values', 'simplify', 'smt').solver()),
                         ):
            s = mk()
            s.set('timeout', int(timeout * 1000 / 3))
            s.add(*fs)
            r = s.check()
            if r == z3.unsat:
                return 'unsat', None, name
            if r == z3.sat:
                return 'sat', s.model(), name
        for opt in (['--solve-bv-as-int=sum'], []):
            if cvc5(fs, timeout / 2, opt):
                return 'unsat', None, 'cvc5' + ''.join(opt)
        return 'unknown', None, 'none'
    finally:
        stats['solver_s'] += time.time() - t
        stats['queries'] += 1
