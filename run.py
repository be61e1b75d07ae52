#!/usr/bin/env python3
"""run.py <property> [--replay FILE [-v]]: decide one property on the current /repo tree."""
import os, sys
os.environ.setdefault('PYTHONHASHSEED', '0')
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))


def main():
    import engine
    pid = sys.argv[1]
    import props
    if pid == 'selftest':
        import units, build
        print('verilator', os.popen('verilator --version').read().strip(), 'checks', len(props.DYN) + len(units.U))
        return 0
    if pid in props.DYN:
        c = props.DYN[pid]()
        if '--replay' in sys.argv:
            return engine.replay_dynamic(c, os.path.abspath(sys.argv[sys.argv.index('--replay') + 1]))
        return engine.run_dynamic(c)
    import units
    return units.run(pid, sys.argv[2:])


if __name__ == '__main__':
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException:
        import traceback
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
