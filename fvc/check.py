import importlib, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))


def run(pid):
    from fvc import harness
    mod = importlib.import_module('props.' + pid)
    return harness.main(mod)


if __name__ == '__main__':
    try:
        rc = run(sys.argv[1])
    except SystemExit:
        raise
    except BaseException as e:     
        import traceback
        traceback.print_exc()
        print('check machinery failed: %r' % (e,))
        rc = 2
    sys.exit(rc)
