"""check.py <property id>: decide one property, see DESIGN.md."""
import importlib
import os
import sys
import traceback

os.environ['PYTHONHASHSEED'] = '0'
for v in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS'):
    os.environ[v] = '1'
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib  # noqa: E402


def main(pid):
    c = vlib.Check(pid)
    try:
        drivers = {}
        d = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'drv')
        for f in sorted(os.listdir(d)):
            if f.endswith('.py') and not f.startswith('_'):
                with open(os.path.join(d, f)) as fh:
                    if 'def %s(' % pid in fh.read():
                        drivers[pid] = f[:-3]
        if pid not in drivers:
            print('unknown property', pid)
            return 2
        sys.path.insert(0, d)
        mod = importlib.import_module(drivers[pid])
        getattr(mod, pid)(c)
        return c.finish()
    except vlib.Broken as e:
        print('CHECK ERROR', e)
    except (MemoryError, OSError):
        traceback.print_exc()
    except Exception as e:
        # the library raised, or returned something that cannot even be
        # recorded, where the specification has an outcome
        traceback.print_exc()
        c.fails.append(('driver', {'ev': 'driver', 'exc': type(e).__name__,
                                   'where': traceback.format_exc()},
                        ['UnexplainedBehaviour'], [], 0))
        try:
            return c.finish()
        except Exception:
            traceback.print_exc()
    finally:
        c.cleanup()
    return 2


if __name__ == '__main__':
    sys.exit(main(sys.argv[1]))
