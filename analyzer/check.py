"""python3 analyzer/check.py <property id>: decide one property from the source"""
import importlib, os, sys, threading
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(400000)
threading.stack_size(1 << 29)


def main(pid):
    import framework, registry
    spec = registry.SPECS[pid]
    framework.limit_memory(12 << 10)
    c = framework.Check(pid)
    return registry.run(c, spec)


if __name__ == '__main__':
    out = []

    def go():
        try:
            if sys.argv[1] == 'all':
                import registry
                rc = 0
                for p in sorted(registry.SPECS):
                    rc |= main(p)
                out.append(rc)
            else:
                out.append(main(sys.argv[1]))
        except SystemExit as e:
            out.append(e.code)
    t = threading.Thread(target=go)
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(out[0] if out else 2)
