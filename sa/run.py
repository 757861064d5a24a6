import sys
sys.setrecursionlimit(200000)
import threading
threading.stack_size(1 << 29)
import core, front
import checks


def main():
    rc = [2]

    def go():
        try:
            rc[0] = core.run(sys.argv[1])
        except front.FrontError as x:
            print('error:', x)
    t = threading.Thread(target=go)
    t.start()
    t.join()
    sys.stdout.flush()
    return rc[0]


if __name__ == '__main__':
    sys.exit(main())
