import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(20000)
from vlib.core import main
if __name__ == "__main__":
    if "PYTHONHASHSEED" not in os.environ:
        # the same answer every time: sets iterate in the same order
        os.environ["PYTHONHASHSEED"] = "0"
        os.execv(sys.executable, [sys.executable] + sys.argv)
    sys.exit(main(sys.argv[1:]))
