"""E09: UPDATE, DELETE and SELECT INTO change exactly their target"""
import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf.sqlprog import *
QUICK = [("files", 1800, P0)]
THOROUGH_ = [("files", 9600, P0)]
if __name__ == "__main__":
    main(lambda: prog_check("E09", QUICK, THOROUGH_).finish())
