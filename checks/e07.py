"""E07: expressions"""
import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf.sqlcheck import *
QUICK = [("expr", 2400, 0, [[]])]
THOROUGH_ = [("expr", 5900, 0, [[]]), ("expr", 600, 40, P2)]
def check(): return sql_check("E07", QUICK, THOROUGH_)
if __name__ == "__main__":
    main(lambda: check().finish())
