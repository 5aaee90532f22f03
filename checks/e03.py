"""E03: GROUP BY, aggregates, HAVING"""
import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf.sqlcheck import *
QUICK = [("group", 1900, 0, P2), ("group", 96, 60, P2)]
THOROUGH_ = [("group", 5600, 0, P2), ("group", 1200, 60, P2)]
def check(): return sql_check("E03", QUICK, THOROUGH_)
if __name__ == "__main__":
    main(lambda: check().finish())
