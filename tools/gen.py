import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from extract import Unit
u = Unit("/repo", sys.argv[1])
t = u.expand(vacuity="-v" in sys.argv)
if u.lost: sys.stderr.write(str(u.lost) + "\n")
print(t)
