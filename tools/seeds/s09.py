SEED = dict(id='C15-random-wide-max', property='C15',
 needs='wide formats: the random source must return the last value of its range',
 what_it_breaks='The wide random generator passes the range with randint and an exclusive bound, so it can return maximum+1',
 edits=[('en_cl_fix.py', "            xint[i] = random.randrange(int(fmt_min), int(fmt_max)+1)\n", "            xint[i] = random.randint(int(fmt_min), int(fmt_max)+1)\n")],
 demo="""
import random
f = FixFormat(1, 50, 20)
random.randrange = lambda a, b=None: b-1
random.randint = lambda a, b: b
r = cl_fix_random((2,), f)
assert all(int(x) == 2**70-1 for x in r), r
""")
