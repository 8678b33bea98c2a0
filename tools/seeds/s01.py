SEED = dict(id='C01-union-ends', property='C01',
 needs='cl_fix_union_fmt of a collection of three or more formats whose widest member is neither first nor last',
 what_it_breaks='The union format of a collection ignores its inner members',
 edits=[('en_cl_fix_types.py', "        for i in range(1, len(fmts)):\n", "        for i in range(len(fmts)-1, len(fmts)):\n")],
 demo="""
fmts = [FixFormat(0, 1, 2), FixFormat(1, 7, 5), FixFormat(0, 3, 0)]
u = cl_fix_union_fmt(fmts)
assert (u.S, u.I, u.F) == (1, 7, 5), u
""")
