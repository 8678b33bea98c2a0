SEED = dict(id='C13-union-aliases-first', property='C13',
 needs='a direct call of FixFormat.union / cl_fix_union_fmt whose second format is larger than the first (for_abs was reordered so that it does not show)',
 what_it_breaks='union grows the first format passed to it in place and returns that very object',
 edits=[('en_cl_fix_types.py', "        r_fmt = shallow_copy(fmts[0])\n", "        r_fmt = fmts[0]\n"),
        ('en_cl_fix_types.py', "        return FixFormat.union(a_fmt, neg_fmt)\n", "        return FixFormat.union(neg_fmt, a_fmt)\n")],
 demo="""
a, b = FixFormat(0, 1, 2), FixFormat(1, 7, 5)
u = cl_fix_union_fmt(a, b)
assert (u.S, u.I, u.F) == (1, 7, 5)
assert (a.S, a.I, a.F) == (0, 1, 2), a
assert u is not a
""")
