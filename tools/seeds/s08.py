SEED = dict(id='C09-inrange-before-rounding', property='C09',
 needs='the in_range method of NarrowFix with a rounding mode that rounds a value just below the minimum up to it',
 what_it_breaks='The lower limit is checked before rounding, so values that round up to the minimum are reported as out of range',
 edits=[('narrow_fix.py', "        lo = np.where(rounded < NarrowFix.min_value(r_fmt), False, True)\n", "        lo = np.where(self < NarrowFix.min_value(r_fmt), False, True)\n")],
 demo="""
x = NarrowFix(np.array([-4.25]), FixFormat(1, 4, 2))
assert bool(x.in_range(FixFormat(1, 2, 0), FixRound.NonSymPos_s)[0])
assert not bool(x.in_range(FixFormat(1, 2, 0), FixRound.Trunc_s)[0])
""")
