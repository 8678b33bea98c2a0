SEED = dict(id='C05-mult-operands-narrow', property='C05',
 needs='cl_fix_add of two narrow operands whose full-precision sum has more than 53 bits',
 what_it_breaks='cl_fix_sub chooses the double-precision path from one operand width and the result width only',
 edits=[('en_cl_fix.py', "    mid_fmt = cl_fix_sub_fmt(a_fmt, b_fmt)\n    if r_fmt is None:\n        r_fmt = mid_fmt\n    \n    # Handle narrow/wide internal representation\n    a_wide = cl_fix_is_wide(a_fmt)\n    b_wide = cl_fix_is_wide(b_fmt)\n    mid_wide = cl_fix_is_wide(mid_fmt)\n    if a_wide or b_wide or mid_wide:",
  "    mid_fmt = cl_fix_sub_fmt(a_fmt, b_fmt)\n    if r_fmt is None:\n        r_fmt = mid_fmt\n    \n    # Handle narrow/wide internal representation\n    a_wide = cl_fix_is_wide(a_fmt)\n    b_wide = cl_fix_is_wide(b_fmt)\n    mid_wide = cl_fix_is_wide(mid_fmt)\n    if a_wide or b_wide or cl_fix_is_wide(r_fmt):")],
 demo="""
f = FixFormat(0, 0, 53); g = FixFormat(0, 20, 0)
a = np.array([2.0**-53]); b = np.array([2.0**20-1])
r = cl_fix_sub(a, f, b, g, FixFormat(1, 20, 0), FixRound.Trunc_s, FixSaturate.None_s)
assert float(r[0]) == -(2.0**20-1), r
r = cl_fix_sub(a, f, b, g, FixFormat(1, 0, 52), FixRound.NonSymPos_s, FixSaturate.None_s)
assert float(r[0]) == -1 + 2.0**-52, r
""")
