SEED = dict(id='C04-saturate-float-limit', property='C04',
 needs='saturating a wide value that exceeds a wide maximum by exactly one LSB',
 what_it_breaks='The upper limit is compared as a double, so a value just above the maximum is not clipped',
 edits=[('wide_fix.py', "            val = np.where(val > WideFix.max_value(r_fmt).data, WideFix.max_value(r_fmt).data, val)\n", "            val = np.where(val > 2.0**(r_fmt.I+r_fmt.F), WideFix.max_value(r_fmt).data, val)\n"),
 ],
 demo="""
a = WideFix(np.array([2**70], dtype=object), FixFormat(0, 80, 0))
r = a.saturate(FixFormat(0, 70, 0), FixSaturate.Sat_s)
assert int(r.data[0]) == 2**70-1, int(r.data[0])
""")
