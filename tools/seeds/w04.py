SEED=dict(id='C04-wide-limit-float', property='C04', needs='saturation of a value above the maximum of a format with I+F of 54 bits or more', what_it_breaks='The upper limit is calculated in double precision, where 2**n - 1 rounds to 2**n',
edits=[('wide_fix.py','''            val = np.where(val > WideFix.max_value(r_fmt).data, WideFix.max_value(r_fmt).data, val)
            val = np.where(val < WideFix.min_value(r_fmt).data, WideFix.min_value(r_fmt).data, val)
''','''            fmt_max = int(2.0**(r_fmt.I + r_fmt.F) - 1)
            fmt_min = int(-2.0**(r_fmt.I + r_fmt.F)) if r_fmt.S == 1 else 0
            val = np.where(val > fmt_max, fmt_max, val)
            val = np.where(val < fmt_min, fmt_min, val)
''')],
demo='''
a = WideFix(np.array([2**61, -2**61, 5], dtype=object), FixFormat(1, 32, 30))
r = a.saturate(FixFormat(1, 30, 30), FixSaturate.Sat_s)
assert list(r.data) == [2**60 - 1, -2**60, 5], r.data
''')
