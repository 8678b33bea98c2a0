SEED=dict(id='C11-wide-max-float', property='C11', needs='a real number that rounds to exactly 2**I in a wide format of more than 53 bits', what_it_breaks='The upper limit is compared as a float, which rounds up to 2**(I+F), so that the first number above the maximum is not clipped',
edits=[('wide_fix.py','''            x = np.where(x > WideFix.max_value(r_fmt)._data, WideFix.max_value(r_fmt)._data, x)
            x = np.where(x < WideFix.min_value(r_fmt)._data, WideFix.min_value(r_fmt)._data, x)
        else:
            # Wrapping''','''            x = np.where(x > float(WideFix.max_value(r_fmt)._data), WideFix.max_value(r_fmt)._data, x)
            x = np.where(x < float(WideFix.min_value(r_fmt)._data), WideFix.min_value(r_fmt)._data, x)
        else:
            # Wrapping''')],
demo='''
f = FixFormat(1, 10, 50)
r = WideFix.from_real(np.array([1024.0, 1024.5, -1024.0, -2000.0, 3.25]), f, FixSaturate.Sat_s)
assert list(r.data) == [2**60 - 1, 2**60 - 1, -2**60, -2**60, 13 * 2**48], r.data
''')
