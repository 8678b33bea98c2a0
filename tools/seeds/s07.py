SEED = dict(id='C14-warn-lower-limit', property='C14',
 needs='saturating signed data to a signed format in a warning mode with a value below the minimum and none above the maximum',
 what_it_breaks='The lower limit is only checked when the sign bit is dropped, so no warning is given for negative overflow',
 edits=[('narrow_fix.py', "            if np.any(self > fmt_max) or np.any(self < fmt_min):\n", "            if np.any(self > fmt_max) or (fmt.S > r_fmt.S and np.any(self < fmt_min)):\n")],
 demo="""
with warnings.catch_warnings(record=True) as w:
    warnings.simplefilter('always')
    r = cl_fix_saturate(np.array([-8.0, 1.0]), FixFormat(1, 3, 0), FixFormat(1, 2, 0), FixSaturate.SatWarn_s)
assert len(w) == 1, len(w)
assert list(r) == [-4.0, 1.0]
""")
