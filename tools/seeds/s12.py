SEED = dict(id='C07-narrow-shift-minmax', property='C07',
 needs='shift by an array of different shift values in the narrow class, with a value at the top of its range',
 what_it_breaks='NarrowFix.shift derives its intermediate format from the first shift value only, so a larger shift later in the array leaves the intermediate format (and is rejected or wrapped) while WideFix handles it',
 edits=[('narrow_fix.py', "        return NarrowFix(self._data * 2.0 ** shift, mid_fmt, copy=False).resize(r_fmt, rnd, sat)\n    \n    # \"+\" operator", "        return NarrowFix(np.ldexp(self._data, np.max(shift)) if np.ndim(shift) else self._data * 2.0 ** shift, mid_fmt, copy=False).resize(r_fmt, rnd, sat)\n    \n    # \"+\" operator")],
 demo="""
f = FixFormat(1, 4, 2)
a = NarrowFix(np.array([1.25, -3.5]), f)
sh = np.array([1, -1])
r = a.shift(sh, FixFormat(1, 8, 4))
assert list(r.data) == [2.5, -1.75], r.data
""")
