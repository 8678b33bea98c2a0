SEED = dict(id='C10-to-integer-int32', property='C10',
 needs='a narrow value whose unnormalized integer needs more than 32 bits',
 what_it_breaks='to_integer converts through a 32-bit integer type',
 edits=[('narrow_fix.py', "        return np.array(np.round(self._data*2.0**self._fmt.F), dtype=np.int64)\n", "        return np.array(np.round(self._data*2.0**self._fmt.F), dtype=np.int32 if self._fmt.width < 34 else np.int64)\n")],
 demo="""
f = FixFormat(0, 33, 0)
with np.errstate(all='ignore'):
    r = cl_fix_to_integer(np.array([2.0**32+5]), f)
assert int(r[0]) == 2**32+5, r
""")
