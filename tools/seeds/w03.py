SEED=dict(id='C06-addsub-format', property='C06', needs='the addsub method of NarrowFix with a result format of its own', what_it_breaks='The result object carries the intermediate format of the operation, not the requested one',
edits=[('narrow_fix.py','        r_data = np.where(add, radd._data, rsub._data)\n        return NarrowFix(r_data, r_fmt, copy=False)\n','        r_data = np.where(add, radd._data, rsub._data)\n        return NarrowFix(r_data, mid_fmt, copy=False)\n')],
demo='''
a = NarrowFix(np.array([1.5, -2.0]), FixFormat(1, 2, 1)); b = NarrowFix(np.array([0.25, 1.75]), FixFormat(1, 1, 2))
r = a.addsub(b, np.array([True, False]), FixFormat(1, 5, 0))
assert r.fmt == FixFormat(1, 5, 0), r.fmt
assert list(r.data) == [1.0, -4.0]
''')
