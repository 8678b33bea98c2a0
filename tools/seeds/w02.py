SEED=dict(id='C08-wide-eq-real', property='C08', needs='two wide values of more than 53 bits that differ only in their last bits', what_it_breaks='== compares the values after conversion to double precision',
edits=[('wide_fix.py','        a, b = WideFix.align_binary_points([self, other])\n        return a._data == b._data\n','        return self.to_real(warn=False) == other.to_real(warn=False)\n')],
demo='''
f = FixFormat(0, 40, 30)
a = WideFix(np.array([2**60, 2**60, 7], dtype=object), f); b = WideFix(np.array([2**60 + 1, 2**60, 14], dtype=object), FixFormat(0, 40, 31))
c = WideFix(np.array([2**60 + 1, 2**60, 7], dtype=object), f)
assert list(a == c) == [False, True, True] and list(a == b) == [False, False, True]
''')
