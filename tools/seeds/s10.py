SEED = dict(id='C12-unsigned-msb', property='C12',
 needs='unpacking words of an unsigned wide format (or a value) with bits above the position 63 of the last word',
 what_it_breaks='to_uint64_array computes too few words when the width is one more than a multiple of 64',
 edits=[('wide_fix.py', "        n_ints = (fmt.width + 63) // 64  # ceil(width / 64)\n", "        n_ints = max(1, (fmt.I + fmt.F + 63) // 64)  # ceil(width / 64)\n")],
 demo="""
x = WideFix(np.array([-3, 5], dtype=object), FixFormat(1, 60, 4))
u = x.to_uint64_array()
assert u.shape == (2, 2), u.shape
y = WideFix.from_uint64_array(u, x.fmt)
assert [int(v) for v in y.data] == [-3, 5]
""")
