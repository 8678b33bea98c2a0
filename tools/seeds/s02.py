SEED = dict(id='C03-wide-truncate-float', property='C03',
 needs='rounding a wide value of more than 53 bits with ConvEven/ConvOdd, where the parity of the truncated value is lost in double precision',
 what_it_breaks='WideFix.round computes the truncated value for ConvEven with a floating-point division',
 edits=[('wide_fix.py', "                trunc_a = val >> (f - fr)\n                trunc_a_iseven = (trunc_a + 1) % 2\n", "                trunc_a = np.floor(val / 2**(f - fr))\n                trunc_a_iseven = (trunc_a + 1) % 2\n")],
 demo="""
a = WideFix(np.array([(2**60+1)*4+2], dtype=object), FixFormat(1, 61, 2))
r = a.round(FixFormat.for_round(a.fmt, 0, FixRound.ConvEven_s), FixRound.ConvEven_s)
assert int(r.data[0]) == 2**60+2, int(r.data[0])-2**60
""")
