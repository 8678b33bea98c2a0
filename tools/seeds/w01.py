SEED=dict(id='C02-mult-sign', property='C02', needs='the product of two signed 1-bit operands', what_it_breaks='The product format of two signed 1-bit operands has a sign bit although no product is negative',
edits=[('en_cl_fix_types.py','''        # Sign bit
        if a_fmt.width == 1 and a_fmt.S == 1 and b_fmt.width == 1 and b_fmt.S == 1:
            # Special case: 1-bit signed * 1-bit signed is unsigned
            S = 0
        else:
            # Normal: If either input is signed, then output is signed
            S = max(a_fmt.S, b_fmt.S)
''','''        # Sign bit: If either input is signed, then output is signed
        S = max(a_fmt.S, b_fmt.S)
''')],
demo='''
r = FixFormat.for_mult(FixFormat(1, 3, -3), FixFormat(1, -2, 2))
assert (r.S, r.I, r.F) == (0, 2, -1), r
assert FixFormat.for_mult(FixFormat(1, 3, -3), FixFormat(1, -1, 2)).S == 1
''')
