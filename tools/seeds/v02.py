F='hdl/en_cl_fix_pkg.vhd'
P='hdl/en_cl_fix_private_pkg.vhd'
SEED = dict(id='C18-shift-clamped', property='C18',
 needs='cl_fix_shift to the left by more than the width of the operand (into a format with low-order room)',
 what_it_breaks='the shift distance is limited to the operand width ("everything is shifted out"), which is wrong for fixed-point shifts into another format',
 edits=[(F, "        constant dummy_fmt_c  : FixFormat_t := (result_fmt.S, result_fmt.I - shift, result_fmt.F + shift);", "        -- Shifting by more than the number of bits has no further effect\n        constant shift_c      : integer := minimum(shift, maximum(cl_fix_width(a_fmt), 16));\n        constant dummy_fmt_c  : FixFormat_t := (result_fmt.S, result_fmt.I - shift_c, result_fmt.F + shift_c);")],
 vhdl="""
        assert cl_fix_shift("0101", (0,4,0), 20, (0,24,0)) = std_logic_vector(to_unsigned(5*2**20, 24)) severity failure;
""")
