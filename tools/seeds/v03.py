F='hdl/en_cl_fix_pkg.vhd'
P='hdl/en_cl_fix_private_pkg.vhd'
SEED = dict(id='C17-mult-fmt-range', property='C17',
 needs='operands whose product has more than 63 integer bits',
 what_it_breaks='the intermediate number of integer bits is declared with a range that does not cover all formats: a run-time error for large formats the Python model accepts',
 edits=[(F, """        constant b_neg_fmt_c    : FixFormat_t := cl_fix_neg_fmt(b_fmt);
        variable rmaxI_v        : integer;""", """        constant b_neg_fmt_c    : FixFormat_t := cl_fix_neg_fmt(b_fmt);
        variable rmaxI_v        : integer range -128 to 127;""")],
 vhdl="""
        assert cl_fix_mult_fmt((1,100,0), (1,60,0)) = (1,161,0) severity failure;
""")
