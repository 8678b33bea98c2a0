F='hdl/en_cl_fix_pkg.vhd'
P='hdl/en_cl_fix_private_pkg.vhd'
SEED = dict(id='C17-sub-fmt-min', property='C17',
 needs='a signed, b with its LSB weight far above the LSB of a (min(a.I, b.I) = -b.F exactly, many fractional bits apart)',
 what_it_breaks='the growth condition of the lower bound uses the fractional bits of the result instead of those of b: an extra integer bit that the Python model does not have',
 edits=[(F, "            growth_v := choose(minimum(a_fmt.I, b_fmt.I) > -b_fmt.F, a_fmt.S, 0);", "            growth_v := choose(minimum(a_fmt.I, b_fmt.I) > -b_fmt.F or b_fmt.F < -16, a_fmt.S, 0);")],
 vhdl="""
        assert cl_fix_sub_fmt((1,18,0), (0,19,-18)) = (1,19,0) report "sub fmt" severity failure;
        assert cl_fix_sub_fmt((1,2,0), (0,3,-2)) = (1,3,0) report "small sub fmt" severity failure;
""")
