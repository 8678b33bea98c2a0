F='hdl/en_cl_fix_pkg.vhd'
P='hdl/en_cl_fix_private_pkg.vhd'
SEED = dict(id='C18-compare-integer-path', property='C18',
 needs='cl_fix_compare on operands whose common format is unsigned and exactly 32 bits wide, with the top bit set',
 what_it_breaks='a fast path compares through VHDL integers up to 32 bits, but unsigned values above 2**31-1 do not fit: wrong result',
 edits=[(F, """        if mid_fmt_c.S = 1 then
            if    comparison = "="  then return signed""", """        -- Ordering of narrow values through integers (faster in simulation)
        if mid_fmt_c.S = 0 and comparison = "<" and cl_fix_width(mid_fmt_c) <= 32 then
            return to_integer(signed(resize(unsigned(a_v), 32))) < to_integer(signed(resize(unsigned(b_v), 32)));
        end if;
        
        if mid_fmt_c.S = 1 then
            if    comparison = "="  then return signed""")],
 vhdl="""
        assert cl_fix_compare("<", x"7FFFFFFF", (0,16,16), x"80000000", (0,16,16)) severity failure;
        assert not cl_fix_compare("<", x"80000000", (0,16,16), x"7FFFFFFF", (0,16,16)) severity failure;
        assert cl_fix_compare("<", "01", (0,1,1), "10", (0,1,1)) severity failure;
""")
