F='hdl/en_cl_fix_pkg.vhd'
P='hdl/en_cl_fix_private_pkg.vhd'
SEED = dict(id='C20-parse-int-digits', property='C20',
 needs='a format with a field of five or more digits',
 what_it_breaks='the parser stops after four digits',
 edits=[(P, """                AbsoluteVal_v := AbsoluteVal_v * 10 +""", """                exit when AbsoluteVal_v > 999;  -- no format is this large
                AbsoluteVal_v := AbsoluteVal_v * 10 +""")],
 vhdl="""
        assert cl_fix_format_from_string("(1, 12345, -12340)") = (1,12345,-12340) severity failure;
""")
