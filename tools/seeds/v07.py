F='hdl/en_cl_fix_pkg.vhd'
P='hdl/en_cl_fix_private_pkg.vhd'
SEED = dict(id='C20-lower-z', property='C20',
 needs='the mode name SymZero_s written with a capital letter Z',
 what_it_breaks='capital Z is not converted to lower case, so "SymZero_s" in the file written by Python is only accepted in one spelling',
 edits=[(P, "            when 'Z' => v := 'z';", "            when 'Z' => v := 'Z';"), (F, """        elsif StrLower_c = "symzero_s" then""", """        elsif StrLower_c = "symzero_s" or Str = "SymZero_s" then""")],
 vhdl="""
        assert cl_fix_round_from_string("SYMZERO_S") = SymZero_s severity failure;
""")
