F='hdl/en_cl_fix_pkg.vhd'
SEED = dict(id='C21-to-real-chunk-order', property='C21',
 needs='cl_fix_to_real of a format of more than 30 bits',
 what_it_breaks='the chunks of 30 bits are accumulated from the least significant one, so their weights are exchanged',
 edits=[(F, "        for i in ChunkCount_c-1 downto 0 loop\n            result_v :=", "        for i in 0 to ChunkCount_c-1 loop\n            result_v :=")],
 vhdl="""
        assert cl_fix_to_real("0101", (0,2,2)) = 1.25 severity failure;
        assert cl_fix_to_real("1101", (1,1,2)) = -0.75 severity failure;
        assert cl_fix_to_real(x"00000003", (0,30,2)) = 0.75 severity failure;
        assert cl_fix_to_real(x"FFFFFFFF", (1,31,0)) = -1.0 severity failure;
        assert cl_fix_to_real(x"40000000", (1,31,0)) = 2.0**30 severity failure;
""")
