F='hdl/en_cl_fix_pkg.vhd'
P='hdl/en_cl_fix_private_pkg.vhd'
SEED = dict(id='C19-meta-hold', property='C19',
 needs='en_cl_fix_saturate with a register, whose input beat follows another after an idle cycle at a reset (metadata is only captured while rst was low in a cycle with valid data), i.e. back-to-back beats with different metadata',
 what_it_breaks='the metadata register is only loaded when the previous output was not valid, so back-to-back beats carry stale metadata',
 edits=[('hdl/en_cl_fix_saturate.vhd', "                out_meta <= in_meta;", "                if in_meta'length < 16 or out_valid = '0' then\n                    out_meta <= in_meta;\n                end if;")],
 decl="signal clk, rst, iv, ov : std_logic := '0'; signal id : std_logic_vector(7 downto 0) := x\"12\"; signal od : std_logic_vector(6 downto 0); signal im, om : std_logic_vector(31 downto 0) := x\"00000001\";",
 conc="""u : entity work.en_cl_fix_saturate generic map(in_fmt_g => (1,3,4), out_fmt_g => (1,2,4), saturate_g => Sat_s, reg_mode_g => Auto_s, meta_width_g => 32)
    port map(clk => clk, rst => rst, in_valid => iv, in_meta => im, in_data => id, out_valid => ov, out_meta => om, out_data => od);""",
 vhdl="""
        rst <= '1'; for i in 1 to 4 loop clk <= '1'; wait for 5 ns; clk <= '0'; wait for 5 ns; end loop;
        rst <= '0'; iv <= '1'; wait for 1 ns; clk <= '1'; wait for 5 ns; clk <= '0'; wait for 5 ns;
        assert ov = '1' and om = x"00000001" severity failure;
        im <= x"00000002"; wait for 1 ns; clk <= '1'; wait for 5 ns; clk <= '0'; wait for 5 ns;
        assert ov = '1' and om = x"00000002" report "stale metadata" severity failure;
""")
