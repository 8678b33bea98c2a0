F='hdl/en_cl_fix_pkg.vhd'
P='hdl/en_cl_fix_private_pkg.vhd'
SEED = dict(id='C19-resize-reset-stage2', property='C19',
 needs='a one-cycle reset pulse while a beat is between the two register stages of en_cl_fix_resize',
 what_it_breaks='the reset is not passed to the second stage, so the beat in flight survives a one-cycle reset',
 edits=[('hdl/en_cl_fix_resize.vhd', """        clk         => clk,
        rst         => rst,
        -- Input
        in_valid    => round_valid,""", """        clk         => clk,
        rst         => '0',     -- The first stage is cleared
        -- Input
        in_valid    => round_valid,""")],
 decl="signal clk, rst, iv, ov : std_logic := '0'; signal id : std_logic_vector(7 downto 0) := x\"12\"; signal od : std_logic_vector(5 downto 0); signal im, om : std_logic_vector(1 downto 0) := \"01\";",
 conc="""u : entity work.en_cl_fix_resize generic map(in_fmt_g => (1,3,4), out_fmt_g => (1,2,3), round_g => NonSymPos_s, saturate_g => Sat_s, reg_mode_g => Yes_s, meta_width_g => 2)
    port map(clk => clk, rst => rst, in_valid => iv, in_meta => im, in_data => id, out_valid => ov, out_meta => om, out_data => od);""",
 vhdl="""
        rst <= '1'; for i in 1 to 4 loop clk <= '1'; wait for 5 ns; clk <= '0'; wait for 5 ns; end loop;
        rst <= '0'; iv <= '1'; wait for 1 ns; clk <= '1'; wait for 5 ns; clk <= '0'; wait for 5 ns;
        iv <= '0'; rst <= '1'; wait for 1 ns; clk <= '1'; wait for 5 ns; clk <= '0'; wait for 5 ns;
        assert ov = '0' report "beat survived the reset" severity failure;
        rst <= '0'; wait for 1 ns; clk <= '1'; wait for 5 ns; clk <= '0'; wait for 5 ns;
        assert ov = '0' report "beat survived the reset" severity failure;
""")
