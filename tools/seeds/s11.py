SEED = dict(id='C16-saturate-frac-wide', property='C16',
 needs='saturating to a format with more fractional bits than the data through the package function (both formats wide)',
 what_it_breaks='Requests that change the fractional bits are only rejected when bits would be lost',
 edits=[('en_cl_fix.py', "    assert r_fmt == cl_fix_round_fmt(a_fmt, r_fmt.F, rnd), \"cl_fix_round: Invalid result format. Use cl_fix_round_fmt().\"\n",
   "    assert r_fmt.I >= cl_fix_round_fmt(a_fmt, r_fmt.F, rnd).I, \"cl_fix_round: Invalid result format. Use cl_fix_round_fmt().\"\n"),
  ('narrow_fix.py', "        assert r_fmt == FixFormat.for_round(self._fmt, r_fmt.F, rnd), \"NarrowFix.round: Invalid result format. Use FixFormat.for_round().\"\n",
   "        assert r_fmt.I >= FixFormat.for_round(self._fmt, r_fmt.F, rnd).I, \"NarrowFix.round: Invalid result format. Use FixFormat.for_round().\"\n")],
 demo="""
for f in (lambda: cl_fix_round(np.array([1.5]), FixFormat(1, 4, 1), FixFormat(0, 7, 0), FixRound.Trunc_s),
          lambda: NarrowFix(np.array([1.5]), FixFormat(1, 4, 1)).round(FixFormat(1, 7, 0), FixRound.Trunc_s)):
    try:
        f()
    except AssertionError:
        continue
    raise SystemExit('accepted')
""")
