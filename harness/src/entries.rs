//! Table of all harness entries (name, body, number of jobs), used by the native replayer.
pub type Entry = (&'static str, extern "C" fn(), extern "C" fn() -> u32);
use crate::*;
pub const ENTRIES: &[Entry] = &[
    ("h_p01_gap", p1::h_p01_gap, p1::h_p01_gap_jobs),
    ("h_p01_cfg", p1::h_p01_cfg, p1::h_p01_cfg_jobs),
    ("h_p01_ctx", p1::h_p01_ctx, p1::h_p01_ctx_jobs),
    ("h_p02_gap", p1::h_p02_gap, p1::h_p02_gap_jobs),
    ("h_p02_cfg", p1::h_p02_cfg, p1::h_p02_cfg_jobs),
    ("h_p02_ctx", p1::h_p02_ctx, p1::h_p02_ctx_jobs),
    ("h_p21_gap", p10::h_p21_gap, p10::h_p21_gap_jobs),
    ("h_p21_ctx", p10::h_p21_ctx, p10::h_p21_ctx_jobs),
    ("h_p21_text", p10::h_p21_text, p10::h_p21_text_jobs),
    ("h_p21_big", p10::h_p21_big, p10::h_p21_big_jobs),
    ("h_p20_com", p10::h_p20_com, p10::h_p20_com_jobs),
    ("h_p20_wide", p10::h_p20_wide, p10::h_p20_wide_jobs),
    ("h_p20_wbig", p10::h_p20_wbig, p10::h_p20_wbig_jobs),
    ("h_p22_row", p11::h_p22_row, p11::h_p22_row_jobs),
    ("h_p22_big", p11::h_p22_big, p11::h_p22_big_jobs),
    ("h_p23", p12::h_p23, p12::h_p23_jobs),
    ("h_p23_list", p12::h_p23_list, p12::h_p23_list_jobs),
    ("h_p03_gap", p2::h_p03_gap, p2::h_p03_gap_jobs),
    ("h_p03_cfg", p2::h_p03_cfg, p2::h_p03_cfg_jobs),
    ("h_p06_gap", p2::h_p06_gap, p2::h_p06_gap_jobs),
    ("h_p06_ctx", p2::h_p06_ctx, p2::h_p06_ctx_jobs),
    ("h_p05_short", p2::h_p05_short, p2::h_p05_short_jobs),
    ("h_p05_uni", p2::h_p05_uni, p2::h_p05_uni_jobs),
    ("h_p05_cfg", p2::h_p05_cfg, p2::h_p05_cfg_jobs),
    ("h_p07_str", p2::h_p07_str, p2::h_p07_str_jobs),
    ("h_p07_esc", p2::h_p07_esc, p2::h_p07_esc_jobs),
    ("h_p07_long", p2::h_p07_long, p2::h_p07_long_jobs),
    ("h_p07_num", p2::h_p07_num, p2::h_p07_num_jobs),
    ("h_p16", p2::h_p16, p2::h_p16_jobs),
    ("h_p18_gap", p2::h_p18_gap, p2::h_p18_gap_jobs),
    ("h_p18_text", p2::h_p18_text, p2::h_p18_text_jobs),
    ("h_p18_ctx", p2::h_p18_ctx, p2::h_p18_ctx_jobs),
    ("h_p20_ctx", p3::h_p20_ctx, p3::h_p20_ctx_jobs),
    ("h_p20_gap", p3::h_p20_gap, p3::h_p20_gap_jobs),
    ("h_p20_all", p3::h_p20_all, p3::h_p20_all_jobs),
    ("h_p20_big", p3::h_p20_big, p3::h_p20_big_jobs),
    ("h_p14_ctx", p3::h_p14_ctx, p3::h_p14_ctx_jobs),
    ("h_p14_gap", p3::h_p14_gap, p3::h_p14_gap_jobs),
    ("h_p15_gap", p3::h_p15_gap, p3::h_p15_gap_jobs),
    ("h_p15_ctx", p3::h_p15_ctx, p3::h_p15_ctx_jobs),
    ("h_p04", p4::h_p04, p4::h_p04_jobs),
    ("h_p04_in", p4::h_p04_in, p4::h_p04_in_jobs),
    ("h_p12", p5::h_p12, p5::h_p12_jobs),
    ("h_p12_deep", p5::h_p12_deep, p5::h_p12_deep_jobs),
    ("h_p12_ops", p5::h_p12_ops, p5::h_p12_ops_jobs),
    ("h_p12_num", p5::h_p12_num, p5::h_p12_num_jobs),
    ("h_p13", p5::h_p13, p5::h_p13_jobs),
    ("h_p13_two", p5::h_p13_two, p5::h_p13_two_jobs),
    ("h_p13_lex", p5::h_p13_lex, p5::h_p13_lex_jobs),
    ("h_p13_lex4", p5::h_p13_lex4, p5::h_p13_lex4_jobs),
    ("h_p13_uni", p5::h_p13_uni, p5::h_p13_uni_jobs),
    ("h_p13_known", p5::h_p13_known, p5::h_p13_known_jobs),
    ("h_p12_paren", p5::h_p12_paren, p5::h_p12_paren_jobs),
    ("h_p11_set", p6::h_p11_set, p6::h_p11_set_jobs),
    ("h_p11_file", p6::h_p11_file, p6::h_p11_file_jobs),
    ("h_p11_shipped", p6::h_p11_shipped, p6::h_p11_shipped_jobs),
    ("h_p11_cli", p6::h_p11_cli, p6::h_p11_cli_jobs),
    ("h_p08", p6::h_p08, p6::h_p08_jobs),
    ("h_p08_stdin", p6::h_p08_stdin, p6::h_p08_stdin_jobs),
    ("h_p09", p6::h_p09, p6::h_p09_jobs),
    ("h_p09_dir", p6::h_p09_dir, p6::h_p09_dir_jobs),
    ("h_p09_file", p6::h_p09_file, p6::h_p09_file_jobs),
    ("h_p10", p6::h_p10, p6::h_p10_jobs),
    ("h_p10_cli", p6::h_p10_cli, p6::h_p10_cli_jobs),
    ("h_p01_big", p7::h_p01_big, p7::h_p01_big_jobs),
    ("h_p02_big", p7::h_p02_big, p7::h_p02_big_jobs),
    ("h_p03_big", p7::h_p03_big, p7::h_p03_big_jobs),
    ("h_p06_big", p7::h_p06_big, p7::h_p06_big_jobs),
    ("h_p07_big", p7::h_p07_big, p7::h_p07_big_jobs),
    ("h_p12_big", p7::h_p12_big, p7::h_p12_big_jobs),
    ("h_p14_big", p7::h_p14_big, p7::h_p14_big_jobs),
    ("h_p15_big", p7::h_p15_big, p7::h_p15_big_jobs),
    ("h_p18_big", p7::h_p18_big, p7::h_p18_big_jobs),
    ("h_p07_all", p7::h_p07_all, p7::h_p07_all_jobs),
    ("h_p17", p8::h_p17, p8::h_p17_jobs),
    ("h_p17_gap", p8::h_p17_gap, p8::h_p17_gap_jobs),
    ("h_p17_big", p8::h_p17_big, p8::h_p17_big_jobs),
    ("h_p19_ctx", p9::h_p19_ctx, p9::h_p19_ctx_jobs),
    ("h_p19_big", p9::h_p19_big, p9::h_p19_big_jobs),
    ("h_p19_wide", p9::h_p19_wide, p9::h_p19_wide_jobs),
    ("h_t0", t0::h_t0, t0::h_t0_jobs),
    ("h_t1", t0::h_t1, t0::h_t1_jobs),
];
