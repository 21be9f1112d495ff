mod h;
mod sx;
#[cfg(feature = "native")]
mod native;
#[allow(dead_code)]
mod stories;

macro_rules! props {
    ($($f:literal $m:ident [$($e:ident),*])*) => {
        $(#[cfg(feature = $f)] mod $m;)*
        #[cfg(feature = "c08")]
        #[allow(dead_code)]
        mod c11;
        static TABLE: &[(&str, extern "C" fn(u64))] = &[$($(
            #[cfg(feature = $f)] (stringify!($e), $m::$e),
        )*)*];
    };
}
props! {
    "t" t [t_play, t_corpus, t_tpl]
    "c02" c02 [c02_tpl, c02_tpl_deep, c02_flows, c02_flows_deep, c02_values, c02_again, c02_again_deep]
    "c03" c03 [c03_play, c03_play_deep, c03_corpus, c03_missing]
    "c04" c04 [c04_fault, c04_fault_deep, c04_wrap, c04_random, c04_host, c04_host_deep]
    "c05" c05 [c05_pair, c05_pair_deep]
    "c06" c06 [c06_corpus, c06_bytes, c06_bytes_deep, c06_hole, c06_hole_deep, c06_tokens, c06_tokens_deep, c06_lines, c06_lines_deep, c06_moved, c06_names, c06_nest, c06_again]
    "c07" c07 [c07_binary, c07_binary_deep, c07_unary, c07_unary_deep, c07_lists, c07_lists_deep, c07_two_deep, c07_mix, c07_sets, c07_power, c07_print, c07_range, c07_two, c07_two_lists, c07_literals, c07_literals_deep]
    "c08" c08 [c08_one, c08_every, c08_one_deep, c08_two]
    "c09" c09 [c09_tpl, c09_tpl_deep, c09_flows, c09_flows_deep, c09_two, c09_hosted, c09_hosted_deep]
    "c10" c10 [c10_interleave, c10_kinds, c10_saves, c10_remove, c10_deep]
    "c11" c11 [c11_play, c11_play_deep, c11_ops, c11_ops_deep]
    "c12" c12 [c12_one, c12_two, c12_three, c12_host, c12_values]
    "c13" c13 [c13_two, c13_three]
    "c14" c14 [c14_corpus, c14_text, c14_text_deep, c14_number, c14_number_deep, c14_layout, c14_layout_deep, c14_story]
    "c15" c15 [c15_bytes, c15_bytes_deep, c15_nodes, c15_save_bytes, c15_save_bytes_deep, c15_save_nodes, c15_save_two, c15_short, c15_nest]
    "c16" c16 [c16_eval, c16_eval_deep, c16_flows, c16_flows_deep, c16_refuse]
    "c17" c17 [c17_tpl, c17_tpl_deep, c17_flows, c17_flows_deep, c17_jump]
    "c01" c01 [c01_programs, c01_pairs, c01_more]
    "c20" c20 [c20_text, c20_text_deep, c20_source, c20_input, c20_input_deep, c20_script, c20_script_deep, c20_corpus, c20_names, c20_refused, c20_compile, c20_other, c20_stats]
    "c19" c19 [c19_objects, c19_pairs, c19_texts, c19_texts_deep, c19_two, c19_two_deep, c19_parts, c19_parts_deep, c19_names, c19_names_deep, c19_saves, c19_saves_deep, c19_corpus, c19_jump]
    "c18" c18 [c18_drop, c18_drop_deep, c18_instance, c18_instance_deep, c18_corpus]
}

fn main() {
    #[cfg(feature = "native")]
    native::main(TABLE);
    #[cfg(not(feature = "native"))]
    {
        let i = std::env::args().count();
        TABLE[i].1(0);
    }
}
