import p_search, p_links, p_dups, p_stats, p_keys, p_limits, p_complete, p_structs, p_tables, p_edges, p_packs, p_files, p_init, p_reads, p_same, p_handles
CHECKS = {
    'P01': p_search.P01,
    'P02': p_links.P02,
    'P03': p_dups.P03,
    'P06': p_stats.P06,
    'P05': p_limits.P05,
    'P07': p_complete.P07,
    'P08': p_structs.P08,
    'P04': p_keys.P04,
    'P10': p_edges.P10,
    'P11': p_packs.P11,
    'P12': p_files.P12,
    'P13': p_init.P13,
    'P14': p_reads.P14,
    'P15': p_same.P15,
    'P16': p_handles.P16,
    'P09': p_tables.P09,
}
