@file lib/src/wams.rs => wams
@structural WamsOptimisations
@structural LookaheadConfig
@fn greedy
@spec
    ensures
        r.quit_search_above_length == quit_search_above_length,
        r.limit_count_of_distances == limit_count_of_distances,
        r.insert_only_below_length == Some(insert_only_below_length),
        r.lookahead is None,
@fn lookahead
@spec
    ensures
        r.quit_search_above_length == quit_search_above_length,
        r.limit_count_of_distances == limit_count_of_distances,
        r.insert_only_below_length is None,
        r.lookahead matches Some(l) && l.apathetic_above_length == apathetic_above_length && l.abort_above_length == abort_above_length,
@const CONFIGURATIONS
    ensures CONFIGURATIONS@.len() == 9
