entries! {
    codec::c01_varint,
    codec::c01_ids,
    codec::c01_all_ids,
    codec::c01_ints,
    codec::c01_lengths,
    codec::c01_long,
    codec::c01_very_long,
    codec::c01_every_length,
    codec::c02_values,
    codec::c02_values_12,
    codec::c02_unicode,
    codec::c02_unicode_2,
    codec::c02_wire,
    codec::c02_wire_11,
    codec::c03_haproxy_hello,
    codec::c03_agent_hello,
    codec::c03_disconnect,
    codec::c03_notify,
    codec::c03_args,
    codec::c03_ack,
    codec::c03_acks,
    codec::c03_many,
    codec::c03_lengths,
    codec::c03_unicode,
    codec::c03_too_many,
    codec::c03_sequence,
    codec::c04_haproxy_hello,
    codec::c04_agent_hello,
    codec::c04_disconnect,
    codec::c04_notify,
    codec::c04_args,
    codec::c04_ack,
    codec::c04_acks,
    codec::c04_many,
    codec::c04_lengths,
    codec::c04_unicode,
    codec::c04_envelope,
    codec::c04_unset,
    codec::c05_raw,
    codec::c05_raw_20,
    codec::c06_notify,
    codec::c06_notify_12,
    codec::c06_ack,
    codec::c06_ack_13,
    codec::c06_hello,
    codec::c06_disconnect,
    codec::c06_window_messages,
    codec::c06_window_items,
    codec::c06_window_3,
    codec::c06_window_items_2,
    codec::c06_cut,
    codec::c06_inserted,
    codec::c06_varints,
    codec::c06_all_varints,
    codec::c07_envelope,
    codec::c07_many,
    codec::c07_lengths,
    codec::c07_unicode,
    codec::c07_identifiers,
    codec::c07_integer_items,
    codec::c08_length,
    codec::c08_frames,
    codec::c08_starved,
    codec::c08_large,
    codec::c09_large,
    codec::c09_frames,
    codec::c09_kinds,
    codec::c10_pieces,
    codec::c10_trickle,
    codec::c10_end,
    codec::c10_writes,
    codec::c10_write_fails,
    codec::c10_large,
    codec::c09_default,
    codec::c34_frames,
    hello::c11_order,
    hello::c11_extras,
    hello::c11_blanks,
    hello::c11_blanks_agent,
    hello::c11_no_caps,
    hello::c11_missing,
    hello::c11_version_text,
    hello::c11_version_text_6,
    hello::c11_version_any,
    hello::c11_version_numbers,
    conn::c12_digits,
    conn::c12_digits_2,
    conn::c12_lists,
    conn::c12_lists_3,
    conn::c13_sizes,
    conn::c13_caps,
    conn::c13_acted,
    conn::c14_healthcheck,
    conn::c15_first,
    conn::c15_later,
    conn::c16_ids,
    conn::c16_messages,
    conn::c16_actions,
    conn::c16_both,
    conn::c16_order,
    conn::c16_at_once,
    conn::c16_long,
    conn::c17_fragments,
    conn::c17_fragments_4,
    conn::c17_pairs,
    conn::c17_pairs_3,
    conn::c17_table,
    conn::c17_table_7,
    conn::c17_table_ids,
    conn::c17_table_any,
    conn::c17_any,
    conn::c18_refused,
    conn::c19_fails,
    conn::c19_long,
    conn::c19_time,
    conn::c19_make,
    conn::c19_tight,
    conn::c21_tight,
    conn::c16_hundreds,
    conn::c17_many,
    conn::c12_long,
    conn::c33_service,
    conn::c33_maker,
    conn::c33_two,
    conn::c20_disconnect,
    conn::c21_notify,
    conn::c21_envelope,
    conn::c21_too_long,
    conn::c21_end,
    conn::c21_deaf,
    conn::c34_connection,
    conn::c34_check,
    live::c09_negotiated,
    live::c22_polls,
    live::c22_polls_seeds,
    live::c22_polls_3,
    live::c22_waiting,
    live::c22_busy,
    live::c23_neighbours,
    live::c23_neighbours_polled,
    live::c23_making,
    live::c23_both,
    live::c23_three,
    agent::c30_listener,
    agent::c30_twice,
    agent::c30_many,
    agent::c30_accepts,
    agent::c30_accepts_4,
    agent::c30_shutdown,
    agent::c30_failing,
    agent::c30_idle,
    agent::c22_agent,
    agent::c22_agent_seeds,
    agent::c23_agent,
    agent::c23_agent_orders,
    agent::c35_panics,
    agent::c36_agent,
    misc::c24_numbers,
    misc::c24_frames,
    misc::c24_long,
    misc::c24_chain,
    misc::c17_handlers,
    misc::c25_fragments,
    misc::c25_fragments_4,
    misc::c25_pairs,
    misc::c25_any,
    misc::c25_many,
    misc::c25_closed,
    misc::c25_given_up,
    misc::c26_operations,
    misc::c26_operations_3,
    misc::c26_unwinds,
    misc::c26_long,
    misc::c27_work,
    misc::c27_work_6,
    misc::c27_messages,
    misc::c27_messages_5,
    misc::c28_bytes,
    misc::c28_bytes_5,
    misc::c28_names,
    misc::c28_repeated,
    misc::c28_many,
    misc::c28_long,
    misc::c28_lengths,
    misc::c29_calls,
    misc::c29_calls_3,
    misc::c29_hello,
    misc::c31_values,
    misc::c31_constructors,
    misc::c32_order,
    misc::c32_text,
    misc::c32_caps,
    trace::c36_connection,
    trace::c36_frames,
}
