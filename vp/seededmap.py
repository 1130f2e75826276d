"""Which harness reports which planted bug (verified by applying each to /repo and running its property's quick check)."""
CAUGHT = {'push-error-dup': 'io_push', 'decode-head-gap': 'codec_roundtrip, codec_arbitrary', 'ring-wrap-reset': 'ring_fixed, ring_dynamic', 'unpack-small-array': 'rpc_containers', 'line-limit-hang': 'line_arbitrary', 'task-assign-empty': 'task_own',
          'pool-drops-queued': 'thr_pool, thr_pool_order', 'log-partial-write': 'al_roll', 'string-cut-accepted': 'rpc_hostile', 'packet-short-remove': 'packet_flags', 'ini-later-value': 'ini_lines', 'tab-shared-text': 'tab_query, tab_text_any', 'search-path-kept': 'lib_paths',
          'nonblock-drops-flags': 'fd_block', 'waitexit-forces': 'pid_wait', 'split-any-of': 'str_explode', 'listen-loopback6': 'addr_texts, addr_any', 'md5-padding': 'md5_lengths'}
