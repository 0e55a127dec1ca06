"""Captured connections used as seeds: (name, scheme, inbound, outbound)."""

import json
import os

_PATH = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'data', 'corpus.jsonl')


def load(max_bytes=None):
    out = []
    with open(_PATH, encoding='utf-8') as f:
        for line in f:
            name, scheme, inbound, outbound = json.loads(line)
            item = (name, scheme, inbound.encode('latin-1'), outbound.encode('latin-1'))
            if max_bytes is None or len(item[2]) + len(item[3]) <= max_bytes:
                out.append(item)
    return out


def chunks(items, n):
    """Split into at most n interleaved groups (for shards)."""
    return [items[i::n] for i in range(min(n, len(items)))]
