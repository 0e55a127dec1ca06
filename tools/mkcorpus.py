"""Freeze /repo's combined-format captures (as of the pinned commit) into mc/data/corpus.jsonl."""
import os, json, base64
D = '/repo/test/combined_data'
n = 0
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'mc/data/corpus.jsonl'), 'w') as out:
    for name in sorted(os.listdir(D)):
        data = open(os.path.join(D, name), 'rb').read()
        parts = data.split(b'======== BEGIN INBOUND STREAM ========\r\n', 1)
        if len(parts) != 2:
            print('skip', name); continue
        rest = parts[1].split(b'======== BEGIN OUTBOUND STREAM ========\r\n', 1)
        if len(rest) != 2:
            print('skip', name); continue
        scheme = 'https' if name.endswith('.https') else None if name.endswith('.noscheme') else 'http'
        out.write(json.dumps([name, scheme, rest[0].decode('latin-1'), rest[1].decode('latin-1')]) + '\n')
        n += 1
print(n)
