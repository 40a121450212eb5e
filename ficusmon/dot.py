"""Reads DOT text the way Graphviz itself does (dot -Tdot_json), so that the judgement is about the graph a user sees."""
import json
import subprocess


def parse(*sources):
    """[(name, {node: attrs}, [(tail, head, attrs)], graph attrs)] for each DOT source."""
    text = '\n'.join(sources)
    r = subprocess.run(['dot', '-Tdot_json'], input=text.encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120)
    if r.returncode != 0:
        return None, r.stderr.decode(errors='replace')
    out, dec, s, pos = [], json.JSONDecoder(), r.stdout.decode(), 0
    while True:
        while pos < len(s) and s[pos].isspace():
            pos += 1
        if pos >= len(s):
            break
        g, pos = dec.raw_decode(s, pos)
        objs = {o['_gvid']: o for o in g.get('objects', [])}
        edges = [(objs[e['tail']]['name'], objs[e['head']]['name'], e) for e in g.get('edges', [])]
        out.append((g.get('name'), {o['name']: o for o in objs.values()}, edges, g))
    return out, None
