"""Known findings: genuine defects recorded instead of repaired (see DESIGN.md)."""
import os, json
PATH = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'known_findings.json')


def load():
    if not os.path.exists(PATH):
        return []
    return [x for x in json.load(open(PATH))['findings'] if x.get('status') == 'known']


def match(known, prop, v):
    for k in known:
        if k['property'] == prop and k['function'] == v['function'] and k['message'] == v['message']:
            return True
    return False
