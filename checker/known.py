"""findings recorded in KNOWN_FINDINGS.txt: lines `finding: property=<id> <place> :: <rule> :: <text>`"""
import os


def load(path, prop):
    out = []
    if os.path.exists(path):
        for l in open(path):
            if l.startswith('finding: property=' + prop + ' '):
                out.append([x.strip() for x in l.split(' ', 2)[2].split('::')])
    return out


def match(listed, where, rule, msg):
    for parts in listed:
        place, r, text = (parts + ['', '', ''])[:3]
        if place and place in where and (not r or r == rule) and (not text or text in msg):
            return parts
    return None
