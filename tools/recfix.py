#!/usr/bin/env python3
"""recfix.py P07 'subject' 'what failed': record a fix: commit in known-findings.json"""
import json, subprocess, sys
K = '/verif/known-findings.json'
def record(pid, subject, what):
    for l in subprocess.run(['git', '-C', '/repo', 'log', '--format=%h\t%s'], capture_output=True, text=True).stdout.splitlines():
        h, s = l.split('\t', 1)
        if s == 'fix: ' + subject:
            k = json.load(open(K))
            if any(f['commit'] == h for f in k['fixed']): return
            k['fixed'].append({'property': pid, 'commit': h, 'entry': 'fixed: property=%s %s %s' % (pid, h, what)})
            json.dump(k, open(K, 'w'), indent=1); return
    raise SystemExit('no commit ' + subject)
def missing():
    k = json.load(open(K)); have = {f['commit'] for f in k['fixed']}
    for l in subprocess.run(['git', '-C', '/repo', 'log', '--format=%h\t%s'], capture_output=True, text=True).stdout.splitlines():
        h, s = l.split('\t', 1)
        if s.startswith('fix:') and h not in have: print('unrecorded', l)
if __name__ == '__main__':
    if len(sys.argv) > 1: record(*sys.argv[1:4])
    missing()
