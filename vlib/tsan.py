"""Reads ThreadSanitizer's log files: one violation per pair of racing functions of the library."""
import glob
import re


def reports(prefix, variant):
    out, seen = [], set()
    for path in sorted(glob.glob(prefix + '.*')):
        text = open(path, errors='replace').read()
        for rep in text.split('=================='):
            if 'WARNING: ThreadSanitizer' not in rep:
                continue
            kind = re.search(r'WARNING: ThreadSanitizer: ([^\n(]+)', rep).group(1).strip()
            if kind != 'data race':
                continue
            # the two accesses: the paragraphs up to the description of the memory and of the threads
            stacks = re.split(r'\n\s*\n', rep)
            acc = [x for x in stacks if re.search(r'(?i)(read|write) of size', x)]
            tops = []
            for x in acc[:2]:
                fr = [ln for ln in x.splitlines() if re.match(r'\s*#\d+ ', ln)]
                lib = [ln for ln in fr if re.search(r'[ /]ufunclab/', ln)]
                tops.append(re.sub(r'^\s*#\d+ ', '', lib[0]).split(' ufunclab/')[0].split('(')[0] if lib else '')
            if not any(tops):
                continue            # not in the library
            key = 'race:' + '|'.join(sorted(set(t for t in tops if t)))
            if key in seen:
                continue
            seen.add(key)
            out.append(dict(key=key, variant=variant, section='tsan', index=0, msg=rep.strip()[:2800]))
    return out
