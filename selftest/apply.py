"""Behaviour-preserving rewrites of /repo, to see that the checks stay quiet.

python3 apply.py DEST [names]   copies /repo to DEST and applies the rewrites
"""
import os
import re
import shutil
import sys

HERE = os.path.dirname(os.path.abspath(__file__))


def replace_function(text, name, code):
    """replace `def name` (Class.name) by the code, whatever its docstring"""
    lines = text.split('\n')
    lo = 0
    if '.' in name:
        cls, name = name.split('.')
        lo = next(i for i, l in enumerate(lines) if re.match(r'class %s\b' % cls, l)) + 1
    elif any(re.match(r'def %s\(' % re.escape(name), l) for l in lines):
        lo = next(i for i, l in enumerate(lines) if re.match(r'def %s\(' % re.escape(name), l))
    for i in range(lo, len(lines)):
        m = re.match(r'( *)(?:def|cpdef) %s\(' % re.escape(name), lines[i])
        if m:
            break
    else:
        raise KeyError(name)
    ind = len(m.group(1))
    j = i + 1
    depth_doc = False
    while j < len(lines):
        l = lines[j]
        if l.count('"""') == 1:
            depth_doc = not depth_doc
        elif not depth_doc and l.strip() and len(l) - len(l.lstrip()) <= ind:
            break
        j += 1
    new = code.strip('\n').split('\n')
    cut = min(len(l) - len(l.lstrip()) for l in new if l.strip())
    new = [(' ' * ind + l[cut:]) if l.strip() else '' for l in new]
    return '\n'.join(lines[:i] + new + [''] + lines[j:])


def load():
    ns = {}
    for f in sorted(os.listdir(HERE)):
        if f.startswith('rewrites') and f.endswith('.py'):
            with open(os.path.join(HERE, f)) as fh:
                exec(compile(fh.read(), f, 'exec'), ns)
    return ns['REWRITES']


def apply_one(dest, rw):
    for step in rw[1]:
        path = os.path.join(dest, step[1])
        with open(path) as f:
            text = f.read()
        if step[0] == 'def':
            text = replace_function(text, step[2], step[3])
        else:
            assert text.count(step[2]) >= 1, (rw[0], step[2])
            text = text.replace(step[2], step[3])
        with open(path, 'w') as f:
            f.write(text)


def main():
    dest, names = sys.argv[1], sys.argv[2:]
    repo = os.environ.get('LA_REPO', '/repo')
    if not os.path.exists(dest):
        shutil.copytree(repo, dest, ignore=shutil.ignore_patterns('.git'))
    for rw in load():
        if not names or rw[0] in names:
            apply_one(dest, rw)
            print(rw[0])


if __name__ == '__main__':
    main()
