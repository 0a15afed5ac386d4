'''Edit tools/props.py: claim(pid, note, statement=None, technique=None)'''
import os
F = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'props.py')
EX = 'exhaustive enumeration of all small inputs and configurations of the real step on real files against an independent reference model'


def claim(pid, note, statement=None, technique=EX):
    s = open(F).read()
    i = s.index("prop('%s'" % pid)
    j = s.find("\n\nprop(", i)
    j = j if j > 0 else len(s.rstrip('\n'))
    b = s[i:j]
    lines = b.split('\n')
    if statement:
        lines[1] = "     %r," % statement
    lines = [l for l in lines if not l.startswith('     technique=') and not l.startswith('     note=')]
    b = '\n'.join(lines).rstrip(',')
    if not b.endswith('])'):
        b += '' if b.endswith('])') else ''
    if b.endswith(')]'):
        b += ')'
    assert b.endswith(')'), b[-50:]
    b = b[:-1] + ",\n     technique=%r,\n     note=%r)" % (technique, note)
    s = s[:i] + b + s[j:]
    open(F, 'w').write(s)
