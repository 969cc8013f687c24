# writes h01_tab.h: all slot/home configurations of hash tables of 1, 2, 4 and 8 slots that are at most half full.
# per slot one hex digit: 0 free, 1 deleted, 2+2d / 3+2d occupied (first used / reused slot), d slots after its home
import itertools
def run(L, sub, i):
    r = 1
    while r < L and sub >> ((i - r) % L) & 1: r += 1
    return r
out = []
for L, both in ((1, 1), (2, 1), (4, 1), (8, 0), (8, 1)):
    t = []
    for sub in range(1 << L):
        if bin(sub).count('1') * 2 > L: continue
        opts = []
        for i in range(L):
            if not sub >> i & 1: opts.append([0]); continue
            r = run(L, sub, i); opts.append([1] + [2 + 2 * d + f for d in range(r) for f in ((0, 1) if both else ((i + d) & 1,))])
        for c in itertools.product(*opts): t.append(sum(x << (4 * i) for i, x in enumerate(c)))
    out.append('static const uint32_t tab%d%s[%d] = {%s};' % (L, '' if both or L != 8 else 'q', len(t), ','.join(map(str, t)))); print(L, both, len(t))
open('h01_tab.h', 'w').write('// generated by h01_gen.py\n' + '\n'.join(out) + '\n')
