"""Which witnesses and rules decide which property."""
import catalog as c1
import catalog2 as c2
import catalog3 as c3
import catalog4 as c4
import catalog5 as c5

FAM = {
    'unary': c1.unary, 'binary': c1.binary, 'binary_const': c1.binary_const, 'reduce': c1.reduce_, 'pow': c1.pow_,
    'dot': c1.dot_, 'det': c2.det, 'normal': lambda tier: c1.stat3('normal', tier=tier), 'normal_mat': c2.normal_mat,
    'cauchy': lambda tier: c1.stat3('cauchy', tier=tier), 'uniform': lambda tier: c1.stat3('uniform', tier=tier),
    'bernoulli': lambda tier: c1.bernoulli(tier=tier), 'wishart': c2.wishart, 'glue': c2.glue, 'opeq': c2.opeq, 'cmp': c2.cmp_,
    'ifelse': c2.ifelse, 'foreach': c2.foreach, 'folded': c2.folded, 'views': c2.views,
}
ALL = list(FAM)
FAM.update(apps=c4.apps, cviews=c4.cviews)      # not part of the cross products


def builders(fams, tier):
    out, seen = [], set()
    for f in fams:
        for b in FAM[f](tier=tier) + c5.big(f):
            if b.name in seen:
                continue
            seen.add(b.name)
            b.family = f
            out.append(b)
    return out


def mode(bs, m, tier, **kw):
    out = []
    for b in bs:
        if 'lone' in b.tags and tier == 'quick' and not (m == 'grad' and kw.get('storage')):
            continue        # an extra size of an expression every mode sees in another size
        if b.opt.get('only') and ({'refwd': 'reeval'}.get(m, m) not in b.opt['only'] or (m == 'grad' and not kw.get('storage'))):
            continue
        if m == 'twice' and (b.opt.get('zeroed') or b.opt.get('mutates') or b.np):
            continue
        if tier == 'quick' and 'slow' in b.tags and m in ('nested', 'reeval', 'refwd', 'twice', 'reread', 'api', 'bound'):
            continue
        if m in ('reeval', 'refwd') and tier == 'quick' and b.opt.get('noreeval'):
            continue
        if m == 'reread' and (b.opt.get('mutates') or b.opt.get('zeroed')):
            continue        # a root that re-assigns its variable restores it
        if m in ('api', 'bound') and b.opt.get('noapi'):
            continue
        w = getattr(b, m)(**kw)
        w.family = b.family
        w.src_expr = b.expr
        out.append(w)
    return out


def family(*fams, modes=('grad', 'reeval', 'nested', 'api')):
    def f(tier):
        bs = builders(fams, tier)
        out = []
        for m in modes:
            out += mode(bs, m, tier, **(dict(storage=True) if m == 'grad' else {}))
        return out
    return f


def cross(m, fams=ALL, **kw):
    def f(tier):
        return mode(builders(fams, tier), m, tier, **kw)
    return f


def join(*fs):
    def f(tier):
        out, seen = [], set()
        for g in fs:
            for w in g(tier):
                if w.name not in seen:
                    seen.add(w.name)
                    out.append(w)
        return out
    return f


def raw(g):
    def f(tier):
        ws = g(tier)
        for w in ws:
            w.family = g.__name__
            w.src_expr = getattr(w, 'src_expr', w.body)
        return ws
    return f


def bound(tier):
    bs = []
    for f in ALL:
        fb = [b for b in builders([f], tier) if not b.opt.get('noapi') and 'lone' not in b.tags and 'ldlt' not in b.name and not (tier == 'quick' and 'slow' in b.tags)]
        bs += fb[::max(1, len(fb) // 6)] if tier == 'quick' else fb
    return mode(bs, 'bound', tier)


HEAP = ['reduce', 'dot', 'det', 'foreach', 'folded', 'glue', 'wishart', 'normal_mat', 'views', 'ifelse', 'opeq']

# id -> (kind, generator)
PROPS = {
    'P01': ('wit', family('unary')),
    'P02': ('wit', family('binary', 'binary_const')),
    'P03': ('wit', family('reduce')),
    'P04': ('wit', family('pow')),
    'P05': ('wit', family('dot')),
    'P06': ('wit', family('det')),
    'P07': ('wit', family('normal', 'normal_mat')),
    'P08': ('wit', family('cauchy')),
    'P09': ('wit', family('uniform')),
    'P10': ('wit', family('bernoulli')),
    'P11': ('wit', family('wishart')),
    'P12': ('wit', join(cross('nested'), cross('twice'))),
    'P13': ('wit', join(cross('storage'), bound)),
    'P14': ('wit', join(cross('reeval'), cross('refwd'), cross('reeval', ['cviews']), cross('refwd', ['cviews']))),
    'P15': ('wit', join(cross('intact'), cross('reread'), cross('intact', ['cviews']))),
    'P16': ('wit', family('folded', 'binary_const')),
    'P17': ('wit', family('glue')),
    'P18': ('wit', family('opeq')),
    'P19': ('wit', family('cmp', 'ifelse')),
    'P20': ('wit', family('foreach')),
    'P21': ('wit', raw(c3.forward)),
    'P22': ('wit', raw(c3.agree)),
    'P23': ('wit', join(raw(c3.var), family('views'))),
    'P24': ('wit', raw(c3.bound)),
    'P25': ('types', None),
    'P26': ('headers', None),
    'P27': ('state', None),
    'P28': ('wit', join(raw(c3.api), cross('api', ['unary', 'binary', 'reduce', 'dot', 'opeq', 'glue', 'ifelse', 'bernoulli', 'views']))),
    'P29': ('wit', cross('prior')),
    'P30': ('heap', lambda tier: c4.heap(tier, builders(HEAP if tier == 'quick' else ALL, tier))),
    'P32': ('wit', family('apps', modes=('grad', 'reeval', 'nested', 'prior'))),
    'P31': ('wit', raw(c4.mismatch)),
}
