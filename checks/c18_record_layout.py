"""C18: what the routines that pack a record put at each slot, block and string position is what
was released, and the routines that unpack take each item from there."""
import json
import re
from common import *
import recmap

TABLE = os.path.join(HERE, 'records7.json')
HD = '(zStructTransfer\\.(internalHeader|header2|userHeader|dataType|numberValues|logicalNumberValues|userHeaderNumber)|IH|local)'
VAL = '(zStructTransfer\\.values|local)'
PDR = '(zStructPairedData\\.(numberOrdinates|numberCurves|labelsLength|boolInd.*|xprecision|yprecision|labels|dataType|userHeader|userHeaderNumber)$)'
PDV = '(zStructPairedData\\.(floatOrdinates|doubleOrdinates|floatValues|doubleValues)$|zStructTransfer.values)'
INFO = r'zdssInfoKeys\.kinfo(\w+Number|NumberData|LogicalNumber|FirstDate|LastDate|Flag|Status)'
SZ = 'zStructRecordSize|local'
# name of the job: function, anchors {call or 'ret': {argument: buffer}}, tracked locations, header arguments
JOBS = {
    'zarrayStore': ('zarrayStore', {'zwrite': {}}),
    'zarrayRetrieve': ('zarrayRetrieve', {'ret': {}}),
    'ztextStore': ('ztextStore', {'zwrite': {}}),
    'ztextRetrieve': ('ztextRetrieve', {'ret': {}}),
    'zspatialTinStore': ('zspatialTinStore', {'zwrite': {}}),
    'zspatialTinRetrieve': ('zspatialTinRetrieve', {'ret': {}}),
    'zspatialGridStore_extended': ('zspatialGridStore_extended', {'zwrite': {}}),
    'zspatialGridRetrieve': ('zspatialGridRetrieve', {'ret': {}}),
    'zlocationStore': ('zlocationStore', {'zwrite': {}}),
    'zlocationRetrieve': ('zlocationRetrieve', {'ret': {}}),
    'zpdUnitsToHead': ('zpdUnitsToHead', {'ret': {}}, None, [1]),
    'zpdHeadToUnits': ('zpdHeadToUnits', {'ret': {}}, None, [1]),
    'ztsInternalHeaderPack': ('ztsInternalHeaderPack', {'ret': {}}, None, [1]),
    'ztsInternalHeaderUnpack': ('ztsInternalHeaderUnpack', {'ret': {}}, None, [1]),
    'zgetRecordSize7': ('zgetRecordSize7', {'ret': {}}, SZ),
    'ztsGetSizesInternal': ('ztsGetSizesInternal', {'ret': {}}, SZ),
    'ztsStorePattern': ('ztsStorePattern', {'zwrite': {}}),
    'ztsWriteBlock': ('ztsWriteBlock', {'zwriteInternal': {}}, None, 'internalHeader'),
    'ztsRegStoreBlock': ('ztsRegStoreBlock', {'ztsWriteBlock': {}}, 'IH', 'internalHeader'),
    'ztsStoreReg7': ('ztsStoreReg7', {'ztsRegStoreBlock': 'internalHeader'}, 'IH|local'),
    'ztsStoreIrreg7': ('ztsStoreIrreg7', {'ztsIrregStoreBlock': 'internalHeader'}, 'IH|local'),
    'ztsAggregate': ('ztsAggregate', {'ret': {}}, 'IH', 'internalHeader'),
    'ztsRegReadBlock': ('ztsRegReadBlock', {'ret': {}}, r'\*?arg|IH', 'internalHeader'),
    'ztsIrregReadBlock': ('ztsIrregReadBlock', {'ret': {}}, r'\*?arg|IH', 'internalHeader'),
    'zwriteNew': ('zwriteNew', {'ret': {}}, INFO),
    'zwriteExisting': ('zwriteExisting', {'ret': {}}, INFO),
    'zpdStore header': ('zpdStore', {'zwrite': {}}, HD),
    'zpdStore values': ('zpdStore', {'zwrite': {}}, VAL),
    'zpdRetrieve header': ('zpdRetrieve', {'ret': {}}, PDR),
    'zpdRetrieve values': ('zpdRetrieve', {'ret': {}}, PDV),
}
ARGS = ('ztsAggregate', 'ztsRegReadBlock', 'ztsIrregReadBlock')      # parameters are named by their position
READERS = ('ReadBlock', 'Retrieve', 'HeadToUnits', 'Unpack', 'getRecordSize', 'GetSizes')
SKIP = re.compile(r'(allocated|Mode|numberValues|logicalNumberValues|pathnameInternal|boolRetrieveAllTimes)|#|^(local|mem|&|\*|\.str|phi|select|zdssK|ztsTimeWindow|ztsProcess)')
TOKEN = re.compile(r'(?:arg\d+$|zStruct\w+(?:\.\w+)+|IH|zdssInfoKeys\.\w+|zdssKeys\.\w+)(?:\[[^\]]*\])?')
CLEAN = re.compile(r'^-?\d+$|^arg\d+$|^[-+*\d]*(?:zStruct\w+(?:\.\w+)+|IH|zdssInfoKeys\.\w+|zdssKeys\.\w+)(?:\[[^\]()]*\])?(?:[-+*]\d*\*?(?:zStruct\w+(?:\.\w+)+|IH)?(?:\[[^\]()]*\])?)*$')


def item(loc, v, args):
    """canonical item, or None when it is not one of the program's own names"""
    if isinstance(v, tuple):
        return None
    body, _, cnt = v.partition(' x ')
    body = body.lstrip('&').strip()
    if body.startswith('string of '):
        return body
    if 'phi' in body or 'local' in body or 'arg' in body and not (args and re.fullmatch(r'arg\d+', body)) or body.startswith(('.str', 'new', '(')):
        return None
    if body == 'strings':
        return 'strings'
    if CLEAN.match(body):
        return body[:-3] if body.endswith('[0]') and not body.startswith('IH') else body
    t = sorted(set(TOKEN.findall(body)))
    return '{%s}' % ', '.join(t) if t else None


def same(a, b):
    """equal items; one that goes through arithmetic is compared by what it is computed from"""
    if a == b:
        return True
    if a.startswith('{') or b.startswith('{'):
        return set(TOKEN.findall(a)) == set(TOKEN.findall(b))
    return False


def location(l):
    if l.endswith(' strings') or l.startswith('strings of '):
        return None
    if SKIP.search(l):
        return None
    if l.endswith('[0]') and not l.startswith('IH') or 'phi' in l:
        return l[:-3] if 'phi' not in l else None
    return l


def strings(l):
    """the buffer of the strings, without the slot it happens to start at in this version"""
    if not (l.endswith(' strings') or l.startswith('strings of ')):
        return None
    return l.replace('strings of ', '').replace(' strings', '')


def analyse(c, job, nargs=None):
    fn, anchors, track, hd = (JOBS[job] + (None, None))[:4]
    f = c.fn(fn)
    args = job in ARGS and nargs in (None, len(f.args))
    if isinstance(hd, str):
        hd = [k for k, (a, t) in enumerate(f.args) if a == hd]
        if not hd:
            raise Broken('%s: no internal header argument' % fn)
    an = {}
    for call, b in anchors.items():
        if isinstance(b, str):
            g = c.fn(call)
            b = {k: 'IH' for k, (a, t) in enumerate(g.args) if a == b}
            if not b:
                raise Broken('%s: no internal header argument' % call)
        an[call] = b
    m = recmap.Map(headers=hd or [], anchors=an, track=re.compile(track).match if track else None)
    flow.Runner(c.A, f, m).run()
    paths = []
    for st, where in m.out.items():
        d, q = {}, {}
        for l, v in st:
            b = strings(l)
            if b is not None:
                q[b] = tuple(x.lstrip('&') for x in v if TOKEN.fullmatch(x.lstrip('&')))
                continue
            k = location(l)
            x = item(l, v, args) if k and (args or not k.startswith('arg')) else None
            if x:
                d.setdefault(k, set()).add(x)
        paths.append((d, q, where))
    return f, paths


def groups(paths):
    """locations that are given a value on exactly the same paths"""
    by = {}
    for l in {l for d, q, w in paths for l in d}:
        s = frozenset(k for k, (d, q, w) in enumerate(paths) if l in d)
        by.setdefault(s, []).append(l)
    return sorted(sorted(g) for g in by.values() if len(g) > 1)


def derive(c, job):
    f, paths = analyse(c, job)
    allow, orders = {}, {}
    for d, q, w in paths:
        for l, xs in d.items():
            allow.setdefault(l, set()).update(xs)
        for b, s in q.items():
            if s:
                orders.setdefault(b, set()).add(s)
    return {'arguments': len(f.args), 'items': {l: sorted(x) for l, x in sorted(allow.items())},
            'always': sorted(l for l in allow if all(l in d for d, q, w in paths)),
            'together': groups(paths),
            'strings': {b: sorted(s) for b, s in sorted(orders.items())}}


def subsequence(a, b):
    it = iter(b)
    return all(x in it for x in a)


def body(c):
    table = json.load(open(TABLE))
    rd = wr = 0
    for job in JOBS:
        t = table[job]
        f, paths = analyse(c, job, t['arguments'])
        reader = any(x in job for x in READERS)
        if not paths:
            raise Broken('%s: no path reaches the hand-over' % job)
        seen, orders = {}, {}
        for d, q, where in paths:
            for l, xs in d.items():
                for x in xs:
                    seen.setdefault((l, x), where)
            for b, s in q.items():
                orders.setdefault(b, {}).setdefault(s, where)
            for l in t['always']:
                if l not in d:
                    c.bad('%s:missing:%s' % (job, l), where, '%s: on some path nothing is put in %s' % (job, l))
            for g in t['together']:
                have = [l for l in g if l in d]
                if have and len(have) < len(g):
                    for l in g:
                        if l not in d:
                            c.bad('%s:missing:%s' % (job, l), where, '%s: on some path %s is set but not %s' % (job, have[0], l))
        kind = 'item read from its released place' if reader else 'item written at its released place'
        for (l, x), where in sorted(seen.items()):
            want = t['items'].get(l)
            if want is None:
                # what the writing side puts there may be read back, and the other way round
                if any(l in t2['items'].get(x, ()) for t2 in table.values()):
                    continue
                data = x.startswith('IH') or 'zStructTransfer.' in x or 'kinfo' in x
                if l.startswith('IH[') or (reader and data and l.startswith('zStruct') and not l.startswith('zStructTransfer')) or \
                        (not reader and re.match(r'zStructTransfer\.(values\d|userHeader|header2|internalHeader)\b', l)):
                    c.bad('%s:%s' % (job, l), where, '%s: %s is given %s, a place the released format does not use for it' % (job, l, x))
                continue
            if any(same(x, y) for y in want):
                c.ok(kind, '%s: %s <- %s' % (job, l, x))
            else:
                c.bad('%s:%s' % (job, l), where, '%s: %s is given %s, released: %s' % (job, l, x, ' or '.join(want)))
        for l, want in t['items'].items():
            if job in ARGS and t['arguments'] != len(f.args):
                break
            for y in want:
                if y.startswith('{'):
                    if not any(k == l for k, x in seen):
                        c.bad('%s:never:%s' % (job, l), f.where(next(iter(f.all()))), '%s: nothing is put in %s any more' % (job, l))
                elif y != '0' and not any(k == l and (same(x, y) or x.startswith('{')) for k, x in seen):
                    c.bad('%s:never:%s' % (job, l), f.where(next(iter(f.all()))), '%s: %s is never put in %s any more' % (job, y, l))
        for b, want in t['strings'].items():
            got = orders.get(b)
            if got is None:
                c.bad('%s:strings:%s' % (job, b), f.where(next(iter(f.all()))), '%s: no strings at %s any more' % (job, b))
                continue
            for s, where in sorted(got.items()):
                if any(subsequence(s, [z for z in w]) for w in want):
                    c.ok('order of the strings', '%s: %s' % (job, s))
                else:
                    c.bad('%s:strings:%s' % (job, b), where, '%s: the strings of %s are in the order %s' % (job, b, ', '.join(s)))
            full = {z for w in want for z in w}
            have = {z for s in got for z in s}
            for z in sorted(full - have):
                c.bad('%s:strings:%s' % (job, b), f.where(next(iter(f.all()))), '%s: %s is not among the strings of %s any more' % (job, z, b))
        c.notes[job] = {'paths': len(paths), 'places': len(t['items'])}
    c.need('item written at its released place', 120)
    c.need('item read from its released place', 120)
    c.need('order of the strings', 12)
    return ('Along every path through each routine that packs or unpacks a record, every slot of the internal header, every block of the '
            'values arrays and headers and every string position holds exactly the item frozen for it in checks/records7.json '
            '(flow-sensitive abstract interpretation of the compiled program; copies, temporary buffers and helper routines are followed); '
            'items that were always stored together still are; the order of strings is unchanged.',
            ['the values themselves are not interpreted: that an item survives unchanged is the copy routine\'s property',
             'little-endian machine, version 7 files'])


if __name__ == '__main__':
    if len(sys.argv) > 1 and sys.argv[1] == '--derive':
        c = Check('C18')
        json.dump({j: derive(c, j) for j in JOBS}, open(TABLE, 'w'), indent=1)
    else:
        main('C18', body)
