"""C06: ISO 8601 times, time points and durations"""
import datetime
import itertools
import re

from pyslet import iso8601 as iso

LEVEL = 'model_checking'
RULE = ('every second of the day in every format; every zone offset; every '
        'numeric string of each time format over the stated ranges; every '
        'truncated time against every base in the stated set; all pairs from '
        'a set of time points; every composition of duration components; '
        'compared with the datetime module and linear search')

BAD = (iso.DateTimeError, ValueError)
P = iso.Precision
T = iso.Truncation
EPOCH = datetime.datetime(1970, 1, 1)


def mkt(t, z=None):
    zd = zh = zm = None
    if z is not None:
        zd = (z > 0) - (z < 0)
        zh, zm = divmod(abs(z), 60)
    return iso.Time(hour=t // 3600, minute=t // 60 % 60, second=t % 60,
                    zdirection=zd, zhour=zh, zminute=zm)


def mkp(dt, z=None):
    return iso.TimePoint(
        date=iso.Date(century=dt.year // 100, year=dt.year % 100,
                      month=dt.month, day=dt.day),
        time=mkt(dt.hour * 3600 + dt.minute * 60 + dt.second, z))


def seconds(rec, shard):
    lo, hi = shard
    for t in range(lo, hi):
        rec.case(t)
        h, m, s = t // 3600, t // 60 % 60, t % 60
        x = iso.Time(total_seconds=t)
        if x.get_time() != (h, m, s) or x.get_total_seconds() != t or \
                x != mkt(t) or hash(x) != hash(mkt(t)):
            rec.fail('total seconds', repr((t, str(x))))
        for basic, want in ((False, '%02i:%02i:%02i' % (h, m, s)),
                            (True, '%02i%02i%02i' % (h, m, s))):
            if x.get_string(basic) != want or iso.Time.from_str(want) != x:
                rec.fail('full string', repr((t, x.get_string(basic))))
        if x.get_string(truncation=T.Hour) != '-%02i:%02i' % (m, s) or \
                x.get_string(True, T.Hour) != '-%02i%02i' % (m, s) or \
                x.get_string(truncation=T.Minute) != '--%02i' % s:
            rec.fail('truncated string', repr(t))
        for n in (1, -1, 59, 60, -60, 61, 3599, -3600, 86399, -86399, 86400,
                  100000):
            y, over = x.offset(seconds=n)
            rec.transitions += 1
            if (over, y.get_total_seconds()) != divmod(t + n, 86400):
                rec.fail('offset', repr((t, n, str(y), over)))
        y, over = x.offset(hours=25, minutes=-61, seconds=3)
        if (over, y.get_total_seconds()) != divmod(t + 86343, 86400):
            rec.fail('offset', repr((t, str(y), over)))
        if t < 86399 and not (x < mkt(t + 1) and mkt(t + 1) > x):
            rec.fail('order', repr(t))
        for prec, want in ((P.Hour, (h, None, None)),
                           (P.Minute, (h, m, None)),
                           (P.Complete, (h, m, s))):
            if x.with_precision(prec, True).get_time() != want:
                rec.fail('truncated precision', repr((t, prec)))
        z = x.with_precision(P.Minute, False)
        if z.get_string(ndp=3) != '%02i:%02i,%03i' % (h, m, s * 1000 // 60):
            rec.fail('fractional minute', repr((t, z.get_string(ndp=3))))
        z = x.with_precision(P.Hour, False)
        if z.get_string(ndp=4, dp='.') != '%02i.%04i' % (
                h, (m * 60 + s) * 10000 // 3600):
            rec.fail('fractional hour', repr((t, z.get_string(ndp=4))))
    rec.outcome('ok')
    rec.states += hi - lo
    rec.traces += rec.transitions


def zones(rec, shard):
    """Shifting keeps the instant, for every pair of offsets"""
    bases = [datetime.datetime(1999, 12, 31, 23, 59, 59),
             datetime.datetime(2000, 2, 28, 0, 0, 1),
             datetime.datetime(2000, 3, 1, 12, 30, 0),
             datetime.datetime(2100, 2, 28, 23, 0, 0)]
    menu = [0, 1, 15, 30, 59, 60, 61, 105, 330, 345, 719, 720, 765, 840,
            1380, 1439]
    menu = menu + [-x for x in menu if x]
    for z1 in shard:
        for z2 in menu:
            for dt in bases:
                rec.case([z1, z2, dt.isoformat()])
                rec.transitions += 1
                p = mkp(dt, z1)
                zd = (z2 > 0) - (z2 < 0)
                q = p.shift_zone(zd, abs(z2) // 60, abs(z2) % 60)
                want = dt - datetime.timedelta(
                    minutes=z1) + datetime.timedelta(minutes=z2)
                if str(q)[:19] != want.isoformat():
                    rec.fail('shift', repr((str(p), z2, str(q))))
                if not (p == q and hash(p) == hash(q) and not p < q and
                        p <= q):
                    rec.fail('equal instants differ', repr((str(p), str(q))))
                unix = int((dt - EPOCH).total_seconds()) - 60 * z1
                if p.get_unixtime() != unix or q.get_unixtime() != unix:
                    rec.fail('unixtime', repr((str(p), p.get_unixtime())))
                if iso.TimePoint.from_unix_time(unix) != p:
                    rec.fail('from unixtime', repr((str(p), unix)))
                if iso.TimePoint.from_str(str(q)) != q or \
                        str(iso.TimePoint.from_str(str(q))) != str(q):
                    rec.fail('string', repr(str(q)))
                b = q.get_calendar_string(basic=True)
                if str(iso.TimePoint.from_str(b)) != str(q):
                    rec.fail('basic string', repr((b, str(q))))
                for f in (q.get_ordinal_string, q.get_week_string):
                    for basic in (False, True):
                        if str(iso.TimePoint.from_str(f(basic))) != str(q):
                            rec.fail('ordinal/week string', f(basic))
                if q.time.get_zone_offset() != z2 or \
                        q.with_zone(None).get_zone() != (None, None):
                    rec.fail('zone', repr((str(q), z2)))
            # reduced precision and fractions
            for hour, minute in ((10, 59), (23, 59.5), (0, 0.5), (0, 59.75)):
                t = iso.Time(hour=hour, minute=minute,
                             zdirection=(z1 > 0) - (z1 < 0),
                             zhour=abs(z1) // 60, zminute=abs(z1) % 60)
                q, over = t.shift_zone(zd, abs(z2) // 60, abs(z2) % 60)
                if (over * 1440 + q.hour * 60 + q.minute !=
                        hour * 60 + minute - z1 + z2) or \
                        q.second is not None:
                    rec.fail('shift minutes', repr((str(t), str(q), over)))
            for hour in (0, 23, 12.25, 23.75):
                t = iso.Time(hour=hour, zdirection=(z1 > 0) - (z1 < 0),
                             zhour=abs(z1) // 60, zminute=abs(z1) % 60)
                try:
                    q, over = t.shift_zone(zd, abs(z2) // 60, abs(z2) % 60)
                except BAD:
                    if (z2 - z1) % 60 == 0:
                        rec.fail('shift hours rejected', repr((hour, z1, z2)))
                    continue
                if (over * 24 + q.hour) * 60 != hour * 60 - z1 + z2:
                    rec.fail('shift hours', repr((str(t), str(q), over)))
    rec.outcome('ok')
    rec.states += len(shard)
    rec.traces += rec.transitions


def strings(rec, shard):
    """Each time format, all digits: valid or rejected"""
    fracs = ['', ',5', '.25', ',0', '.125']
    zs = ['', 'Z', '+01', '-05:30', '+0130', '-23:59', '+24:00', '-2400']

    def one(s, h, m, sec, frac, z, ext, time_ext, fmt):
        rec.case(s)
        rec.transitions += 1
        f = float('0' + frac.replace(',', '.')) if frac else 0
        vals = [h, m, sec]
        last = 2 if sec is not None else 1 if m is not None else 0
        if frac:
            vals[last] += f
        ok = (h < 24 or (h == 24 and sum(x for x in vals[1:] if x) == 0 and
                         (last > 0 or f == 0)))
        if m is not None:
            ok = ok and m < 60
        if sec is not None:
            ok = ok and vals[2] < 61
        zoff = None
        if z == 'Z':
            zoff = 0
        elif z:
            zz = z[1:].replace(':', '')
            zoff = int(zz[:2]) * 60 + int(zz[2:] or 0)
            if zoff >= 1440:
                ok = False
            if z[0] == '-':
                zoff = -zoff
            # consistency of time and zone forms
            if len(z) == 6 and not time_ext:
                ok = False
            if len(z) == 5 and ext:
                ok = False
        try:
            t, over, got = iso.Time.from_string_format(s)
        except BAD:
            t = None
        if (t is not None) != ok:
            rec.fail('validity of %s' % fmt, repr((s, ok, str(t))))
            return
        rec.outcome('%s %r' % (fmt, ok))
        if t is None:
            return
        if list(t.get_time()) != vals or t.get_zone_offset() != zoff or over:
            rec.fail('parsing %s' % fmt, repr((s, repr(t))))
        want = fmt
        if frac:
            want += frac[0] + fmt[-1]
        if z == 'Z':
            want += 'Z'
        elif z:
            want += {3: '+hh', 5: '+hhmm', 6: '+hh:mm'}[len(z)]
        if got != want:
            rec.fail('format of %s' % fmt, repr((s, got, want)))
        zp = P.Hour if z and len(z) == 3 else P.Complete
        back = t.get_string(not ext, ndp=len(frac) - 1 if frac else 0,
                            zone_precision=zp, dp=frac[0] if frac else ',')
        if len(z) == 6 and not ext:
            back = back[:-2] + ':' + back[-2:]
        if len(z) == 5 and last == 0 and ext:
            back = back[:-3] + back[-2:]
        if back != s:
            rec.fail('formatting %s' % fmt, repr((s, back)))

    for h in shard:
        for frac in fracs:
            for z in zs:
                one('%02i%s%s' % (h, frac, z), h, None, None, frac, z,
                    False, True, 'hh')
        for m in (0, 1, 29, 30, 58, 59, 60, 61, 99):
            for frac in fracs:
                for z in zs:
                    one('%02i:%02i%s%s' % (h, m, frac, z), h, m, None, frac,
                        z, True, True, 'hh:mm')
                    one('%02i%02i%s%s' % (h, m, frac, z), h, m, None, frac,
                        z, False, False, 'hhmm')
            for s in (0, 1, 30, 58, 59, 60, 61, 62, 99):
                for frac in fracs:
                    for z in zs:
                        one('%02i:%02i:%02i%s%s' % (h, m, s, frac, z), h, m,
                            s, frac, z, True, True, 'hh:mm:ss')
                        one('%02i%02i%02i%s%s' % (h, m, s, frac, z), h, m,
                            s, frac, z, False, False, 'hhmmss')
    rec.states += len(shard)
    rec.traces += rec.transitions


def mixed(rec, shard):
    """Basic dates only go with basic times, extended with extended"""
    dates = [('1969-07-20', 'e', '1969-07-20'), ('19690720', 'b',
                                                 '1969-07-20'),
             ('1969-201', 'e', '1969-07-20'), ('1969201', 'b', '1969-07-20'),
             ('1969-W29-7', 'e', '1969-07-20'),
             ('1969W297', 'b', '1969-07-20'), ('1969-07', None, None),
             ('1969', None, None), ('1969-W29', None, None)]
    times = [('20:17:40', 'e', '20:17:40'), ('201740', 'b', '20:17:40'),
             ('20:17', 'e', '20:17'), ('2017', 'b', '20:17'),
             ('20', 'be', '20'), ('20:17:40,5', 'e', '20:17:40'),
             ('201740.5', 'b', '20:17:40'), ('-17:40', None, None)]
    zs = [('', 'be', ''), ('Z', 'be', 'Z'), ('+01', 'be', '+01:00'),
          ('+01:00', 'e', '+01:00'), ('+0100', 'b', '+01:00')]
    for d, t, z in itertools.product(dates, times, zs):
        s = d[0] + 'T' + t[0] + z[0]
        rec.case(s)
        rec.transitions += 1
        want = None
        if d[1] and t[1] and set(d[1]) & set(t[1]) & set(z[1]):
            want = d[2] + 'T' + t[2] + z[2]
        try:
            got = str(iso.TimePoint.from_str(s))
        except BAD:
            got = None
        if got != want:
            rec.fail('time point', repr((s, got, want)))
        rec.outcome(repr(want is None))
    rec.states += 1
    rec.traces += rec.transitions


def truncated(rec, shard):
    """Truncated times: the first matching time on or after the base"""
    for t in shard:
        for z in (None, -90):
            base = mkt(t, z)
            cases = []
            for s in range(60):
                cases.append(('--%02i' % s, lambda x, s=s: x % 60 == s, 1))
            for m in range(60):
                cases.append(('-%02i' % m, lambda x, m=m: x // 60 % 60 == m,
                              60))
                for s in (0, 1, 29, 30, 59, t % 60):
                    for f in ('-%02i:%02i', '-%02i%02i'):
                        cases.append((f % (m, s), lambda x, m=m, s=s:
                                      x % 3600 == m * 60 + s, 1))
            for s, match, unit in cases:
                rec.case([t, s])
                rec.transitions += 1
                x = t // unit * unit
                while not match(x):
                    x += unit
                over, want = divmod(x, 86400)
                try:
                    got, gover, fmt = iso.Time.from_string_format(s, base)
                except BAD as e:
                    rec.fail('rejected', repr((str(base), s, str(e))))
                    continue
                wt = (want // 3600, want // 60 % 60,
                      want % 60 if unit == 1 else None)
                if (got.get_time(), gover, got.get_zone_offset()) != (
                        wt, over, z):
                    rec.fail('truncated', repr((str(base), s, str(got),
                                                gover)))
                rec.outcome(fmt + str(over))
    rec.states += len(shard)
    rec.traces += rec.transitions


def extended(rec, shard):
    """Seconds with fractions: the first match on or after the base"""
    secs = (0, 0.25, 0.5, 1, 29.75, 30, 30.25, 59, 59.5, 59.75)
    for h, m, z in shard:
        for s in secs:
            base = iso.Time(hour=h, minute=m, second=s, **zone_args(z))
            t = h * 3600 + m * 60 + s
            cases = [({'second': x}, x, 60) for x in secs]
            cases += [({'minute': i, 'second': x}, i * 60 + x, 3600)
                      for i in (0, 1, m, 58, 59) for x in secs]
            for args, x, period in cases:
                rec.case([h, m, z, s, args])
                rec.transitions += 1
                want = t // period * period + x
                if want < t:
                    want += period
                over, want = divmod(want, 86400)
                got, gover = base.extend(**args)
                gt = got.get_time()
                if gt[0] * 3600 + gt[1] * 60 + gt[2] != want or \
                        gover != over or got.get_zone_offset() != z:
                    rec.fail('extended', repr((str(base), s, args, gt,
                                               gover)))
                rec.outcome((period, over))
        rec.states += 1
    rec.traces += rec.transitions


def zone_args(z):
    if z is None:
        return {}
    return {'zdirection': (z > 0) - (z < 0), 'zhour': abs(z) // 60,
            'zminute': abs(z) % 60}


def broken(rec, shard):
    """Every string to length 5: rejected cleanly or a valid prefix"""
    first, = shard
    ok = re.compile(r'^T?([01]\d|2[0-4])|-[0-5]\d|--[0-6]\d')
    zok = re.compile(r'^(Z|[+-]\d\d)')
    dok = re.compile(r'^P\d')
    stack = [first]
    base = iso.Time(hour=1, minute=2, second=3)
    while stack:
        s = stack.pop()
        if len(s) < 5:
            stack.extend(s + c for c in '01T:-Z,')
        rec.case(s)
        rec.transitions += 3
        for what, f, pattern in (
                ('time', lambda: iso.Time.from_str(s, base), ok),
                ('truncated', lambda: iso.Time.from_str(s), ok),
                ('zone', lambda: base.with_zone_string(s), zok),
                ('duration', lambda: iso.Duration(s), dok)):
            try:
                x = f()
            except BAD:
                rec.outcome(what + ' bad')
                continue
            rec.outcome(what)
            if not pattern.match(s):
                rec.fail('accepted %s' % what, repr((s, str(x))))
    rec.states += 1
    rec.traces += rec.transitions


def order(rec, shard):
    """All pairs: comparison is that of the instants, else undefined"""
    pts = []
    for dt in (datetime.datetime(1999, 12, 31, 23, 59, 59),
               datetime.datetime(2000, 1, 1, 0, 0, 0),
               datetime.datetime(2000, 1, 1, 1, 0, 0),
               datetime.datetime(2000, 1, 1, 0, 30, 0)):
        for z in (None, 0, 30, 60, -60, 90):
            p = mkp(dt, z)
            inst = dt - datetime.timedelta(minutes=z or 0)
            pts.append((p, z is None, P.Complete, inst))
            if dt.second == 0:
                q = p.with_precision(P.Minute, True)
                pts.append((q, z is None, P.Minute, inst))
    for a, b in itertools.product(pts, pts):
        rec.case([str(a[0]), str(b[0])])
        rec.transitions += 1
        x, y = a[0], b[0]
        if a[1:3] == b[1:3]:
            want = (a[3] == b[3], a[3] < b[3], a[3] <= b[3])
            got = (x == y, x < y, x <= y)
            if got != want or (x != y) == want[0] or (y > x) != want[1] or \
                    (y >= x) != want[2]:
                rec.fail('comparison', repr((str(x), str(y), got)))
            if want[0] and hash(x) != hash(y):
                rec.fail('hash', repr((str(x), str(y))))
        else:
            if x == y:
                rec.fail('incomparable but equal', repr((str(x), str(y))))
            try:
                x < y
                rec.fail('incomparable but ordered', repr((str(x), str(y))))
            except TypeError:
                pass
        rec.outcome(repr(x == y))
    rec.states += 1
    rec.traces += rec.transitions


def unix(rec, shard):
    """Unix times over 1700-2300, with fractions"""
    for days in shard:
        for s in (0, 1, 59, 3599, 3600, 43200, 86399):
            for f in (0, 0.5, 0.25):
                t = days * 86400 + s + f
                rec.case(t)
                rec.transitions += 1
                p = iso.TimePoint.from_unix_time(t)
                want = EPOCH + datetime.timedelta(seconds=t)
                if str(p) != want.isoformat()[:19] + 'Z' or \
                        p.get_unixtime() != t:
                    rec.fail('unix time', repr((t, str(p),
                                                p.get_unixtime())))
    rec.outcome('ok')
    rec.states += len(shard)
    rec.traces += rec.transitions


def durations(rec, shard):
    """All subsets of components, orders and fractions"""
    names = 'YMDHMS'
    for mask in shard:
        comps = [i for i in range(6) if mask & (1 << i)]
        for vals in itertools.product((0, 1, 12), repeat=len(comps)):
            for frac in ('', ',5', '.25', ',0'):
                # fraction on each component, only the last is allowed
                for fi in (range(len(comps)) if frac else [-1]):
                    for t in (0, 1):
                        durn(rec, comps, vals, frac, fi, t, names)
    if 0 in shard:
        for v in (0, 1, 52, 100):
            for frac in ('', ',5', '.25'):
                s = 'P%i%sW' % (v, frac)
                rec.case(s)
                d = iso.Duration(s)
                x = v + float('0' + frac.replace(',', '.')) if frac else v
                if d.get_week_duration() != x:
                    rec.fail('weeks', s)
                n = len(frac) - 1
                if frac.startswith('.'):
                    n = -n
                if d.get_string(ndp=n if frac else 0) != s:
                    rec.fail('week string', repr((s, d.get_string())))
                try:
                    d.get_calender_duration()
                    rec.fail('weeks and calendar', s)
                except BAD:
                    pass
        # out of order components
        for s in ('P1M1Y', 'PT1M1H', 'P1Y1', 'P1', 'PT', 'P', 'P1H', 'PT1Y',
                  'PT1D', 'P1S', 'P1W1', 'PW', 'P1YT', '1Y', 'PY', 'PT1.S',
                  'P.5Y', 'P1Y1Y', 'P1M1M', 'PT1H1H', 'P-1Y'):
            rec.case(s)
            try:
                iso.Duration(s)
                if s != 'P1W1':
                    rec.fail('accepted duration', s)
            except BAD:
                pass
    rec.states += len(shard)
    rec.traces += rec.transitions


def durn(rec, comps, vals, frac, fi, t, names):
    s = 'P'
    full = dict(zip(comps, vals))
    intime = False
    for n, i in enumerate(comps):
        if i > 2 and not intime:
            s += 'T'
            intime = True
        s += str(full[i])
        if n == fi:
            s += frac
        s += names[i]
    if t and not intime:
        s += 'T'
        intime = None
    elif t:
        return
    rec.case(s)
    rec.transitions += 1
    ok = bool(comps) and intime is not None
    if frac and fi != len(comps) - 1:
        ok = False
    try:
        d = iso.Duration(s)
    except BAD:
        d = None
    rec.outcome(repr(ok))
    if (d is not None) != ok:
        rec.fail('validity of duration', repr((s, ok)))
        return
    if d is None:
        return
    want = []
    for i in range(6):
        if i in full:
            v = full[i]
            if frac and i == comps[-1]:
                v += float('0' + frac.replace(',', '.'))
            want.append(v)
        else:
            want.append(0 if i < comps[-1] else None)
    if list(d.get_calender_duration()) != want:
        rec.fail('duration', repr((s, d.get_calender_duration())))
    n = (len(frac) - 1) * (1 if frac.startswith(',') else -1) if frac else 0
    for trunc in (0, 1):
        back = d.get_string(trunc, n)
        d2 = iso.Duration(back)
        if d2 != d:
            rec.fail('duration string', repr((s, trunc, back)))
        # zeros are only dropped from the front
        lead = True
        tail = ''
        for i in range(comps[-1] + 1):
            v = full.get(i, 0)
            last = i == comps[-1]
            if trunc and lead and v == 0 and not last:
                pass
            else:
                lead = False
                if i > 2 and 'T' not in tail:
                    tail += 'T'
                tail += str(v) + (frac if last else '') + names[i]
        if back != 'P' + tail:
            rec.fail('duration format', repr((s, trunc, back, tail)))
    if iso.Duration(d) != d or (d == iso.Duration('P3Y')):
        rec.fail('duration equality', s)


def run(ck):
    ck.note('the oracle is the datetime module; fractions are exact binary '
            'fractions except where noted; trailing characters after a '
            'complete value are not judged')
    ck.part('seconds', seconds, [(i, i + 2700)
                                 for i in range(0, 86400, 2700)],
            'all 86400 seconds')
    allz = list(range(-1439, 1440))
    if not ck.thorough:
        allz = [z for z in allz if z % 15 in (0, 1, 14) or abs(z) > 1425]
    ck.part('zones', zones, [allz[i::16] for i in range(16)],
            '%i x 31 zone offsets' % len(allz))
    ck.part('strings', strings, [[h] for h in list(range(0, 27)) + [99]])
    ck.part('mixed', mixed)
    ck.part('truncated', truncated, [
        [h * 3600 + m * 60 + s] for h in (0, 12, 22, 23)
        for m in (0, 1, 30, 58, 59) for s in (0, 1, 30, 59)], '80 bases')
    ck.part('extended', extended, [
        [(h, m, z)] for h in (0, 12, 22, 23) for m in (0, 1, 30, 58, 59)
        for z in (None, 0, -90)], 'bases and seconds with fractions')
    ck.part('broken', broken, [(c, ) for c in '01T:-Z,+P'])
    ck.part('order', order)
    days = list(range(-98616, 120529, 31 if ck.thorough else 211)) + list(
        range(-3, 4)) + list(range(10950, 11330))
    ck.part('unix', unix, [days[i::16] for i in range(16)],
            '%i days' % len(days))
    ck.part('durations', durations, [[m] for m in range(64)],
            'all subsets of components')
