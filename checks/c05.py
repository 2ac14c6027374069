"""C05: ISO 8601 calendar dates agree with the Gregorian calendar"""
import bisect
import datetime

from pyslet import iso8601 as iso

LEVEL = 'model_checking'
RULE = ('every day from 0001-01-01 to 9999-12-31 in all its forms; every '
        'numeric string of each date format over the stated ranges; every '
        'truncated form against every base day in the stated windows, '
        'compared with the datetime module and a linear search')

MAXDAY = datetime.date.max.toordinal()
BAD = (iso.DateTimeError, ValueError)


def mk(d):
    return iso.Date(century=d.year // 100, year=d.year % 100,
                    month=d.month, day=d.day)


def days(rec, shard):
    lo, hi = shard
    prev = None
    for n in range(lo, min(hi, MAXDAY) + 1):
        g = datetime.date.fromordinal(n)
        rec.case(g.isoformat())
        d = iso.Date(absolute_day=n)
        c, y = divmod(g.year, 100)
        yday = g.timetuple().tm_yday
        if d.get_calendar_day() != (c, y, g.month, g.day):
            rec.fail('absolute day to calendar', repr((n, str(d))))
        if d.get_absolute_day() != n:
            rec.fail('calendar to absolute day', repr((n, str(d))))
        if d.get_ordinal_day() != (c, y, yday):
            rec.fail('ordinal day', repr((n, d.get_ordinal_day())))
        wy, ww, wd = g.isocalendar()
        w = d.get_week_day()
        if w != (wy // 100, wy % 100 // 10, wy % 10, ww, wd):
            rec.fail('week day', repr((n, w)))
        if iso.Date(century=c, year=y, ordinal_day=yday) != d:
            rec.fail('from ordinal', repr(n))
        if 0 < wy < 10000 and iso.Date(
                century=w[0], decade=w[1], year=w[2], week=w[3],
                weekday=w[4]) != d:
            rec.fail('from week', repr(n))
        if str(d) != g.isoformat():
            rec.fail('string', repr((n, str(d))))
        if iso.Date.from_str(str(d)) != d:
            rec.fail('from string', repr((n, str(d))))
        # the Julian calendar, independently through the day number
        j = d.get_julian_day()
        if j != julian(n):
            rec.fail('Julian day', repr((n, j)))
        if j[0] > 0 and iso.Date.from_julian(*j) != d:
            rec.fail('from Julian', repr((n, j)))
        if prev is not None and not (
                prev < d and prev != d and prev.offset(days=1) == d and
                d.offset(days=-1) == prev and
                hash(d) == hash(mk(g))):
            rec.fail('next day', repr((n, str(prev), str(d))))
        if g.day == 1:
            if d.leap_year() != (g.year % 4 == 0 and (
                    g.year % 100 != 0 or g.year % 400 == 0)):
                rec.fail('leap year', repr(g.year))
            if iso.week_count(g.year) != datetime.date(
                    g.year, 12, 28).isocalendar()[1]:
                rec.fail('week count', repr(g.year))
        t = [0] * 9
        d.update_struct_time(t)
        if t[:3] + t[6:8] != list(g.timetuple()[:3] + g.timetuple()[6:8]):
            rec.fail('struct time', repr((n, t)))
        prev = d
    rec.states += hi - lo + 1
    rec.transitions += hi - lo + 1
    rec.traces += hi - lo + 1
    rec.outcome('ok')


def julian(n):
    """Julian calendar date of Gregorian ordinal n (Richards' algorithm)"""
    f = n + 1721425 + 1401
    e = 4 * f + 3
    g = e % 1461 // 4
    h = 5 * g + 2
    day = h % 153 // 5 + 1
    month = (h // 153 + 2) % 12 + 1
    year = e // 1461 - 4716 + (12 + 2 - month) // 12
    return (year, month, day)


def offsets(rec, shard):
    """Day, week, month, year, century offsets"""
    for y in shard:
        for m in range(1, 13):
            d = iso.Date(century=y // 100, year=y % 100, month=m)
            for dm in list(range(-40, 41)) + [-1200, 1200, -1199, 1201]:
                rec.case([y, m, dm])
                rec.transitions += 1
                t = y * 12 + m - 1 + dm
                want = (t // 12, t % 12 + 1)
                try:
                    r = d.offset(months=dm)
                    got = (r.century * 100 + r.year, r.month)
                    if r.day is not None or r.week is not None:
                        got = repr(r)
                except BAD:
                    got = None
                if not 1 <= want[0] <= 9999:
                    want = None
                if got != want:
                    rec.fail('month offset', repr((y, m, dm, got)))
            for dy, dc in ((1, 0), (-1, 0), (0, 1), (0, -1), (99, 1),
                           (-101, 2)):
                rec.case([y, m, dy, dc])
                want = (y + dy + 100 * dc, m)
                try:
                    r = d.offset(years=dy, centuries=dc)
                    got = (r.century * 100 + r.year, r.month)
                except BAD:
                    got = None
                if not 1 <= want[0] <= 9999:
                    want = None
                if got != want:
                    rec.fail('year offset', repr((y, m, dy, dc, got)))
        d = iso.Date(century=y // 100, year=y % 100)
        for dy in range(-210, 211, 7):
            rec.case([y, dy])
            want = y + dy
            try:
                r = d.offset(years=dy)
                got = r.century * 100 + r.year
                if r.month is not None:
                    got = repr(r)
            except BAD:
                got = None
            if not 1 <= want <= 9999:
                want = None
            if got != want:
                rec.fail('year offset', repr((y, dy, got)))
        nw = datetime.date(y, 12, 28).isocalendar()[1]
        for w in range(1, nw + 1):
            d = iso.Date(century=y // 100, decade=y % 100 // 10, year=y % 10,
                         week=w)
            mon = datetime.date.fromisocalendar(y, w, 1)
            for dw in (1, -1, 52, -52, 53, -53, 105, -105, 5 * 52 + 1):
                rec.case([y, w, dw])
                rec.transitions += 1
                try:
                    want = (mon + datetime.timedelta(7 * dw)).isocalendar()
                    want = (want[0], want[1])
                except OverflowError:
                    continue
                r = d.offset(weeks=dw)
                got = (r.century * 100 + r.year, r.week)
                if got != want or r.day is not None:
                    rec.fail('week offset', repr((y, w, dw, got)))
        for dd in (-400, -367, -366, -365, -31, -1, 0, 1, 28, 59, 366, 1461):
            for md in ((1, 1), (2, 28), (3, 1), (12, 31)):
                g = datetime.date(y, *md)
                for dw in (0, 1, -53):
                    rec.case([y, md, dd, dw])
                    rec.transitions += 1
                    try:
                        want = (g + datetime.timedelta(
                            dd + 7 * dw)).isoformat()
                    except OverflowError:
                        want = None
                    try:
                        got = str(mk(g).offset(days=dd, weeks=dw))
                    except BAD:
                        got = None
                    if got != want:
                        rec.fail('day offset', repr((y, md, dd, dw, got)))
    rec.outcome('ok')
    rec.states += len(shard)
    rec.traces += rec.transitions


def attempt(s, base=None):
    try:
        d, f = iso.Date.from_string_format(s, base)
    except BAD:
        return None, None
    return d, f


def expect(y=None, m=None, day=None, w=None, wd=None, yday=None):
    """Values of a complete or reduced precision date, None if invalid"""
    try:
        if yday is not None:
            g = datetime.date(y, 1, 1)
            if yday < 1:
                return None
            r = g + datetime.timedelta(yday - 1)
            if r.year != y:
                return None
            return (r.year, r.month, r.day, None)
        if w is not None:
            g = datetime.date.fromisocalendar(y, w, 1 if wd is None else wd)
            if wd is None:
                return (y, None, None, w)
            return (g.year, g.month, g.day, None)
        datetime.date(y, 1 if m is None else m, 1 if day is None else day)
        return (y, m, day, None)
    except (ValueError, OverflowError):
        return None


def value(d):
    if d is None:
        return None
    return (None if d.year is None else d.century * 100 + d.year,
            d.month, d.day, d.week)


def strings(rec, shard):
    """Full forms: every combination of digits is valid or rejected"""
    for y in shard:
        cases = []
        for m in range(0, 20):
            cases.append(('%04i-%02i' % (y, m), 'YYYY-MM', expect(y, m)))
            for dd in list(range(0, 35)) + [99]:
                cases.append(('%04i-%02i-%02i' % (y, m, dd), 'YYYY-MM-DD',
                              expect(y, m, dd)))
                cases.append(('%04i%02i%02i' % (y, m, dd), 'YYYYMMDD',
                              expect(y, m, dd)))
        for yd in list(range(0, 380)) + [999]:
            cases.append(('%04i-%03i' % (y, yd), 'YYYY-DDD',
                          expect(y, yday=yd)))
            cases.append(('%04i%03i' % (y, yd), 'YYYYDDD',
                          expect(y, yday=yd)))
        for w in list(range(0, 56)) + [99]:
            cases.append(('%04i-W%02i' % (y, w), 'YYYY-Www',
                          expect(y, w=w)))
            cases.append(('%04iW%02i' % (y, w), 'YYYYWww', expect(y, w=w)))
            for wd in range(0, 10):
                cases.append(('%04i-W%02i-%i' % (y, w, wd), 'YYYY-Www-D',
                              expect(y, w=w, wd=wd)))
                cases.append(('%04iW%02i%i' % (y, w, wd), 'YYYYWwwD',
                              expect(y, w=w, wd=wd)))
        cases.append(('%04i' % y, 'YYYY', expect(y)))
        for s, fmt, want in cases:
            if y == 9999 and 'W' in fmt and want is None:
                # the last days of 9999-W52 are beyond datetime
                continue
            rec.case(s)
            d, f = attempt(s)
            rec.transitions += 1
            if value(d) != want or (d is not None and f != fmt):
                rec.fail('parsing %s' % fmt, repr((s, value(d), f, want)))
                continue
            if d is None:
                rec.outcome('bad ' + fmt)
                continue
            rec.outcome('ok ' + fmt)
            basic = '-' not in fmt
            if 'W' in fmt:
                back = d.get_week_string(basic)
            elif 'DDD' in fmt:
                back = d.get_ordinal_string(basic)
            else:
                back = d.get_calendar_string(basic)
            if back != s:
                rec.fail('formatting %s' % fmt, repr((s, back)))
    rec.states += len(shard)
    rec.traces += rec.transitions


def broken(rec, shard):
    """Strings which are not dates at all are rejected as such, every
    string of up to 5 characters over a small alphabet"""
    first, = shard
    import re
    ok = re.compile(r'^(\d\d(\d\d|-?W\d\d|\d\d\d|\d-?\d\d)?|'
                    r'-(\d\d|W\d\d|W-\d|\d\d\d|\d\d-?\d\d|\d-?W\d\d)|'
                    r'--(\d\d|\d\d-?\d\d)|---\d\d)')
    stack = [first]
    while stack:
        s = stack.pop()
        if len(s) < 5:
            stack.extend(s + c for c in '01-W')
        rec.case(s)
        rec.transitions += 1
        base = iso.Date(century=20, year=1, month=1, day=1)
        try:
            d = iso.Date.from_str(s, base)
        except BAD:
            d = None
        rec.outcome(repr(d is None))
        # a production: trailing characters are not an error
        if d is not None and not ok.match(s):
            rec.fail('accepted %r' % s, repr(d))
    rec.states += 1
    rec.traces += rec.transitions


def truncated(rec, shard):
    """The earliest date on or after base which matches"""
    for n in shard:
        g = datetime.date.fromordinal(n)
        base = mk(g)
        ic = g.isocalendar()
        cases = []

        def add(s, fmt, kind, key, limit, reduced):
            cases.append((s, fmt, kind, key, limit, reduced))
        yy = g.year % 100
        for dd in (1, 2, 15, 28, 29, 30, 31):
            add('---%02i' % dd, '---DD', 'd', dd, 31, None)
            for m in (1, 2, 3, 11, 12):
                add('--%02i-%02i' % (m, dd), '--MM-DD', 'md', (m, dd), 366,
                    None)
                for y in (0, 1, 95, 96, 99, yy):
                    add('%02i%02i%02i' % (y, m, dd), 'YYMMDD', 'ymd',
                        (y, m, dd), 36525, None)
        for yd in (1, 2, 59, 60, 61, 364, 365, 366):
            add('-%03i' % yd, '-DDD', 'o', yd, 366, None)
            for y in (0, 96, 99, yy):
                add('%02i-%03i' % (y, yd), 'YY-DDD', 'yo', (y, yd), 36525,
                    None)
        for wd in range(1, 8):
            add('-W-%i' % wd, '-W-D', 'wd', wd, 7, None)
            for w in (1, 2, 52, 53):
                add('-W%02i%i' % (w, wd), '-WwwD', 'wwd', (w, wd), 371, None)
                for y in (0, 5, 9, ic[0] % 10):
                    add('-%i-W%02i-%i' % (y, w, wd), '-Y-Www-D', 'ywwd',
                        (y, w, wd), 3660, None)
                for y in (0, 1, 50, 99, ic[0] % 100):
                    add('%02i-W%02i-%i' % (y, w, wd), 'YY-Www-D', 'yywwd',
                        (y, w, wd), 36525, None)
        # reduced precision: the earliest month (week) including base or
        # following it
        for m in range(1, 13):
            add('--%02i' % m, '--MM', 'm', m, 366, 'm')
        for y in (0, 1, 50, 99, yy):
            add('-%02i' % y, '-YY', 'y', y, 36525, 'y')
            for m in (1, 6, 12, g.month):
                add('-%02i%02i' % (y, m), '-YYMM', 'ym', (y, m), 36525, 'm')
        for w in (1, 2, 26, 52):
            add('-W%02i' % w, '-Www', 'w', w, 371, 'w')
            for y in (0, 5, 9, ic[0] % 10):
                add('-%iW%02i' % (y, w), '-YWww', 'yw', (y, w), 3660, 'w')
            for y in (0, 1, 50, 99, ic[0] % 100):
                add('%02iW%02i' % (y, w), 'YYWww', 'yyw', (y, w), 36525, 'w')
        for s, fmt, kind, key, limit, reduced in cases:
            rec.case([g.isoformat(), s])
            rec.transitions += 1
            d, f = attempt(s, base)
            if d is None:
                # only permitted if there is no such date in the period
                if find(n, kind, key, limit) is not None and not rare(s, fmt):
                    rec.fail('rejected %s' % fmt, repr((str(g), s)))
                rec.outcome('none ' + fmt)
                continue
            rec.outcome('ok ' + fmt)
            if f != fmt:
                rec.fail('format of %s' % fmt, repr((s, f)))
            x = find(n, kind, key, limit + 40000)
            if x is None:
                rec.fail('accepted %s' % fmt, repr((str(g), s, str(d))))
                continue
            if reduced is None:
                want = (x.year, x.month, x.day, None)
            elif reduced == 'm':
                want = (x.year, x.month, None, None)
            elif reduced == 'y':
                want = (x.year, None, None, None)
            else:
                want = (x.isocalendar()[0], None, None, x.isocalendar()[1])
            if value(d) != want:
                rec.fail('truncated %s' % fmt, repr(
                    (str(g), s, value(d), want)))
    rec.states += len(shard)
    rec.traces += rec.transitions


def rare(s, fmt):
    """Days that the next month, year, decade or century may not have"""
    return any(x in s for x in ('366', 'W53', '0229', '02-29')) or (
        fmt == '---DD' and s > '---28')


KINDS = {
    'd': lambda x, i: x.day,
    'md': lambda x, i: (x.month, x.day),
    'ymd': lambda x, i: (x.year % 100, x.month, x.day),
    'o': lambda x, i: x.timetuple().tm_yday,
    'yo': lambda x, i: (x.year % 100, x.timetuple().tm_yday),
    'wd': lambda x, i: i[2],
    'wwd': lambda x, i: (i[1], i[2]),
    'ywwd': lambda x, i: (i[0] % 10, i[1], i[2]),
    'yywwd': lambda x, i: (i[0] % 100, i[1], i[2]),
    'm': lambda x, i: x.month,
    'y': lambda x, i: x.year % 100,
    'ym': lambda x, i: (x.year % 100, x.month),
    'w': lambda x, i: i[1],
    'yw': lambda x, i: (i[0] % 10, i[1]),
    'yyw': lambda x, i: (i[0] % 100, i[1])}
_index = {}


def find(n, kind, key, limit):
    """First day on or after n with the given components"""
    if not _index:
        index = dict((k, {}) for k in KINDS)
        for i in range(datetime.date(1895, 1, 1).toordinal(),
                       datetime.date(2211, 1, 1).toordinal()):
            x = datetime.date.fromordinal(i)
            ic = x.isocalendar()
            for k, f in KINDS.items():
                index[k].setdefault(f(x, ic), []).append(i)
        _index.update(index)
    days = _index[kind].get(key, [])
    p = bisect.bisect_left(days, n)
    if p < len(days) and days[p] <= n + limit:
        return datetime.date.fromordinal(days[p])


def run(ck):
    ck.note('the oracle is the datetime module (proleptic Gregorian); '
            'truncated forms with a day that the next period lacks (day 31, '
            'leap days, week 53) may be rejected')
    step = 20000
    ck.part('days', days, [(i, i + step) for i in range(1, MAXDAY, step)],
            'all %i days of years 1-9999' % MAXDAY)
    years = [1, 2, 4, 99, 100, 101, 1582, 1600, 1899, 1900, 1901, 1904] + \
        list(range(1990, 2030)) + [2096, 2099, 2100, 2101, 9995, 9998, 9999]
    if ck.thorough:
        years = sorted(set(years) | set(range(1870, 2110)))
    ck.part('offsets', offsets, [years[i::16] for i in range(16)],
            '%i years' % len(years))
    ck.part('strings', strings, [[y] for y in years + [0]],
            '%i years' % (len(years) + 1))
    ck.part('broken', broken, [(c, ) for c in '01-W'],
            'every string to length 5 over 01-W')
    if ck.thorough:
        b = range(datetime.date(1995, 1, 1).toordinal(),
                  datetime.date(2005, 1, 1).toordinal())
        b = list(b)
    else:
        b = []
        for y in (1896, 1899, 1999, 2000, 2004, 2095, 2099):
            for m, dd in ((1, 1), (1, 2), (1, 4), (1, 31), (2, 28), (3, 1),
                          (6, 15), (12, 27), (12, 28), (12, 30), (12, 31)):
                b.append(datetime.date(y, m, dd).toordinal())
        b.append(datetime.date(2000, 2, 29).toordinal())
    ck.part('truncated', truncated, [b[i::16] for i in range(16)],
            '%i base days, ~700 truncated strings each' % len(b))
