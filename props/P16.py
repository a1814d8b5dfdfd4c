from vflib import Unit
UNITS = []
def NAT(e, f, s): UNITS.append(Unit(e + '_n', 'P16.c', e, kind='native', level='bounded', bound='seeded native run, not a proof', funcs=f, seconds=s, fuzz_len=100))
NAT('gm', ['M_time_togm', 'M_time_fromgm', 'M_time_normalize_tm', 'M_time_days_in_month', 'M_time_is_valid_day'], 15)
NAT('fmt', ['M_time_to_str', 'M_time_parsefmt'], 8)
def U(n, e, d, f, **k): UNITS.append(Unit(n, 'P16u.c', e, defines=d, funcs=f, native=False, **dict(dict(unwind=13, solver='cadical'), **k)))
for r in (59, 23, 11): U('range_%d' % r, 'range', ['-DRANGE=%d' % r], ['normalize_range'])
U('days', 'days', ['-DDAYS'], ['M_time_days_in_month', 'M_time_is_valid_day'], solver='z3')
U('lemma', 'lemma', ['-DDAYS'], [], solver='z3', unwind=401)
U('leap', 'vf_leap', ['-DDAYS'], ['IS_LEAPYEAR'], solver='z3')
U('norm', 'norm', ['-DNORM', '-DMAXY=(1LL<<34)'], ['M_time_normalize_tm'], timeout=1500, quick=False, kind='dfcc')
U('togm', 'togm', ['-DCAL', '-DTO'], ['M_time_togm', 'calc_yday'])
U('wday_12', 'wday', ['-DCAL', '-DTO', '-DMAXQ=(1LL<<12)'], ['M_time_togm'], solver='z3', level='bounded', bound='28000 days on either side of the epoch')
U('wday_24', 'wday', ['-DCAL', '-DTO', '-DMAXQ=(1LL<<24)'], ['M_time_togm'], solver='z3', timeout=1500, quick=False)
U('from_years', 'from', ['-DCAL', '-DFROM', '-DMAXY=(1LL<<34)'], ['M_time_fromgm'], kind='dfcc')
U('from_rest', 'from', ['-DCAL', '-DFROM', '-DMON'], ['M_time_fromgm'])
META = dict(
    title='UTC calendar conversion is exact in both directions',
    statement='Turning seconds since the epoch into UTC calendar fields (M_time_togm) gives the proleptic Gregorian date, time of day, weekday and day of the year of that second, for every time before or after 1970, and M_time_fromgm gives back the same second. Normalizing out of range fields (months, days, hours, minutes or seconds of any sign and size) keeps the moment they denote, days in a month and day validity follow the Gregorian leap year rule, and formatting with M_time_to_str shows those fields.',
    quant='all times and all values of the calendar fields',
    why='Mistakes sit at leap days, century years, negative times and fields far out of range; the tests convert a handful of dates.',
    files=['base/time/m_time_gm.c', 'base/time/m_time_parse.c', 'include/mstdlib/base/m_time.h'],
    mech=[('carrying from field to field', 'base/time/m_time_gm.c'), ('walking years and months', 'base/time/m_time_gm.c'), ('field formatting', 'base/time/m_time_parse.c')],
    note='Carry from field to field: complete for values within 2^40. The loops over years and months of normalization and of M_time_fromgm: loop invariants over a ghost day number (years within 2^34; that of normalization takes seven minutes and runs in the thorough tier, the quick tier leaves it to the native search). Leap year rule: complete for years within 2^20. Weekday: bounded in the quick tier, 2^24 weeks in the thorough tier. Assumed: the day number of a year is determined by its steps (lemma unit). Formatting and parsing: native search only. Local time and daylight saving rules are not covered.')
