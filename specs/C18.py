"""C18: VTIMEZONE offsets come from the latest onset, independent of history"""
from specs.comps import *

NOTE = "proved for any list of observances with any rules and any local time, with what is cached chosen adversarially; what datetime asks of its zone, and the built-in zones, are bounded"
ASSUMPTIONS = ["dateutil's rruleset.before(d, inc=True) is determined by the rule and d, and is the last of its times at or before d",
               "functools.lru_cache returns what some call with equal arguments returned; the observances of a timezone are not changed"]
OFF = TD(whole=True, lo=dt.timedelta(hours=-24), hi=dt.timedelta(hours=24))
OBS = Tup(Bool(), OFF, OFF, Rule(), Text())
WHEN = DT(years=(1999, 2001))


def observance(o):
    dst, frm, to, rule, name = o
    return (TimezoneDaylightObservance if dst else TimezoneStandardObservance)(frm, to, rule, name)


def onset(c, d):
    """the last onset of an observance that has passed at a local time"""
    local = d.replace(tzinfo=None)
    back = c.tzoffsetfrom - c.tzoffsetto
    if d.fold and back > dt.timedelta(0):
        local = local + back
    return c.rrule.before(local, inc=True)


def latest(zone, d):
    best = at = None
    for c in zone.observances:
        on = onset(c, d)
        if on is not None and (at is None or at < on):
            best, at = c, on
    return best, at


ASKED = {"utcoffset": lambda c: c.tzoffsetto, "dst": lambda c: c.tzoffsetto - c.tzoffsetfrom if c.is_dst else dt.timedelta(0), "tzname": lambda c: c.tzname}


def first_standard(zone):
    for c in zone.observances:
        if not c.is_dst:
            return c
    return zone.observances[0]


@lemma("C18", cases={"asked": list(ASKED), "fold": [0, 1]}, obs=ListOf(OBS), d=DT(years=(1999, 2001), fold=False))
def latest_onset_applies(asked, fold, obs, d):
    """for any observances, with any onsets, and any time"""
    d = d.replace(fold=fold)
    zone = Timezone("Some/Zone", [observance(o) for o in obs])
    assume(len(zone.observances) >= 2)
    got = getattr(zone, asked)(d)
    best, at = latest(zone, d)
    if best is None:
        prove(got == ASKED[asked](first_standard(zone)), "the first standard observance, or else the first one, applies before all onsets")
    else:
        prove(got == ASKED[asked](best), "the observance with the latest onset applies")


@lemma("C18", cases={"fold": [0, 1]}, obs=ListOf(OBS), d=DT(years=(1999, 2001), fold=False))
def latest_is_the_latest(fold, obs, d):
    """what the specification means"""
    d = d.replace(fold=fold)
    zone = Timezone("Some/Zone", [observance(o) for o in obs])
    best, at = latest(zone, d)
    if best is None:
        prove(all(onset(c, d) is None for c in zone.observances), "no onset has passed")
        return
    prove(all(onset(c, d) is None or onset(c, d) <= at for c in zone.observances), "no later onset has passed")
    for c in zone.observances:
        if c is best:
            break
        on = onset(c, d)
        prove(on is None or on < at, "the first observance on ties")
    prove(onset(best, d) == at, "the onset is one of the observance")


@lemma("C18", cases={"asked": list(ASKED)}, o=OBS, d=WHEN)
def single_observance(asked, o, d):
    zone = Timezone("Some/Zone", [observance(o)])
    prove(getattr(zone, asked)(d) == ASKED[asked](zone.observances[0]), "the only observance applies")


T0 = dt.datetime(2000, 1, 1)


def rand_obs(r):
    """(daylight?, offset from, offset to, onsets)"""
    return (r.random() < .5, r.choice([-60, 0, 60, 120, 30]), r.choice([-60, 0, 60, 120, 90, 0]), sorted(r.sample(range(0, 12), r.choice([0, 1, 2, 4]))))


def mkzone(obs):
    out = []
    for i, (dst, frm, to, onsets) in enumerate(obs):
        rs = dateutil.rrule.rruleset()
        for o in onsets:
            rs.rdate(T0 + o * H)
        out.append((TimezoneDaylightObservance if dst else TimezoneStandardObservance)(frm * H / 60, to * H / 60, rs, "N%d" % i))
    return Timezone("Test/Zone", out)


def answer(obs, d):
    """index of the observance with the latest onset: specification"""
    best = None
    for i, (dst, frm, to, onsets) in enumerate(obs):
        back = (frm - to) * H / 60 if to < frm and d.fold else dt.timedelta(0)
        for o in onsets:
            on = T0 + o * H
            if on - back <= d.replace(tzinfo=None) and (best is None or on > best[0]):
                best = (on, i)
    if best is not None:
        return best[1]
    for i, o in enumerate(obs):
        if not o[0]:
            return i
    return 0


def rand_q(r):
    return (T0 + r.choice([H, H / 2, H / 4]) * r.randint(-4, 50)).replace(fold=r.choice([0, 0, 1]), microsecond=r.choice([0, 0, 1]))


@lemma("C18", mode="bounded", weight=2, obs=Native(lambda r: [rand_obs(r) for _ in range(r.choice([1, 2, 2, 3, 4]))]), qs=Native(lambda r: [rand_q(r) for _ in range(r.choice([1, 5, 20, 40]))]))
def histories(obs, qs):
    z = mkzone(obs)
    for q in qs + qs[::-1]:
        i = answer(obs, q) if len(obs) > 1 else 0
        d = q.replace(tzinfo=z)
        dst, frm, to, _ = obs[i]
        prove(d.utcoffset() == to * H / 60 and z.utcoffset(d) == to * H / 60, "offset of the latest observance")
        prove(d.dst() == ((to - frm) * H / 60 if dst else dt.timedelta(0)), "DST offset of the latest observance")
        prove(d.tzname() == "N%d" % i, "name of the latest observance")


@lemma("C18", mode="bounded", which=Native(lambda r: r.choice(TZ_NAMES[:4] + ["Custom"])), qs=Native(lambda r: [rand_dt(r, None, (1980, 2030)) for _ in range(12)]))
def history_does_not_matter(which, qs):
    z = builtin_tz(which) if which != "Custom" else zone_pool()[8]
    fresh = z.clone()
    one_by_one = [(z.utcoffset(q), z.dst(q), z.tzname(q)) for q in qs]
    other = [(fresh.utcoffset(q), fresh.dst(q), fresh.tzname(q)) for q in reversed(qs)][::-1]
    prove(one_by_one == other, "the same answers in any order")
    for q, (o, d, n) in zip(qs, one_by_one):
        best = None
        for c in z.observances:
            back = c.tzoffsetfrom - c.tzoffsetto if c.tzoffsetto < c.tzoffsetfrom and q.fold else dt.timedelta(0)
            on = c.rrule.before(q + back, inc=True)
            if on is not None and (best is None or on > best[0]):
                best = (on, c)
        if best:
            prove((o, n) == (best[1].tzoffsetto, best[1].tzname), "the observance with the latest onset")
            prove(d == (best[1].tzoffsetto - best[1].tzoffsetfrom if isinstance(best[1], TimezoneDaylightObservance) else dt.timedelta(0)), "the DST offset of the observance with the latest onset")
