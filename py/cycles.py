"""Cycles of four plies, found with the reference model."""


def poskey(s):
    return s.rsplit(' ', 1)[0]


def perpetual_from(r):
    """Moves of a four-ply cycle in which the side to move always checks, if the position has one."""
    k0 = poskey(r.sfen())
    for a in r.legal():
        ua = r.usi(a)
        if '*' in ua or '+' in ua:
            continue
        r.apply(a)
        hit = None
        if r.incheck:
            for b in r.legal()[:8]:
                ub = r.usi(b)
                if '*' in ub or '+' in ub:
                    continue
                r.apply(b)
                back, bb = ua[2:4] + ua[0:2], ub[2:4] + ub[0:2]
                d = {r.usi(x): x for x in r.legal()}
                if back in d:
                    r.apply(d[back])
                    if r.incheck:
                        d2 = {r.usi(x): x for x in r.legal()}
                        if bb in d2:
                            r.apply(d2[bb])
                            if poskey(r.sfen()) == k0:
                                hit = [ua, ub, back, bb]
                            r.undo()
                    r.undo()
                r.undo()
                if hit:
                    break
        r.undo()
        if hit:
            return hit
    return None


def perpetual_entered(r):
    """A checking move and a cycle after it in which the same side always checks: the repeated positions all come after checks."""
    for a in r.legal():
        ua = r.usi(a)
        r.apply(a)
        hit = None
        if r.incheck:
            k1 = poskey(r.sfen())
            y = ua[2:4]
            for b in r.legal()[:6]:
                ub = r.usi(b)
                if '*' in ub or '+' in ub:
                    continue
                r.apply(b)
                for c in r.legal():
                    uc = r.usi(c)
                    if uc[:2] != y or '+' in uc:
                        continue
                    r.apply(c)
                    n = 0
                    if r.incheck:
                        for u in (ub[2:4] + ub[:2], uc[2:4] + uc[:2]):
                            d = {r.usi(x): x for x in r.legal()}
                            if u not in d:
                                break
                            r.apply(d[u])
                            n += 1
                        if n == 2 and poskey(r.sfen()) == k1 and r.incheck:
                            hit = [ua, [ub, uc, ub[2:4] + ub[:2], uc[2:4] + uc[:2]]]
                    for _ in range(n):
                        r.undo()
                    r.undo()
                    if hit:
                        break
                r.undo()
                if hit:
                    break
        r.undo()
        if hit:
            return hit
    return None


def shuffle_from(r, R):
    """A four-ply cycle without checks."""
    k0 = poskey(r.sfen())
    la = [r.usi(x) for x in r.legal()]
    R.shuffle(la)
    for ua in la[:12]:
        if '*' in ua or '+' in ua:
            continue
        d = {r.usi(x): x for x in r.legal()}
        r.apply(d[ua])
        hit = None
        if not r.incheck:
            lb = {r.usi(x): x for x in r.legal()}
            bs = list(lb)
            R.shuffle(bs)
            for ub in bs[:12]:
                if '*' in ub or '+' in ub:
                    continue
                r.apply(lb[ub])
                seq = [ua, ub]
                n = 0
                for u in (ua[2:4] + ua[0:2], ub[2:4] + ub[0:2]):
                    d2 = {r.usi(x): x for x in r.legal()}
                    if u not in d2 or (n == 0 and r.incheck):
                        break
                    r.apply(d2[u])
                    n += 1
                    seq.append(u)
                if n == 2 and poskey(r.sfen()) == k0:
                    hit = seq
                for _ in range(n):
                    r.undo()
                r.undo()
                if hit:
                    break
        r.undo()
        if hit:
            return hit
    return None
