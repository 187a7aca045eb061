"""Monitors of the USI engine driver, of its listeners and of matches between engines.

The engine is a scripted stand-in (fake_engine.py) that records every line it is sent.
"""
import contextlib
import io
import json
import math
import os
import re
import shutil
import multiprocessing
import signal
import socket
import statistics
import subprocess
import sys
import tempfile
import threading
import time
import urllib.request

import cshogi as C
from cshogi import cli
from cshogi.elo import Elo
from cshogi.usi import Engine, InfoListener, MultiPVListener
from core_util import csa_of, fields, kif_move, read_svg, ref_board_of, usi_sq
from cycles import perpetual_entered, perpetual_from, poskey, shuffle_from
from mon import Mon
from refm import Ref

M = Mon()
R = M.rng
TMP = tempfile.mkdtemp(prefix='eng_')
LIMIT = int(os.environ.get("LIMIT", 60))
HERE = os.path.dirname(os.path.abspath(__file__))


def fake(name, cfg):
    d = os.path.join(TMP, name)
    os.makedirs(d)
    with open(os.path.join(d, 'config.json'), 'w') as f:
        json.dump(cfg, f)
    path = os.path.join(d, 'engine')
    with open(os.path.join(HERE, 'fake_engine.py')) as f, open(path, 'w') as g:
        g.write('#!%s -IS\n' % os.path.realpath(sys.executable) + f.read())
    os.chmod(path, 0o755)
    return path


def log_of(path):
    p = os.path.join(os.path.dirname(path), 'log.jsonl')
    if not os.path.exists(p):
        return []
    with open(p, 'rb') as f:
        text = f.read()        # in one go: the engine may be writing
    return [json.loads(x) for x in text[:text.rfind(b'\n') + 1].splitlines()]


class Hung(Exception):
    pass


def guarded(fn, on_hang=lambda: None):
    """fn() in a thread; Hung if it does not come back."""
    box = []

    def run():
        try:
            box.append((True, fn()))
        except BaseException as e:
            box.append((False, e))
    t = threading.Thread(target=run, daemon=True)
    t.start()
    t.join(LIMIT)
    if t.is_alive():
        on_hang()
        raise Hung()
    ok, v = box[0]
    if not ok:
        raise v
    return v


# ---------------------------------------------------------------- Engine
USI_MOVES = ['7g7f', '3c3d', '8h2b+', 'P*5e', '2g2f', 'R*9a', '5i5h', '1a1b+']


def info_line():
    return R.choice(['info depth %d score cp %d pv %s' % (R.randrange(40), R.randrange(-3000, 3000), ' '.join(R.choices(USI_MOVES, k=R.randrange(1, 6)))),
                     'info string ' + R.choice(['hello', 'best move is 7g7f', 'readyok soon', 'usiok?', 'a  b']), 'info nodes 100 nps 1000', '', 'option name A type check default true',
                     'id author x', 'readyok!', 'x bestmove 7g7f', 'info string checkmate nomate'])


def reply_for(kind):
    """(lines before the answer, answer line or None, result of the call)"""
    pre = [info_line() for _ in range(R.choice([0, 0, 1, 3, 10]))]
    if R.random() < .04:
        pre += ['info depth %d score cp 5 nodes %d pv %s' % (i, i * 7, ' '.join(USI_MOVES)) for i in range(3000)]
        M.count('huge_output')
    if kind in ('connect', 'usi'):
        name = R.choice(['Foo', 'Foo 1.0 (x64)', 'a', 'name name', 'x' * 200])
        return ['id name ' + name] + [x for x in pre if x[:7] != 'id name'], 'usiok', name
    if kind == 'isready':
        return pre, 'readyok', None
    if kind == 'go':
        b = R.choice(USI_MOVES + ['resign', 'win'])
        if R.random() < .4:
            p = R.choice(USI_MOVES)
            M.count('ponder_move')
            return pre, 'bestmove %s ponder %s' % (b, p), (b, p)
        if R.random() < .1:
            return pre, 'bestmove %s ponder' % b, (b, None)
        return pre, 'bestmove ' + b, (b, None)
    if kind == 'go_mate':
        x = R.choice(['nomate', 'timeout', 'notimplemented', ' '.join(R.choices(USI_MOVES, k=R.randrange(1, 9)))])
        return pre, 'checkmate ' + x, x
    return [], None, None


def chunks(lines):
    eol = R.choice(['\n', '\n', '\r\n', ' \n'])
    data = ''.join(x + eol for x in lines)
    if len(data) > 5000 or R.random() < .6:
        return [[data, 0]] if data else []
    out = []
    while data:
        n = R.randrange(1, 12)
        out.append([data[:n], R.choice([0, 0, 0, .002])])
        data = data[n:]
    M.count('torn_lines')
    return out


def call_args(kind):
    """(arguments, command line expected)"""
    if kind == 'setoption':
        n, v = R.choice([('USI_Hash', 256), ('Threads', '4'), ('Book File', 'a b.bin'), ('USI_Ponder', 'true'), ('Z', 0), ('E', '')])
        return dict(name=n, value=v), 'setoption name %s value %s' % (n, v)
    if kind == 'position':
        kw, cmd = {}, 'position startpos'
        if R.random() < .4:
            kw['sfen'] = 'sfen lnsgkgsnl/1r5b1/ppppppppp/9/9/9/PPPPPPPPP/1B5R1/LNSGKGSNL b - 1'
            cmd = 'position ' + kw['sfen']
        if R.random() < .8:
            kw['moves'] = R.choices(USI_MOVES, k=R.choice([0, 1, 2, 50, 300, 3000]))
            if kw['moves']:
                cmd += ' moves ' + ' '.join(kw['moves'])
        return kw, cmd
    if kind == 'go':
        kw = {}
        for k in ('ponder', 'btime', 'wtime', 'byoyomi', 'binc', 'winc', 'nodes'):
            if R.random() < .4:
                kw[k] = True if k == 'ponder' else R.choice([0, 1, 1000, 600000])
        cmd = 'go'
        if kw.get('ponder'):
            cmd += ' ponder'
        for k in ('btime', 'wtime', 'byoyomi', 'binc', 'winc', 'nodes'):
            if k in kw and not (k in ('binc', 'winc') and 'byoyomi' in kw):
                cmd += ' %s %d' % (k, kw[k])
        return kw, cmd
    if kind == 'go_mate':
        b = R.choice([None, 0, 5000])
        return dict(byoyomi=b), 'go mate ' + ('infinite' if b is None else str(b))
    if kind == 'gameover':
        r = R.choice([None, 'win', 'lose', 'draw'])
        return dict(result=r), 'gameover' + (' ' + r if r else '')
    return {}, {'connect': 'usi'}.get(kind, kind)


def stop_when(e, path, n):
    """Send stop once the engine has received n lines (or is gone)."""
    t0 = time.monotonic()
    while sum(1 for x in log_of(path) if x[1] == 'in') < n:
        if e.proc is None or e.proc.poll() is not None or time.monotonic() - t0 > LIMIT / 2:
            return
        time.sleep(.002)
    with contextlib.suppress(OSError, AttributeError):
        e.stop()


def delivered(e, path, n):
    """Whether the engine gets its n-th line without a further call (None: the engine is gone or slow)."""
    t0 = time.monotonic()
    while sum(1 for x in log_of(path) if x[1] == 'in') < n:
        if e.proc is None or e.proc.poll() is not None:
            return None
        if time.monotonic() - t0 > LIMIT / 2:
            return False
        time.sleep(.002)
    return True


def one_engine(i):
    kinds = ['connect'] + R.choices(['usi', 'setoption', 'isready', 'usinewgame', 'position', 'go', 'go_mate', 'ponderhit', 'stop', 'gameover', 'go+stop'], k=R.randrange(1, 14)) + ['quit']
    fail_at = R.randrange(len(kinds)) if R.random() < .35 else None
    plan, replies, cmds, at = [], [], [], []
    for k, kind in enumerate(kinds):
        base = 'go' if kind == 'go+stop' else kind
        kw, cmd = call_args(base)
        pre, ans, res = reply_for(base)
        rep = {}
        if R.random() < .06:
            rep['err'] = R.choice([10, 200000])
            M.count('stderr')
        how = None
        if k == fail_at:
            how = R.choice(['die_before', 'die_mid', 'die_torn', 'close', 'die_after'])
            lines = [] if how == 'die_before' else pre[:R.randrange(len(pre) + 1)] if how != 'die_after' else pre + ([ans] if ans else [])
            rep['out'] = chunks(lines)
            if how == 'die_torn' and ans:
                rep['out'].append([ans[:R.randrange(1, len(ans.split()[0]))], 0])
            if how == 'close':
                rep['close'] = 1
            else:
                rep['die'] = R.choice([0, 1, 139])
            M.count('fail.' + how)
        elif kind == 'go+stop':
            rep['out'] = chunks(pre)
        else:
            rep['out'] = chunks(pre + ([ans] if ans else []))
        replies.append(rep)
        cmds.append(cmd)
        at.append(len(cmds))
        plan.append((kind, kw, cmd, pre, ans, res, how))
        if kind == 'go+stop':
            replies.append({'out': chunks([ans])})
            cmds.append('stop')
    path = fake('e%d' % i, {'mode': 'script', 'replies': replies})
    desc = '%r' % [(p[0], p[2][:80], p[6]) for p in plan]
    M.crumb(desc)
    e = Engine(path, connect=False)
    heard, expect = [], []
    failed = sent = None
    for k, (kind, kw, cmd, pre, ans, res, how) in enumerate(plan):
        before = len(heard)
        with_listener = R.random() < .8
        kw = dict(kw)
        if with_listener:
            kw['listener'] = heard.append

        def kill():
            with contextlib.suppress(Exception):
                e.proc.kill()
        M.eval()
        M.count('call.' + kind)
        pid = e.proc.pid if e.proc else None
        try:
            if kind == 'go+stop':
                th_stop = threading.Thread(target=stop_when, args=(e, path, at[k]))
                th_stop.start()
                try:
                    got = guarded(lambda: e.go(**kw), kill)
                finally:
                    th_stop.join()
            else:
                got = guarded(lambda: getattr(e, kind)(**kw), kill)
        except Hung:
            M.violation('engine.hang', 'call %d (%s) never returned: %s' % (k, kind, desc))
            return False
        except (EOFError, OSError) as x:
            if not M.check(failed or how, 'engine.error', lambda: 'call %d (%s) raised %r although the engine is fine: %s' % (k, kind, x, desc)):
                break
            failed = True
            M.count('error.' + type(x).__name__)
            continue
        except Exception as x:
            M.violation('engine.exception', 'call %d (%s) raised %r: %s' % (k, kind, x, desc))
            break
        if kind == 'quit':
            M.check(e.proc is None, 'engine.quit', lambda: 'proc is left after quit: %s' % desc)
            try:
                os.waitpid(pid, os.WNOHANG)
                M.violation('engine.zombie', 'the engine process is not reaped by quit: %s' % desc)
            except ChildProcessError:
                pass
            M.count('quit')
            break
        if failed or (how and how != 'die_after'):
            failed = True
            # a call that reads an answer cannot have got one from a dead engine
            if ans:
                M.violation('engine.ghost', 'call %d (%s) returned %r from a dead engine: %s' % (k, kind, got, desc))
            continue
        if how:
            failed = True
        want = {'connect': None, 'usi': [x.strip() for x in pre], 'go': res, 'go+stop': res, 'go_mate': res}.get(kind)
        M.check(got == want, 'engine.result', lambda: 'call %d (%s, answer %r) returned %r instead of %r: %s' % (k, kind, ans, got if len(str(got)) < 300 else '...', want if len(str(want)) < 300 else '...', desc))
        if kind == 'connect':
            M.check(e.name == res, 'engine.name', lambda: 'name %r instead of %r' % (e.name, res))
        if not ans and not how and R.random() < .3:
            # a call that waits for nothing has sent its command all the same
            there = delivered(e, path, at[k])
            M.check(there is not False, 'engine.unsent', lambda: 'call %d (%s) returned, but the engine does not get its command: %s' % (k, kind, desc))
            M.count('delivered.%s' % kind if there else 'delivered.unknown')
        if with_listener:
            exp = [cmd, res] if kind == 'connect' else [cmd] + [x.strip() for x in pre] + ([ans] if ans else [])
            M.check(heard[before:] == exp, 'engine.listener', lambda: 'call %d (%s): listener heard %r instead of %r' % (k, kind, heard[before:][:20], exp[:20]))
            M.count('listened')
    logged = [x[2] for x in log_of(path) if x[1] == 'in']
    if failed is None:
        M.check(logged == [c + '\n' for c in cmds], 'engine.commands', lambda: 'the engine was sent %r instead of %r' % (logged[:20], cmds[:20]))
    else:
        # whatever it was sent before it stopped is a prefix of the calls
        full = [x for x in logged if x.endswith('\n')]
        M.check(full == [c + '\n' for c in cmds[:len(full)]], 'engine.commands', lambda: 'the engine was sent %r instead of a prefix of %r' % (full[:20], cmds[:20]))
    M.distinct(desc)
    M.sample(desc[:300])
    with contextlib.suppress(Exception):
        if e.proc:
            e.proc.kill()
            e.proc.wait()
    shutil.rmtree(os.path.dirname(path), ignore_errors=True)
    return True


def engine():
    for i in range(M.cases):
        if not one_engine(i):
            M.finish()
            sys.stdout.flush()
            shutil.rmtree(TMP, ignore_errors=True)
            os._exit(0)


# ---------------------------------------------------------------- listeners
def info():
    ref = Ref(M.seed)
    for i in range(M.cases):
        ref.start()
        for _ in range(R.randrange(60)):
            m = ref.pick(0)
            if not m:
                break
            ref.apply(m)
        moves = [ref.usi(m) for m in ref.legal()] or ['resign']
        pool = R.choices(moves, k=R.randrange(1, 5))
        ms = R.choice([100000, 30000, 1])
        heard = []
        il = InfoListener(mate_score=ms, listner=heard.append) if R.random() < .5 else InfoListener(mate_score=ms)
        ml = MultiPVListener(heard.append) if R.random() < .3 else MultiPVListener()
        for rnd in range(R.randrange(1, 4)):
            M.eval()
            last, multi, lines = {}, {}, []
            for _ in range(R.choice([0, 1, 5, 20])):
                k = R.random()
                if k < .12:
                    lines.append('info string ' + R.choice(['hi', 'loading book', '%+d' % R.randrange(9)]))
                    continue
                d = {}
                names = ['depth', 'seldepth', 'time', 'nodes', 'nps', 'hashfull', 'score', 'currmove', 'multipv']
                R.shuffle(names)
                toks = []
                for nm in names[:R.randrange(len(names) + 1)]:
                    if nm == 'score':
                        t, v = ('cp', R.choice([0, 5, -5, R.randrange(-9999, 9999)])) if R.random() < .6 else ('mate', R.choice(['+', '-', '+5', '-3', '7', '-12', '1']))
                        d['score'] = t
                        d[t] = int(v) if str(v) not in '+-' else v
                        toks += ['score', t, str(v)]
                        if R.random() < .2:
                            b = R.choice(['lowerbound', 'upperbound'])
                            d[b] = True
                            toks.append(b)
                    elif nm == 'currmove':
                        d[nm] = R.choice(moves)
                        toks += [nm, d[nm]]
                    else:
                        d[nm] = R.choice([0, 1, 2, 3, R.randrange(10 ** 9)]) if nm != 'multipv' else R.randrange(1, 12)
                        toks += [nm, str(d[nm])]
                pv = [R.choice(pool)] + R.choices(moves, k=R.choice([0, 1, 4]))
                if R.random() < .85:
                    d['pv'] = pv
                    toks += ['pv'] + pv
                    last[pv[0]] = d
                    if 'multipv' in d:
                        multi[d['multipv']] = d
                lines.append('info ' + ' '.join(toks))
            best = R.choice(pool + ['resign'])
            lines.append('bestmove ' + best + R.choice(['', ' ponder ' + R.choice(moves)]))
            heard.clear()
            il.listen()
            ml.listen()
            for x in ['go byoyomi 1000'] + lines:
                il(x)
                ml(x)
            text = '%r' % (lines[-8:],)
            M.crumb(text)
            try:
                got = (il.bestmove, il.info, il.score, il.pv, ml.info, il.mate_score)
            except Exception as x:
                M.violation('info.exception', '%r for %s' % (x, text))
                continue
            d = last.get(best)
            score = None
            if d and 'cp' in d:
                score = d['cp']
            elif d and 'mate' in d:
                score = -ms if str(d['mate'])[0] == '-' else ms
            want = (best, d, score, d['pv'] if d else None, [multi[k] for k in sorted(multi)], ms)
            for nm, g, w in zip(('bestmove', 'info', 'score', 'pv', 'multipv', 'mate_score'), got, want):
                M.check(g == w, 'info.' + nm, lambda: '%s is %r instead of %r after %s' % (nm, g, w, text))
            M.count('score.' + ('none' if score is None else 'cp' if 'cp' in d else 'mate'))
            M.count('multi.%d' % min(len(multi), 3))
            M.distinct(text)
        M.sample(text[:200])


# ---------------------------------------------------------------- matches
def illegal_move(r):
    legal = {r.usi(x) for x in r.legal()}
    sq = [a + b for a in '123456789' for b in 'abcdefghi']
    while True:
        k = R.random()
        if k < .3:
            u = R.choice('PLNSGBR') + '*' + R.choice(sq)
        elif k < .9:
            u = R.choice(sq) + R.choice(sq) + R.choice(['', '', '+'])
        else:
            u = R.choice(['7g7', 'xxxx', '0000', 'K*5e', '5i5i', 'none', '7g7f++', 'pass'])
        if u not in legal and not (len(u) == 6 and u[:5] in legal or u[:4] in legal and len(u) > 5):
            return u


class Planned:
    """One game: moves, what each engine says at each ply, how it ends and who wins (0 first player, 1 second, None drawn)."""

    def __init__(self, r, opt, opening, hold_ends):
        self.moves = []          # USI, including the opening
        self.say = {}            # ply -> [lines, delay]
        self.long = R.random() < .1   # one move of more than a second
        self.score = {}
        self.quick = {}
        r.start()
        self.counts = {poskey(r.sfen()): 1}
        self.checks = []         # per ply: did the move give check
        self.hist = [poskey(r.sfen())]
        self.kind = None
        self.opening = opening
        self.r = r
        self.opt = opt
        for u in opening:
            self._apply(u)
        self.open_n = len(self.moves)
        self._play(hold_ends)

    def _apply(self, u):
        d = {self.r.usi(x): x for x in self.r.legal()}
        self.r.apply(d[u])
        self.moves.append(u)
        self.checks.append(self.r.incheck)
        k = poskey(self.r.sfen())
        self.hist.append(k)
        self.counts[k] = self.counts.get(k, 0) + 1

    def _info(self, u, score=None):
        """Output lines of a search that plays u."""
        out = []
        for _ in range(R.choice([0, 0, 1, 3])):
            out.append(R.choice(['info string thinking', 'info depth 3 score cp %d pv %s' % (R.randrange(-500, 500), u), 'info nodes 5']))
        pv = [u]
        if R.random() < .5 and u not in ('resign', 'win'):
            d = {self.r.usi(x): x for x in self.r.legal()}
            if u in d:
                self.r.apply(d[u])
                n = 1
                for _ in range(R.randrange(4)):
                    m = self.r.pick(0)
                    if not m:
                        break
                    pv.append(self.r.usi(m))
                    self.r.apply(m)
                    n += 1
                for _ in range(n):
                    self.r.undo()
        if score is None and R.random() < .6:
            score = 'cp %d' % R.randrange(-900, 900)
            if R.random() < .01:
                score = 'mate ' + R.choice(['-3', '-'])
        self.last = None
        if score is not None:
            # what follows a move that cannot be played is no part of the line
            junk = [R.choice(['resign', 'win', '0000', '5e5e', 'zz', 'K*5e'])] + R.choices(USI_MOVES, k=R.randrange(2)) if R.random() < .06 else []
            out.append('info depth 5 score %s nodes 10 pv %s' % (score, ' '.join(pv + junk)))
            self.last = (score, pv)
        else:
            out.append('info string no score')
        return out

    def turn(self, u, score=None, delay=0, ponder=None):
        ply = len(self.moves)
        lines = self._info(u, score)
        self.score[ply] = self.last
        b = 'bestmove ' + u
        if ponder:
            b += ' ponder ' + ponder
        self.say[str(ply)] = [lines + [b], delay]

    def value(self):
        """The score of the search just planned, as the match rules read it."""
        if self.last is None:
            return None
        t, v = self.last[0].split()
        return int(v) if t == 'cp' else (-100000 if v[0] == '-' else 100000)

    def _end(self, kind, winner):
        self.kind, self.winner = kind, winner
        self.n = len(self.moves)
        self.pos_turn = self.n % 2

    def _play(self, ends):
        r, opt = self.r, self.opt
        goal = R.choice(ends)
        limit = R.choice([0, 3, 10, 30]) if goal not in ('mate', 'perpetual', 'perpetual_evader') else R.choice([40, 90])
        limit += self.open_n
        pol = R.randrange(7)
        while True:
            ply = len(self.moves)
            t = ply % 2
            if ply + 1 > opt['draw']:
                return self._end('max', None)
            cyc = None
            if goal in ('perpetual', 'shuffle') and ply >= limit // 3 and not r.incheck:
                cyc = perpetual_from(r) if goal == 'perpetual' else shuffle_from(r, R)
                if goal == 'perpetual' and R.random() < .5:
                    ent = perpetual_entered(r)
                    if ent and opt['draw'] >= ply + 15:
                        if self._step(ent[0]):
                            return
                        cyc = ent[1]
                if cyc and opt['draw'] < ply + 14:
                    cyc = None
            if cyc:
                # keep cycling until the rules stop it
                while True:
                    for u in cyc:
                        if self._step(u):
                            return
            if ply >= limit and goal == 'resign':
                self.turn('resign')
                if self._threshold():
                    return
                return self._end('resign', 1 - t)
            if ply >= limit and goal == 'win':
                self.turn('win')
                if self._threshold():
                    return
                return self._end('declare', t)
            if ply >= limit and goal == 'illegal':
                self.turn(illegal_move(r))
                if self._threshold():
                    return
                return self._end('illegal', 1 - t)
            if ply >= limit and goal == 'timeup' and opt['time'][t] is not None and opt['time'][t] < 500 and not opt['inc'][t]:
                m = r.pick(0)
                if m:
                    self.turn(r.usi(m), delay=opt['time'][t] / 1000 + 1.3)
                    return self._end('time', 1 - t)
            if goal == 'mate' and not r.incheck and ply > 25:
                for m in r.legal():
                    r.apply(m)
                    ok = r.ismate
                    r.undo()
                    if ok:
                        break
                else:
                    m = r.pick(pol if R.random() < .7 else 0)
            else:
                m = r.pick(pol if R.random() < .6 else 0)
            if goal == 'threshold' and ply >= limit and opt['resign'] is not None:
                self.turn(r.usi(m), 'cp %d' % -R.choice([opt['resign'], opt['resign'] + 1, 5000 + opt['resign']]) if R.random() < .7 else 'mate -4')
                assert self._threshold()
                return
            if goal == 'mate_win' and ply >= limit and opt['mate_win']:
                if self._step(r.usi(m), 'mate %s' % R.choice(['+', '3', '+5', '1'])):
                    return
            elif self._step(r.usi(m)):
                return

    def _threshold(self):
        v = self.value()
        if self.opt['resign'] is not None and v is not None and v <= -self.opt['resign']:
            self._end('threshold', 1 - len(self.moves) % 2)
            return True
        return False

    def _step(self, u, score=None):
        """One ordinary move; True if the game is over."""
        ply = len(self.moves)
        t = ply % 2
        if ply + 1 > self.opt['draw']:
            self._end('max', None)
            return True
        pm = None
        if self.opt['ponder'] and R.random() < .7:
            pm = 'predict'
        slow = .3 if self.opt['time'][t] == 200 and R.random() < .15 else .03 if self.opt['ponder'] and R.random() < .1 else 0
        if not slow and self.opt['time'][t] != 200 and self.long and R.random() < .1:
            slow, self.long = 1.02, self.long - 1
        self.turn(u, score, ponder=pm, delay=slow)
        if slow:
            M.count('slow_move')
        if self._threshold():
            return True
        mate = self.opt['mate_win'] and self.value() == 100000
        self._apply(u)
        if mate:
            if len(self.moves) + 1 > self.opt['draw'] and self.r.legal():
                self.kind = 'ambiguous'
                return True
            self._end('mate_win', t)
            return True
        if self.counts[self.hist[-1]] == 4:
            # perpetual check: since the last occurrence, and since the first, all moves of one side were checks
            n = len(self.moves)
            first = self.hist.index(self.hist[-1])
            prev = max(k for k in range(n) if self.hist[k] == self.hist[-1])
            v = []
            for a in (prev, first):
                mover = all(self.checks[k] for k in range(n - 1, a - 1, -2))
                other = all(self.checks[k] for k in range(n - 2, a - 1, -2))
                v.append(1 - t if mover else t if other else None)
            if v[0] != v[1] or n + 1 > self.opt['draw']:
                self.kind = 'ambiguous'
            else:
                self._end('repetition' if v[0] is None else 'perpetual', v[0])
                if v[0] is not None:
                    M.count('perpetual.checker_moved' if v[0] != t else 'perpetual.evader_moved')
            return True
        if not self.r.legal():
            self._end('mate', t)
            return True
        return False

    def finish_ponder(self):
        """Replace the predicted replies: mostly the move that will be played."""
        for p, (lines, _) in self.say.items():
            if lines[-1].endswith(' ponder predict'):
                k = int(p)
                nxt = self.moves[k + 1] if k + 1 < len(self.moves) and R.random() < .6 else '9i9h'
                lines[-1] = lines[-1][:-7] + nxt
                M.count('ponder.right' if nxt != '9i9h' else 'ponder.wrong')


ENDS = ['resign', 'win', 'illegal', 'mate', 'perpetual', 'shuffle', 'shuffle', 'max', 'threshold', 'mate_win', 'timeup']
CSA_END = {'resign': '%TORYO', 'mate': '%TORYO', 'threshold': '%TORYO', 'mate_win': '%TORYO', 'declare': '%KACHI', 'illegal': '%ILLEGAL_MOVE', 'max': '%JISHOGI', 'repetition': '%SENNICHITE', 'time': '%TIME_UP'}


def pgn_sq(s):
    return chr(ord('a') + 9 - int(s[0])) + str(10 - 'abcdefghi'.index(s[1]) - 1)


def one_match(i, r):
    games = R.choice([1, 2, 2, 3, 4, 5])
    tm = R.choice([None, 600000, (600000, 300000)])
    inc = R.choice([None, None, 1000, (1000, 2000)])
    byo = R.choice([None, 1000, (1000, 2000)])
    pair = lambda x: tuple(x) if isinstance(x, tuple) else (x, x)
    opt = dict(draw=R.choice([256, 256, 20, 40, 7]), resign=R.choice([None, 1000, 3000]), mate_win=R.random() < .4, ponder=R.random() < .25, no_swap=R.random() < .3)
    keep = R.random() < .4
    names = R.choice([None, ['A', 'B'], ['Alpha 1', None]])
    real = ['FakeOne', 'FakeTwo']
    shown = [(names and names[k]) or real[k] for k in range(2)]
    ends = [x for x in ENDS if x != 'timeup']
    if R.random() < .5:
        ends = [R.choice(ends)]
    if R.random() < .12:
        tm, inc, ends, games = 200, None, ['timeup', 'timeup', 'resign'], R.choice([1, 2])
        opt['ponder'] = False
    elif len(ends) == 1:
        if ends[0] in ('mate', 'perpetual', 'shuffle'):
            opt['draw'] = 256
        elif ends[0] == 'mate_win':
            opt['mate_win'] = True
        elif ends[0] == 'threshold':
            opt['resign'] = R.choice([1000, 3000])
    # openings
    openings, kw = None, {}
    if R.random() < .4:
        openings = []
        for _ in range(R.randrange(1, 4)):
            r.start()
            o = []
            for _ in range(R.choice([0, 2, 5, 9])):
                m = r.pick(0)
                o.append(r.usi(m))
                r.apply(m)
            openings.append(o)
        cut = R.choice([24, 24, 3])
        f = os.path.join(TMP, 'open%d.txt' % i)
        with open(f, 'w') as fh:
            fh.write(''.join('startpos' + (' moves ' + ' '.join(o) if o else '') + '\n' for o in openings))
        idx = R.randrange(len(openings)) if R.random() < .7 or len(openings) > 1 else None
        if idx is not None:
            openings = [openings[idx]]
        kw.update(opening=f, opening_moves=cut, opening_index=idx)
        openings = [o[:cut] for o in openings]
        M.count('openings')
    plans = []
    for n in range(games):
        swap = n % 2 == 1 and not opt['no_swap']
        o = dict(opt)
        for k, v in (('time', pair(tm)), ('inc', pair(inc))):
            o[k] = v[::-1] if swap else v
        for _ in range(20):
            g = Planned(r, o, openings[n // 2 % len(openings)] if openings else [], ends)
            if g.kind != 'ambiguous':
                break
        else:
            return
        g.finish_ponder()
        g.swap = swap
        g.shown, g.round = shown, n + 1
        plans.append(g)
    if games == 1 and plans[0].kind == 'mate' and R.random() < .5:
        opt['draw'] = plans[0].n        # mate with the last move allowed
        M.count('mate_at_limit')
    stop_after = R.randrange(1, games + 1) if R.random() < .3 else None
    played = plans[:stop_after] if stop_after else plans
    paths = []
    for e in range(2):
        paths.append(fake('m%d_%d' % (i, e), {'mode': 'play', 'name': real[e], 'plan': [
            {p: v for p, v in g.say.items() if (int(p) % 2) ^ g.swap == e} for g in plans]}))
    opts = [R.choice([{}, {'USI_Hash': '16'}, {'A': 1, 'B': 'x y'}]) for _ in range(2)]
    csa_dir = os.path.join(TMP, 'csa%d' % i)
    os.makedirs(csa_dir)
    multi = R.random() < .5
    use_csa = R.random() < .7
    if use_csa:
        kw.update(csa=os.path.join(csa_dir, 'all.csa') if multi else csa_dir, multi_csa=multi)
    use_pgn = R.random() < .7
    no_moves = R.random() < .2
    pgn_path = os.path.join(TMP, 'g%d.pgn' % i)
    if use_pgn:
        kw.update(pgn=pgn_path, no_pgn_moves=no_moves)
    calls = []

    def callback(d):
        calls.append(dict(d))
        return len(calls) != stop_after
    desc = '%s games=%d %s openings=%s keep=%s' % (opt, games, [(g.kind, g.n) for g in plans], bool(openings), keep)
    M.crumb(desc)
    out = io.StringIO()
    summary = R.random() < .8
    display, debug = R.random() < .2, R.random() < .15 and not opt["ponder"]    # debug output of two threads is torn
    shell = R.random() < .25          # python -m cshogi.cli instead of main()
    if shell:
        if use_csa and not multi:
            os.rmdir(csa_dir)         # the command makes it
        stop_after, played, summary = None, plans, True
        M.count('command_line')

    def run():
        if shell:
            out.write(command(paths, opts, names, games, byo, tm, inc, keep, display, debug, opt, kw, desc))
            return None
        with contextlib.redirect_stdout(out):
            # one time for both may come as a list
            one = lambda x: [x] if x is not None and not isinstance(x, tuple) and R.random() < .2 else x
            return cli.main(paths[0], paths[1], opts[0], opts[1], names=names, games=games, byoyomi=one(byo), time=one(tm), inc=one(inc), keep_process=keep, callback=callback,
                            print_summary=summary, is_display=display, debug=debug, **opt, **kw)
    try:
        res = guarded(run, lambda: None)
    except Hung:
        sys.stdout = sys.__stdout__
        M.violation('match.hang', 'the match never ends: ' + desc)
        M.finish()
        sys.stdout.flush()
        os.system('pkill -9 -f ' + TMP)
        shutil.rmtree(TMP, ignore_errors=True)
        os._exit(0)
    except Exception as x:
        M.violation('match.exception', '%r: %s' % (x, desc))
        return
    if tm == 200 and stalled(paths, played):
        M.count('slow_host')
        return
    M.eval(len(played))
    expected_summary = []
    # results
    tally = dict(engine1_name=shown[0], engine2_name=shown[1], engine1_won=0, engine2_won=0, black_won=0, white_won=0, draw=0, total=0)
    per = [[0] * 6, [0] * 6]   # won, lost, drawn as first player / second
    for n, g in enumerate(played):
        tally['total'] += 1
        if g.winner is None:
            tally['draw'] += 1
        else:
            tally['engine%d_won' % (1 + (g.winner ^ g.swap))] += 1
            tally['white_won' if g.winner else 'black_won'] += 1
        for e in range(2):
            side = e ^ g.swap
            per[e][(4 if g.winner is None else 0 if g.winner == side else 2) + side] += 1
        expected_summary += summary_of(n, games, shown, tally, per)
        M.check(shell or n < len(calls) and calls[n] == tally, 'match.callback', lambda: 'after game %d: %r instead of %r; %s' % (n + 1, calls[n] if n < len(calls) else None, tally, desc))
        M.count('end.' + g.kind)
        M.count('winner.%s' % g.winner)
        if opt['ponder']:
            M.count('ponder_games')
        M.distinct((g.kind, ' '.join(g.moves)))
    M.check(shell or len(calls) == len(played), 'match.games', lambda: '%d games played instead of %d; %s' % (len(calls), len(played), desc))
    M.check(shell or res == tally, 'match.result', lambda: '%r instead of %r; %s' % (res, tally, desc))
    # printed results
    text = out.getvalue()
    lines = text.split('\n')
    got = [x for x in lines if x.startswith('まで')]
    want = []
    for g in played:
        end = {'max': '持将棋', 'repetition': '千日手', 'declare': '入玉宣言'}.get(g.kind)
        side = '後手' if g.winner else '先手'
        lost = '先手' if g.winner else '後手'
        if g.kind in ('illegal',):
            end = lost + 'の反則負け'
        elif g.kind == 'time':
            end = lost + 'の切れ負け'
        elif g.kind == 'perpetual':
            end = (side + 'の反則勝ち') if g.winner == g.pos_turn else lost + 'の反則負け'
        elif end is None:
            end = side + 'の勝ち'
        want.append('まで%d手で%s' % (g.n, end))
    M.check(got == want, 'match.printed', lambda: '%r instead of %r; %s' % (got, want, desc))
    if debug:
        check_debug(paths, lines, desc)
        lines = [x for x in lines if not re.match(r'[12]:', x)]
    if display:
        check_display(lines, played, desc)
        M.count('displayed')
    started = ['%s vs %s start.' % ((shown[1], shown[0]) if g.swap else tuple(shown)) for g in played]
    printed = [x for x in lines if x.endswith(' start.')]
    M.check(printed == started, 'match.printed', lambda: '%r instead of %r; %s' % (printed, started, desc))
    got = [x for x in lines if x.endswith(' games finished.') or re.search(r': \d+-\d+-\d+ \(|^Elo', x)]
    want = expected_summary if summary else []
    M.check(got == want, 'match.summary', lambda: '%r instead of %r; %s' % ([x for x in got if x not in want][:3] or got[-3:], [x for x in want if x not in got][:3] or want[-3:], desc))
    if summary:
        M.count('summaries')
    check_logs([log_of(x) for x in paths], played, opt, opts, keep, byo, tm, inc, desc)
    if use_csa:
        check_csa(csa_dir, multi, played, desc)
    if use_pgn:
        check_pgn(pgn_path, no_moves, played, desc)
    M.sample(desc[:300])
    for p in paths:
        shutil.rmtree(os.path.dirname(p), ignore_errors=True)
    shutil.rmtree(csa_dir, ignore_errors=True)


def summary_of(n, games, shown, tally, per):
    """The lines printed after game n."""
    d = tally['draw']
    rows = [('%s vs %s' % tuple(shown), tally['engine1_won'], tally['engine2_won'], d), ('Black vs White', tally['black_won'], tally['white_won'], d)]
    for e in range(2):
        for s, nm in ((0, 'Black'), (1, 'White')):
            rows.append(('%s playing %s' % (shown[e], nm), per[e][s], per[e][2 + s], per[e][4 + s]))
    out = ['%d of %d games finished.' % (n + 1, games)]
    out += ['%s: %d-%d-%d (%.1f%%)' % (h, a, b, c, (a + c / 2) / (a + b + c) * 100 if a + b + c else 0) for h, a, b, c in rows]
    w, l = tally['engine1_won'], tally['engine2_won']
    if w and l:
        out.append('Elo difference: %.1f +/- %.1f, LOS: %.1f %%, DrawRatio: %.1f %%' % elo_of(w, l, d))
    return out


def elo_of(w, l, d):
    """Difference, error margin (95 %), likelihood of superiority and draw ratio (mode elo checks the class itself)."""
    e = Elo(w, l, d)
    try:
        m = e.error_margin()
    except ValueError:
        m = math.nan
    return e.diff(), m, e.los(), e.draw_ratio()


def command(paths, opts, names, games, byo, tm, inc, keep, display, debug, opt, kw, desc):
    """The match as a shell command; its output."""
    a = [sys.executable, '-m', 'cshogi.cli', *paths]
    for k, o in enumerate(opts):
        if o:
            a += ['--options%d' % (k + 1), ','.join('%s:%s' % x for x in o.items())]
    for k, n in enumerate(names or []):
        if n:
            a += ['--name%d' % (k + 1), n]
    for k, v in (('games', games), ('byoyomi', byo), ('time', tm), ('inc', inc), ('draw', opt['draw']), ('resign', opt['resign']), ('opening', kw.get('opening')), ('opening-moves', kw.get('opening_moves')),
                 ('opening-index', kw.get('opening_index')), ('opening-seed', kw.get('opening_seed')), ('csa', kw.get('csa')), ('pgn', kw.get('pgn'))):
        if v is not None and not (k in ('games', 'draw', 'opening-moves') and v == {'games': 1, 'draw': 256, 'opening-moves': 24}[k]):
            a += ['--' + k] + [str(x) for x in (v if isinstance(v, tuple) else [v])]
    for k, v in (('mate-win', opt['mate_win']), ('ponder', opt['ponder']), ('no-swap', opt['no_swap']), ('keep-process', keep), ('multi-csa', kw.get('multi_csa')), ('no-pgn-moves', kw.get('no_pgn_moves')),
                 ('display', display), ('debug', debug)):
        if v:
            a.append('--' + k)
    p = subprocess.run(a, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=dict(os.environ, PYTHONIOENCODING='utf-8', PYTHONPATH=os.pathsep.join(x for x in sys.path if x)), cwd=TMP)
    M.check(p.returncode == 0, 'match.command', lambda: 'the command %r ended with %d: %s; %s' % (a[3:], p.returncode, p.stderr.decode('utf-8', 'replace')[-300:], desc))
    return p.stdout.decode('utf-8', 'replace')


def check_debug(paths, lines, desc):
    for e in range(2):
        got = [x[2:] for x in lines if x.startswith('%d:' % (e + 1))]
        sent = [x[2].rstrip('\n') for x in log_of(paths[e]) if x[1] == 'in' and x[2]]
        it = iter(got)
        M.check(all(x in it for x in sent), 'match.debug', lambda: 'engine %d was sent %r, the debug output shows %r; %s' % (e + 1, sent[:8], got[:8], desc))
        M.count('debugged')


def check_display(lines, played, desc):
    """The positions shown."""
    shown = []
    for k, x in enumerate(lines):
        if re.match(r'\d+手目$|開始局面$', x):
            j = k + 1
            while j < len(lines) and lines[j] != '':
                j += 1
            shown.append((x, lines[k + 1:j]))
    want = []
    for g in played:
        last = len(g.moves) - (1 if g.kind in ('repetition', 'perpetual', 'mate_win') else 0)
        g.r.start()
        for p in range(len(g.moves) + 1):
            if p == len(g.opening):
                want.append(('開始局面', board_lines(g.r)))
            elif p > len(g.opening) and p <= last:
                want.append(('%d手目' % p, board_lines(g.r)))
            if p < len(g.moves):
                g.r.apply({g.r.usi(x): x for x in g.r.legal()}[g.moves[p]])
    bad = [(a, b) for a, b in zip(shown, want) if a != b][:1]
    M.check(not bad and len(shown) == len(want), 'match.display', lambda: '%d positions shown instead of %d; %r; %s' % (len(shown), len(want), bad, desc))


def board_lines(r):
    return str(C.Board(r.sfen())).rstrip('\n').split('\n')


def stalled(paths, played):
    """Did a move without a planned delay take long enough to lose on time?"""
    evs = sorted((x for p in paths for x in log_of(p)), key=lambda x: x[0])
    for a, b in zip(evs, evs[1:]):
        if b[0] - a[0] > .6 and not (a[1] == 'in' and a[2].startswith('go') and b[0] - a[0] > 1.2):
            return True
    return False


def check_logs(logs, played, opt, opts, keep, byo, tm, inc, desc):
    """Every line each engine was sent, against the plan."""
    pair = lambda x: tuple(x) if isinstance(x, tuple) else (x, x)
    clocks = {}
    for e in range(2):
        ins = logs[e]
        odd = [x for x in ins if x[1] in ('unplanned', 'odd')]
        M.check(not odd, 'match.unplanned', lambda: 'engine %d asked to move out of turn: %r; %s' % (e + 1, odd[:3], desc))
        sent = [x[2].rstrip('\n') for x in ins if x[1] == 'in' and x[2]]
        want = []
        for n, g in enumerate(played):
            if n == 0 or not keep:
                want.append('usi')
            if opt['ponder']:
                want.append('setoption name USI_Ponder value true')
            want += ['setoption name %s value %s' % kv for kv in opts[e].items()]
            want += ['isready', 'usinewgame']
            want.append(('game', n))
            want.append('gameover')
            if not keep or n == len(played) - 1:
                want.append('quit')
        body = ('position', 'go', 'ponderhit', 'stop')
        got, cur, n = [], None, 0
        for x in sent:
            if x.split(' ')[0] in body:
                if cur is None:
                    cur = []
                cur.append(x)
            else:
                if got and got[-1] == 'usinewgame':
                    got.append(('game', n))
                    check_turns(e, played[n] if n < len(played) else None, cur or [], opt, byo, pair, desc)
                    n += 1
                    cur = None
                got.append(x)
        M.check(got == want and cur is None, 'match.protocol', lambda: 'engine %d was sent %r instead of %r; %s' % (e + 1, got, want, desc))
        clocks[e] = [x for x in ins if x[1] == 'in' and x[2].split()[:1] in (['go'], ['ponderhit'], ['usinewgame']) or x[1] == 'out' and x[2].startswith('bestmove')]
    check_clocks(clocks, played, pair(tm), pair(inc), desc)


def check_turns(e, g, cmds, opt, byo, pair, desc):
    if g is None:
        return
    own = [p for p in sorted(map(int, g.say)) if (p % 2) ^ g.swap == e]
    b = pair(byo)[e]
    if not opt['ponder']:
        want = []
        for p in own:
            want.append('position startpos' + (' moves ' + ' '.join(g.moves[:p]) if p else ''))
            want.append('go')
        got = [x if not x.startswith('go') else 'go' for x in cmds]
        M.check(got == want, 'match.position', lambda: 'engine %d: %r instead of %r; %s' % (e + 1, got[-6:], want[-6:], desc))
        M.count('turns', len(own))
        for x in cmds:
            if x.startswith('go'):
                d = dict(zip(x.split()[1::2], map(int, x.split()[2::2])))
                M.check(d.get('byoyomi') == b, 'match.byoyomi', lambda: 'engine %d was sent %r with byoyomi %r; %s' % (e + 1, x, b, desc))
    else:
        # the answers asked for (go without ponder, or ponderhit) come in the planned positions
        k, last = [], None
        for x in cmds:
            if x.startswith('position'):
                last = x.split()[3:]
            elif x == 'ponderhit' or x.startswith('go') and 'ponder' not in x:
                k.append(last)
        want = [g.moves[:p] for p in own]
        for x in cmds:
            if x.startswith('go'):
                d = times_in([y for y in x.split() if y != 'ponder'])
                M.check(d.get('byoyomi') == b, 'match.byoyomi', lambda: 'engine %d was sent %r with byoyomi %r; %s' % (e + 1, x, b, desc))
        M.check(k == want, 'match.ponder', lambda: 'engine %d answered in %r instead of %r; %s' % (e + 1, [len(x) for x in k], [len(x) for x in want], desc))
        M.count('turns', len(own))


def turns_of(log):
    """The turns of one engine in one game: [its go or ponderhit came, what the go said, its answer went out, what the go ponder after it said, when]."""
    out, open_turn = [], None
    for t, what, line, *_ in log:
        w = line.split()
        if what == 'in' and w[:1] == ['go'] and 'ponder' in w:
            if out and out[-1][2] is not None:
                out[-1][3:] = [times_in([x for x in w if x != 'ponder']), t]
        elif what == 'in' and w[:1] in (['go'], ['ponderhit']):
            out.append([t, times_in(w) if w[0] == 'go' else None, None, None, None])
            open_turn = out[-1]
        elif what == 'out' and w[:1] == ['bestmove'] and open_turn:
            open_turn[2] = t
            open_turn = None
    return out


def times_in(w):
    return dict(zip(w[1::2], map(int, w[2::2])))


def check_clocks(clocks, played, tm, inc, desc):
    """Time left, sent with every go, against the times the engines themselves saw.  Fills g.spent: least and most seconds of every turn."""
    per = []
    for e in range(2):
        games = []
        for x in clocks[e]:
            if x[2].startswith('usinewgame'):
                games.append([])
            elif games:
                games[-1].append(x)
        per.append([turns_of(x) for x in games])
    key = ('btime', 'wtime')
    for n, g in enumerate(played):
        a = [list(per[s ^ g.swap][n]) if n < len(per[s ^ g.swap]) else [] for s in range(2)]   # by side
        t = [tm[s ^ g.swap] for s in range(2)]
        ic = [inc[s ^ g.swap] for s in range(2)]
        left = [(t[0], t[0]), (t[1], t[1])]          # least and most time left, as far as the engines were told
        g.spent = {}
        plies = sorted(map(int, g.say))
        turns = []
        for p in plies:
            if not a[p % 2]:
                break
            turns.append((p, a[p % 2].pop(0)))

        def told(d, where):
            for s in range(2):
                M.check((d.get(key[s]) is None) == (t[s] is None), 'match.clock', lambda: '%s: %r with main times %r; %s' % (where, d, t, desc))
                v = d.get(key[s])
                if t[s] is not None and v is not None:
                    lo, hi = left[s]
                    # less than a second overdrawn counts as zero left
                    M.check(max(0, lo) <= v <= max(0, hi) or v == 0 and lo <= 0, 'match.clock', lambda: '%s: %r, but side %d has between %.1f and %.1f ms left; %s' % (where, d, s, lo, hi, desc))
                    M.count('clock')
                    left[s] = (v, v)
            if 'byoyomi' not in d:
                M.check((d.get('binc'), d.get('winc')) == (ic[0], ic[1]), 'match.inc', lambda: '%s: %r with increments %r; %s' % (where, d, ic, desc))
        for k, (p, (start, said, end, pondered, when)) in enumerate(turns):
            s = p % 2
            if said is not None:
                told(said, 'go at ply %d' % p)
            else:
                M.count('clock.ponderhit')
            if end is None:
                break
            # at least as long as the engine saw; at most from the other side's answer to the next line either engine was sent
            nxt = [x for x in ((turns[k + 1][1][0] if k + 1 < len(turns) else None), when) if x is not None]
            least = end - start
            most = (min(nxt) - turns[k - 1][1][2] if nxt and k else float('inf')) + .002
            g.spent[p] = (least, most)
            if t[s] is not None:
                lo, hi = left[s]
                left[s] = (lo + (ic[s] or 0) - most * 1000, hi + (ic[s] or 0) - least * 1000 + 1)
                if left[s][0] < 0:
                    left[s] = (0, max(0, left[s][1]))
            if pondered is not None:
                M.count('clock.pondering')
                told(pondered, 'go ponder after ply %d' % p)


def check_csa(csa_dir, multi, played, desc):
    files = sorted(os.listdir(csa_dir), key=lambda f: os.path.getmtime(os.path.join(csa_dir, f)))
    if multi:
        M.check(files == ['all.csa'], 'match.csa', lambda: 'files %r; %s' % (files, desc))
        if files != ['all.csa']:
            return
        text = open(os.path.join(csa_dir, 'all.csa')).read()
        texts = text.split('\n/\n')
        texts = [x for x in texts if x.strip()]
    else:
        # names carry the second the game started: games of the same second overwrite each other
        texts = [open(os.path.join(csa_dir, f)).read() for f in files]
        if len(texts) < len(played):
            M.count('csa.same_second')
            texts = [None] * (len(played) - 1) + texts[-1:]
    M.check(len(texts) == len(played), 'match.csa', lambda: '%d games in the CSA record instead of %d; %s' % (len(texts), len(played), desc))
    check_csa_texts(texts, played, desc)


def check_csa_texts(texts, played, desc):
    for g, t in zip(played, texts):
        if t is None:
            continue
        ls = t.strip('\n').split('\n')
        nm = [g.shown[1 - s] if g.swap else g.shown[s] for s in range(2)]
        M.check('N+' + nm[0] in ls and 'N-' + nm[1] in ls, 'match.csa_names', lambda: '%r; %s' % (ls[:4], desc))
        mv = [x.split(',')[0] for x in ls if re.match(r'[+-]\d{4}[A-Z]{2}', x)]
        g.r.start()
        want, cm = [], {}
        for p, u in enumerate(g.moves):
            d = {g.r.usi(x): x for x in g.r.legal()}
            want.append('+-'[p % 2] + csa_of(d[u]))
            g.r.apply(d[u])
        M.check(mv == want, 'match.csa_moves', lambda: '%r instead of %r; %s' % (mv[-4:], want[-4:], desc))
        end = [x for x in ls if x.startswith('%')]
        e = CSA_END.get(g.kind)
        if g.kind == 'perpetual':
            # the side to move at the end wins: its opponent, who just moved, broke the rule; otherwise the side to move did
            e = ('%+ILLEGAL_ACTION' if g.winner else '%-ILLEGAL_ACTION') if g.winner == g.pos_turn else '%ILLEGAL_MOVE'
        M.check(end == [e], 'match.csa_end', lambda: '%r instead of %r for %s; %s' % (end, e, g.kind, desc))
        # times and comments follow their move
        at = [k for k, x in enumerate(ls) if re.match(r'[+-]\d{4}[A-Z]{2}', x)]
        for p, k in enumerate(at):
            tail = ls[k + 1:at[p + 1] if p + 1 < len(at) else len(ls)]
            cms = [x[1:] for x in tail if x.startswith("'")]
            tms = [x for x in ls[k].split(',')[1:] + tail if x.startswith('T')]
            if p in g.spent:
                lo, hi = g.spent[p]
                M.check(len(tms) == 1 and re.match(r'T\d+$', tms[0]) and int(lo) <= int(tms[0][1:]) <= hi, 'match.csa_time', lambda: 'ply %d took between %.3f and %.3f s, the record says %r; %s' % (p, lo, hi, tms, desc))
                M.count('csa.time.%s' % ('1' if lo >= 1 else '0'))
            sc = g.score.get(p)
            if sc is None:
                M.check(not cms, 'match.csa_comment', lambda: 'ply %d has the comment %r; %s' % (p, cms, desc))
                continue
            v = sc[0].split()
            val = (int(v[1]) if v[0] == 'cp' else -100000 if v[1][0] == '-' else 100000) * (-1 if p % 2 else 1)
            g.r.set(START)
            exp = '** %d' % val
            for u in g.moves[:p]:
                d = {g.r.usi(x): x for x in g.r.legal()}
                g.r.apply(d[u])
            for q, u in enumerate(sc[1]):
                d = {g.r.usi(x): x for x in g.r.legal()}
                if q:
                    exp += ' ' + '+-'[(p + q) % 2] + csa_of(d[u])
                g.r.apply(d[u])
            M.check(cms == [exp], 'match.csa_comment', lambda: 'ply %d has the comment %r instead of %r; %s' % (p, cms, exp, desc))
            M.count('csa.comments')
        M.count('csa.games')


START = 'lnsgkgsnl/1r5b1/ppppppppp/9/9/9/PPPPPPPPP/1B5R1/LNSGKGSNL b - 1'
PGN_NAME = {'FU': 'P', 'KY': 'L', 'KE': 'N', 'GI': 'S', 'KI': 'G', 'KA': 'B', 'HI': 'R', 'OU': 'K', 'TO': '+P', 'NY': '+L', 'NK': '+N', 'NG': '+S', 'UM': '+B', 'RY': '+R'}
DEMOTE = {'TO': 'FU', 'NY': 'KY', 'NK': 'KE', 'NG': 'GI', 'UM': 'KA', 'RY': 'HI'}


def check_pgn(path, no_moves, played, desc):
    text = open(path).read()
    parts = re.split(r'(?=\[Event )', text)[1:]
    M.check(len(parts) == len(played), 'match.pgn', lambda: '%d games in the PGN file instead of %d; %s' % (len(parts), len(played), desc))
    for n, (g, t) in enumerate(zip(played, parts)):
        tags = dict(re.findall(r'\[(\w+) "(.*)"\]', t))
        nm = [g.shown[1 - s] if g.swap else g.shown[s] for s in range(2)]
        res = '1/2-1/2' if g.winner is None else '0-1' if g.winner else '1-0'
        M.check((tags.get('White'), tags.get('Black'), tags.get('Result'), tags.get('Round')) == (nm[0], nm[1], res, str(g.round)), 'match.pgn_tags', lambda: '%r instead of %r %r; %s' % (tags, nm, res, desc))
        M.check(set(tags) == {'Event', 'Site', 'Date', 'Round', 'White', 'Black', 'Result'} and re.match(r'\d{4}\.\d\d\.\d\d$', tags['Date']), 'match.pgn_tags', lambda: '%r; %s' % (tags, desc))
        toks = ' '.join(x for x in t.split('\n') if not x.startswith('[')).split()
        want = []
        if not no_moves:
            g.r.start()
            for p, u in enumerate(g.moves):
                if p % 2 == 0:
                    want.append('%d.' % (p // 2 + 1))
                d = {g.r.usi(x): x for x in g.r.legal()}
                pc = csa_of(d[u])[4:]
                if '*' in u:
                    want.append(u[0] + '@' + pgn_sq(u[2:4]))
                else:
                    if u.endswith('+'):
                        pc = DEMOTE[pc]
                    want.append(PGN_NAME[pc] + pgn_sq(u[:2]) + pgn_sq(u[2:4]) + ('+' if u.endswith('+') else ''))
                g.r.apply(d[u])
            want.append(res)
        M.check(toks == want, 'match.pgn_moves', lambda: '%r instead of %r; %s' % (toks[-5:], want[-5:], desc))
        M.check(all(len(x) <= 81 for x in t.split('\n') if not x.startswith('[')), 'match.pgn_width', lambda: 'a line of more than 81 characters; %s' % desc)
        M.count('pgn.games')


def rotation(i, r):
    """Several openings in random order: each pair of games has one, all are used in turn, and the seed decides the order."""
    ops = []
    while len(ops) < R.randrange(2, 5):
        r.start()
        o = []
        for _ in range(R.choice([0, 1, 2, 5])):
            m = r.pick(0)
            o.append(r.usi(m))
            r.apply(m)
        if o not in ops:
            ops.append(o)
    cut = R.choice([24, 24, 2])
    f = os.path.join(TMP, 'rot%d.txt' % i)
    with open(f, 'w') as fh:
        fh.write(''.join('startpos' + (' moves ' + ' '.join(o) if o else '') + '\n' for o in ops))
    ops = [o[:cut] for o in ops]
    games = R.randrange(2, 2 * len(ops) + 5)
    seed = R.randrange(1000)
    seqs = []
    for k in range(2):
        paths = [fake('r%d_%d_%d' % (i, k, e), {'mode': 'play', 'name': 'E%d' % e, 'plan': []}) for e in range(2)]
        desc = 'openings %r games=%d seed=%d cut=%d' % (ops, games, seed, cut)
        M.crumb(desc)
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                cli.main(paths[0], paths[1], games=games, byoyomi=1000, opening=f, opening_moves=cut, opening_seed=seed, print_summary=False, keep_process=R.random() < .5)
        except Exception as x:
            M.violation('match.exception', '%r: %s' % (x, desc))
            return
        evs = sorted((x for p in paths for x in log_of(p)), key=lambda x: x[0])
        seqs.append([x[2].split()[3:] for x in evs if x[1] == 'in' and x[2].startswith('position')])
        for p in paths:
            shutil.rmtree(os.path.dirname(p), ignore_errors=True)
    M.eval(games)
    a, n = seqs[0], len(ops)
    first = a[0:2 * n:2]
    left = list(ops)
    ok = len(a) == games and all(a[j] == a[j - 1] for j in range(1, games, 2)) and all(a[j] == a[j - 2 * n] for j in range(2 * n, games))
    for o in first:
        ok = ok and o in left
        if ok:
            left.remove(o)
    M.check(ok, 'match.openings_in_turn', lambda: '%s: started from %r' % (desc, a))
    M.check(seqs[0] == seqs[1], 'match.opening_seed', lambda: '%s: %r then %r' % (desc, *seqs))
    M.count('rotation')
    M.distinct(desc)


def league(i, r):
    """Three engines, from the command line: each pair plays two games a round, with the colours swapped."""
    rounds = R.choice([1, 1, 2, 3])
    games = 2 * rounds - R.randrange(2)
    byo = R.choice([None, (1000,), (1000, 2000, 3000)])
    tm = R.choice([None, (600000,), (600000, 300000, 500000)])
    inc = R.choice([None, (1000,), (1000, 2000, 3000)])
    opt = dict(draw=R.choice([7, 9, 20]), resign=R.choice([None, 1000]), mate_win=R.random() < .3, ponder=R.random() < .25, no_swap=False)
    keep = R.random() < .4
    real = ['One', 'Two', 'Three']
    names = R.choice([[None] * 3, ['A', None, 'C c']])
    shown = [n or x for n, x in zip(names, real)]
    each = lambda x: (None,) * 3 if x is None else x * 3 if len(x) == 1 else x
    openings = None
    if R.random() < .4:
        r.start()
        openings = [[]]
        for _ in range(R.randrange(4)):
            m = r.pick(0)
            openings[0] = openings[0] + [r.usi(m)]
            r.apply(m)
        f = os.path.join(TMP, 'lopen%d.txt' % i)
        with open(f, 'w') as fh:
            fh.write('startpos' + (' moves ' + ' '.join(openings[0]) if openings[0] else '') + '\n')
    plans, of = [], ([], [], [])
    for n in range(rounds):
        for a, b in ((0, 1), (0, 2), (1, 2)):
            two = []
            for k in range(2):
                o = dict(opt)
                for key, v in (('time', each(tm)), ('inc', each(inc))):
                    o[key] = (v[b], v[a]) if k else (v[a], v[b])
                for _ in range(20):
                    g = Planned(r, o, openings[0] if openings else [], ['resign', 'win', 'illegal', 'max', 'threshold', 'shuffle'])
                    if g.kind != 'ambiguous':
                        break
                else:
                    return
                g.finish_ponder()
                g.swap, g.shown, g.round = k == 1, (shown[a], shown[b]), k + 1
                two.append(g)
                for e, w in ((a, 0), (b, 1)):
                    of[e].append({p: v for p, v in g.say.items() if (int(p) % 2) ^ g.swap == w})
            plans.append((n, a, b, two))
    paths = [fake('l%d_%d' % (i, e), {'mode': 'play', 'name': real[e], 'plan': of[e]}) for e in range(3)]
    opts = [R.choice([{}, {'USI_Hash': '16'}, {'A': 1, 'B': 'x:y'}]) for _ in range(3)]
    kw = {}
    csa = os.path.join(TMP, 'lcsa%d' % i)
    pgn = os.path.join(TMP, 'l%d.pgn' % i)
    if R.random() < .6:
        os.makedirs(csa)
        kw.update(csa=os.path.join(csa, 'all.csa'), multi_csa=True)
    if R.random() < .6:
        kw.update(pgn=pgn, no_pgn_moves=R.random() < .2)
    if openings:
        kw.update(opening=f, opening_index=R.choice([None, 0]), opening_seed=R.choice([None, 5]))
    allg = [g for x in plans for g in x[3]]
    desc = 'league games=%d byoyomi=%s time=%s inc=%s %s keep=%s %s %s' % (games, byo, tm, inc, opt, keep, kw, [(g.kind, g.n) for g in allg])
    M.crumb(desc)
    try:
        text = guarded(lambda: command(paths, opts, names, games, byo, tm, inc, keep, False, False, opt, kw, desc))
    except Hung:
        M.violation('match.hang', 'the league never ends: ' + desc)
        M.finish()
        sys.stdout.flush()
        os.system('pkill -9 -f ' + TMP)
        shutil.rmtree(TMP, ignore_errors=True)
        os._exit(0)
    M.eval(len(allg))
    # printed
    want, score = [], {}
    for n, a, b, two in plans:
        t = score.setdefault((a, b), [0, 0, 0])
        for g in two:
            want.append('%s vs %s start.' % ((shown[b], shown[a]) if g.swap else (shown[a], shown[b])))
            t[2 if g.winner is None else g.winner ^ g.swap] += 1
        if (a, b) == (1, 2):
            want.append('%d of %d games finished.' % (2 * n + 2, games))
            for (x, y), (w, l, d) in score.items():
                want.append('%s vs %s: %d-%d-%d (%.1f%%)' % (shown[x], shown[y], w, l, d, (w + d / 2) / (w + l + d) * 100))
    got = [x for x in text.split('\n') if x and not x.startswith('まで')]
    M.check(got == want, 'league.printed', lambda: '%r instead of %r; %s' % ([x for x in got if x not in want][:3] or got[-4:], [x for x in want if x not in got][:3] or want[-4:], desc))
    # what every engine was sent, pair by pair
    lives = []
    for e in range(3):
        cut = [[]]
        for x in log_of(paths[e]):
            cut[-1].append(x)
            if x[1] == 'in' and x[2] == 'quit\n':
                cut.append([])
        lives.append([x for x in cut if x])
    used = [0, 0, 0]
    for n, a, b, two in plans:
        logs = []
        for e in (a, b):
            k = used[e]
            used[e] += 1 if keep else 2
            logs.append([x for y in lives[e][k:used[e]] for x in y])
        pick = lambda v: (each(v)[a], each(v)[b])
        check_logs(logs, two, opt, (opts[a], opts[b]), keep, pick(byo), pick(tm), pick(inc), desc)
    M.check(used == [len(x) for x in lives], 'league.games', lambda: 'engines were started %r times instead of %r; %s' % ([len(x) for x in lives], used, desc))
    if 'csa' in kw:
        check_csa(csa, True, allg, desc)
    if 'pgn' in kw:
        check_pgn(pgn, kw['no_pgn_moves'], allg, desc)
    M.count('league')
    M.count('league.rounds', rounds)
    M.distinct(desc)
    for p in paths:
        shutil.rmtree(os.path.dirname(p), ignore_errors=True)
    shutil.rmtree(csa, ignore_errors=True)


def league_openings(i, r):
    """Openings of a league: one a round, in turn, in an order the seed decides, or the one asked for."""
    ops = []
    while len(ops) < 3:
        r.start()
        o = []
        for _ in range(R.choice([1, 2, 5])):
            m = r.pick(0)
            o.append(r.usi(m))
            r.apply(m)
        if o not in ops:
            ops.append(o)
    f = os.path.join(TMP, 'lrot%d.txt' % i)
    with open(f, 'w') as fh:
        fh.write(''.join('startpos moves ' + ' '.join(o) + '\n' for o in ops))
    rounds = R.choice([3, 4])
    idx = R.choice([None, None, 1, 2])
    seqs = []
    for k in range(2):
        paths = [fake('lr%d_%d_%d' % (i, k, e), {'mode': 'play', 'name': 'E%d' % e, 'plan': []}) for e in range(3)]
        desc = 'league openings %r rounds=%d index=%r' % (ops, rounds, idx)
        M.crumb(desc)
        kw = dict(opening=f, opening_seed=7 + i, opening_index=idx)
        command(paths, [{}] * 3, [None] * 3, 2 * rounds, None, None, None, False, False, False, dict(draw=256, resign=None, mate_win=False, ponder=False, no_swap=False), kw, desc)
        evs = sorted((x for p in paths for x in log_of(p)), key=lambda x: x[0])
        seqs.append([x[2].split()[3:] for x in evs if x[1] == 'in' and x[2].startswith('position')])
        for p in paths:
            shutil.rmtree(os.path.dirname(p), ignore_errors=True)
        if idx is not None:
            break
    a = seqs[0]
    M.eval(len(a))
    per = [a[6 * n:6 * n + 6] for n in range(rounds)]
    ok = len(a) == 6 * rounds and all(x == y[0] for y in per for x in y)
    if ok and idx is not None:
        ok = all(y[0] == ops[idx] for y in per)
    elif ok:
        ok = sorted(y[0] for y in per[:3]) == sorted(ops) and per[3:] == per[:rounds - 3]
    M.check(ok, 'league.openings', lambda: '%s: started from %r' % (desc, a))
    M.check(seqs[0] == seqs[-1], 'league.opening_seed', lambda: '%s: %r then %r' % (desc, seqs[0][::6], seqs[-1][::6]))
    M.count('league.openings')


def leagues():
    r = Ref(M.seed * 89 + M.shard)
    for i in range(M.cases):
        league(i, r)
        if i % 4 == 0:
            league_openings(i, r)


def match():
    r = Ref(M.seed * 97 + M.shard)
    for i in range(M.cases):
        one_match(i, r)
        if i % 8 == 0:
            rotation(i, r)


# ---------------------------------------------------------------- web viewer
SIGN = ('▲', '△')
WEB_END = {'resign': '投了', 'mate': '投了', 'max': '持将棋', 'repetition': '千日手'}


def refs(r, moves):
    """Encoded moves of a game from the initial position."""
    r.start()
    out = []
    for u in moves:
        d = {r.usi(x): x for x in r.legal()}
        out.append(d[u])
        r.apply(d[u])
    return out


def pv_kif(r, done, pv, sign):
    """Text of a variation that starts after the moves done."""
    ms = refs(r, done)
    prev = ms[-1] if ms else None
    out = []
    for k, u in enumerate(pv):
        d = {r.usi(x): x for x in r.legal()}
        out.append(SIGN[(len(done) + k) % 2] + kif_move(d[u], prev if sign else None))
        prev = d[u]
        r.apply(d[u])
    return ' '.join(out)


def same(a, b):
    """The parts of a row, the 24 bits of the move that say what is played."""
    return {k: (v & 0xfffff if k == 'move' else v) for k, v in a.items() if k != 'time'} == {k: (v & 0xfffff if k == 'move' else v) for k, v in b.items() if k != 'time'}


def match_rows(r, g):
    """The rows of a planned game."""
    ms = refs(r, g.moves)
    want = []
    for p, m in enumerate(ms):
        sc = g.score[p]
        ev, pv = 'null', ''
        if sc:
            v = sc[0].split()
            ev = (int(v[1]) if v[0] == 'cp' else -100000 if v[1][0] == '-' else 100000) * (-1 if p % 2 else 1)
            pv = pv_kif(r, g.moves[:p], sc[1], True)
        want.append({'number': p + 1, 'kif_move': SIGN[p % 2] + kif_move(m, ms[p - 1] if p else None), 'time': 0, 'move': m, 'eval': ev, 'pv': pv})
    t, lost = g.n % 2, '先手' if g.winner else '後手'
    end = {'resign': SIGN[t] + '投了', 'mate': SIGN[t] + '投了', 'max': '持将棋', 'repetition': '千日手', 'declare': SIGN[t] + '入玉宣言', 'illegal': lost + 'の反則負け',
           'perpetual': ('後手' if g.winner else '先手') + 'の反則勝ち' if g.winner == g.pos_turn else lost + 'の反則負け'}[g.kind]
    want.append({'number': g.n + 1, 'kif_move': end, 'time': 0, 'move': 0, 'eval': 'null', 'pv': ''})
    return want


def web_match(i, r, app):
    inc, tm, byo = R.choice([None, 1000]), R.choice([None, 600000]), R.choice([None, 1000])
    opts = [R.choice([{}, {'USI_Hash': '16'}, {'A': 1, 'B': 'x:y'}]) for _ in range(2)]
    served = R.random() < .12          # the command, and its pages over HTTP
    opt = dict(draw=R.choice([256, 30, 9]), resign=None, mate_win=False, ponder=False, time=(None, None), inc=(None, None))
    ends = [R.choice(['resign', 'win', 'illegal', 'mate', 'perpetual', 'shuffle', 'max'])]
    if ends[0] in ('mate', 'perpetual', 'shuffle'):
        opt['draw'] = 256
    for _ in range(20):
        g = Planned(r, opt, [], ends)
        if g.kind != 'ambiguous':
            break
    else:
        return
    if g.kind == 'mate' and R.random() < .5:
        opt['draw'] = g.n               # mate with the last move allowed
        M.count('mate_at_limit')
    paths = [fake('w%d_%d' % (i, e), {'mode': 'play', 'name': ('FakeOne', 'FakeTwo')[e], 'plan': [{p: v for p, v in g.say.items() if int(p) % 2 == e}]}) for e in range(2)]
    names = R.choice([[None, None], ['A', None], ['A', 'B']])
    shown = [names[k] or ('FakeOne', 'FakeTwo')[k] for k in range(2)]
    names = list(names)
    rows = []
    csa = os.path.join(TMP, 'w%d.csa' % i) if R.random() < .6 else None
    desc = 'web match %s %d plies, time %r inc %r' % (g.kind, g.n, tm, inc)
    M.crumb(desc)
    try:
        if served:
            rows, names = guarded(lambda: serve(paths, opts, names, byo, tm, inc, opt['draw'], csa))
            M.count('web.served')
        else:
            guarded(lambda: app.match(rows, paths[0], paths[1], opts[0], opts[1], names, byo, tm, inc, opt['draw'], None, csa))
    except Hung:
        M.violation('web.hang', desc)
        raise SystemExit
    except Exception as x:
        M.violation('web.exception', '%r: %s' % (x, desc))
        return
    M.eval()
    M.check(names == shown, 'web.names', lambda: '%r instead of %r; %s' % (names, shown, desc))
    want = match_rows(r, g)
    ms = refs(r, g.moves)
    for k in range(max(len(rows), len(want))):
        a, b = (rows[k] if k < len(rows) else None), (want[k] if k < len(want) else None)
        if not M.check(a and b and same(a, b), 'web.row', lambda: 'row %d is %r instead of %r; %s' % (k, a, b, desc)):
            break
    M.count('web.match')
    M.count('web.end.' + g.kind)
    M.count('web.rows', len(rows))
    M.distinct((desc, ' '.join(g.moves)))
    clocks = {}
    for e in range(2):
        log = log_of(paths[e])
        sent = [x[2].strip() for x in log if x[1] == 'in' and x[2]]
        w = ['usi'] + ['setoption name %s value %s' % kv for kv in opts[e].items()] + ['isready', 'usinewgame']
        for p in sorted(map(int, g.say)):
            if p % 2 == e:
                w += ['position startpos' + (' moves ' + ' '.join(g.moves[:p]) if p else ''), 'go']
        w.append('quit')
        got = ['go' if x.startswith('go') else x for x in sent]
        M.check(got == w, 'web.position', lambda: 'engine %d was sent %r instead of %r; %s' % (e + 1, got[:6] + got[-3:], w[:6] + w[-3:], desc))
        for x in sent:
            if x.startswith('go'):
                M.check(times_in(x.split()).get('byoyomi') == byo, 'web.byoyomi', lambda: '%r with byoyomi %r; %s' % (x, byo, desc))
        clocks[e] = [x for x in log if x[1] == 'in' and x[2].split()[:1] in (['go'], ['usinewgame']) or x[1] == 'out' and x[2].startswith('bestmove')]
    g.swap, g.shown, g.round = False, shown, 1
    check_clocks(clocks, [g], (tm, tm), (inc, inc), desc)
    for p, (lo, hi) in g.spent.items():
        if p < len(rows) and p < len(g.moves):
            t = rows[p].get('time')
            M.check(math.ceil(lo) <= t and (hi == math.inf or t <= math.ceil(hi)), 'web.time', lambda: 'ply %d took between %.3f and %.3f s, its row says %r; %s' % (p, lo, hi, t, desc))
            M.count('web.time')
    if csa:
        check_csa_texts([open(csa).read()], [g], desc)
        M.count('web.csa')
    for p in paths:
        shutil.rmtree(os.path.dirname(p), ignore_errors=True)


def serve(paths, opts, names, byo, tm, inc, draw, csa):
    """The match behind the real server: rows and names as the page gets them."""
    with socket.socket() as x:
        x.bind(('127.0.0.1', 0))
        port = x.getsockname()[1]
    a = [sys.executable, '-m', 'cshogi.web.app', *paths, '--host', '127.0.0.1', '--port', str(port)]
    for k, o in enumerate(opts):
        if o:
            a += ['--options%d' % (k + 1), ','.join('%s:%s' % x for x in o.items())]
    for k, n in enumerate(names):
        if n:
            a += ['--name%d' % (k + 1), n]
    for k, v in (('byoyomi', byo), ('time', tm), ('inc', inc), ('draw', draw if draw != 256 else None), ('csa', csa)):
        if v is not None:
            a += ['--' + k, str(v)]
    p = subprocess.Popen(a, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, start_new_session=True, cwd=TMP,
                         env=dict(os.environ, PYTHONIOENCODING='utf-8', PYTHONPATH=os.pathsep.join(x for x in sys.path if x)))
    try:
        while True:
            if p.poll() is not None:
                raise RuntimeError('the server ended with %d' % p.returncode)
            with contextlib.suppress(OSError):
                d = json.loads(urllib.request.urlopen('http://127.0.0.1:%d/update' % port, timeout=20).read())
                if d['moves'] and d['moves'][-1]['move'] == 0:
                    break
            time.sleep(.05)
        page = urllib.request.urlopen('http://127.0.0.1:%d/' % port, timeout=20).read().decode()
        M.check(all(n in page for n in d['names']), 'web.served', lambda: 'the page lacks the names %r' % d['names'])
        t0 = time.monotonic()
        while csa and '\n%' not in open(csa).read() and time.monotonic() - t0 < 20:
            time.sleep(.02)        # the record is written out as the match process ends
        return d['moves'], d['names']
    finally:
        os.killpg(p.pid, signal.SIGKILL)
        p.wait()


REPLAY_ENDS = {'%TORYO': '投了', '%CHUDAN': '中断', '%SENNICHITE': '千日手', '%TIME_UP': '切れ負け', '%ILLEGAL_MOVE': '反則負け', '%JISHOGI': '持将棋'}


def replay_record(i, r, n, hoard=False):
    r.start()
    moves = []
    hoard = hoard or n > 80 and R.random() < .5       # take what can be taken, White's side mostly, and keep it
    for _ in range(n):
        m = r.pick(R.randrange(7))
        if hoard and m:
            legal = r.legal()
            take = [x for x in legal if fields(x)[4]]
            take = [x for x in take if fields(x)[4] in (1, 9)] or take
            quiet = [x for x in legal if fields(x)[0] is not None and not fields(x)[4]]
            if len(moves) % 2 != i % 2:
                pawns = [x for x in quiet if fields(x)[3] in (1, 9)]
                drops = [x for x in legal if fields(x)[0] is None and fields(x)[3] == 1]
                took = [x for x in take if fields(x)[4] in (1, 9)]
                k = R.random()
                m = R.choice((drops if k < .6 else []) or (took if k < .8 else []) or (pawns if k < .9 else []) or quiet or legal)
            else:
                m = R.choice(take or quiet or legal)
        if not m:
            break
        moves.append(r.usi(m))
        r.apply(m)
    ms = refs(r, moves)
    L = ['V2.2', 'N+Left', 'N-Right', 'PI', '+']
    want = []
    for p, m in enumerate(ms):
        t = R.randrange(100)
        L.append('+-'[p % 2] + csa_of(m))
        L.append('T%d' % t)
        ev, pv = 'null', ''
        if R.random() < (.5 if n < 80 else .03):
            ev = R.randrange(-3000, 3000)
            refs(r, moves[:p + 1])
            tail = []
            for _ in range(R.choice([0, 1, 3])):
                q = r.pick(0)
                if not q:
                    break
                tail.append(r.usi(q))
                r.apply(q)
            pv = pv_kif(r, moves[:p + 1], tail, False)
            tx = []
            for k, q in enumerate(refs(r, moves[:p + 1] + tail)[p + 1:]):
                tx.append('+-'[(p + 1 + k) % 2] + csa_of(q))
            if tx and R.random() < .15:
                # a line that cannot be played is shown as it is written
                tx.append(R.choice(['+', '-']) + R.choice(['5555OU', '1111FU', '9999UM', '3333TO']))
                pv = ' '.join(tx)
                M.count('replay.odd_line')
            L.append(' '.join(["'** %d" % ev] + tx))
        want.append({'number': p + 1, 'kif_move': SIGN[p % 2] + kif_move(m, ms[p - 1] if p else None), 'time': t, 'move': m, 'eval': ev, 'pv': pv})
    end = R.choice(list(REPLAY_ENDS) + ['%+ILLEGAL_ACTION', '%HIKIWAKE', '%KACHI', None])
    if end:
        L.append(end)
    want.append({'number': len(ms) + 1, 'kif_move': None, 'time': 0, 'move': 0, 'eval': 'null', 'pv': ''})
    if end in REPLAY_ENDS:
        want[-1]['kif_move'] = SIGN[len(ms) % 2] + REPLAY_ENDS[end]
    path = os.path.join(TMP, 'r%d.csa' % i)
    with open(path, 'w') as f:
        f.write('\n'.join(L) + '\n')
    desc = '\n'.join(L)[-600:]
    return path, want, desc, end


def web_replay(i, r, app):
    path, want, desc, end = replay_record(i, r, R.choice([0, 1, 5, 40]))
    M.crumb(desc)
    page = []

    class Server:
        def serve_forever(self):
            page.append(self.app.test_client().get('/').get_data(as_text=True))

    def make_server(host, port, a):
        s = Server()
        s.app = a
        return s
    app.make_server = make_server
    try:
        app.run(csa=path)
    except Exception as x:
        M.violation('web.replay_exception', '%r: %s' % (x, desc))
        return
    M.eval()
    got = []
    for x in re.findall(r'\{number:(\d+),kif_move:"(.*?)",time:(\d+),move:(\d+),eval:(.*?),pv:"(.*?)"\}', page[0]):
        got.append({'number': int(x[0]), 'kif_move': x[1], 'time': int(x[2]), 'move': int(x[3]), 'eval': x[4] if x[4] == 'null' else int(x[4]), 'pv': x[5]})
    if end not in REPLAY_ENDS and got:
        want[-1]['kif_move'] = got[-1]['kif_move']
    ok = len(got) == len(want) and all(same(a, b) and a['time'] == b['time'] for a, b in zip(got, want))
    M.check(ok, 'web.replay', lambda: '%r instead of %r for %s' % ([a for a, b in zip(got, want) if a != b][:1], [b for a, b in zip(got, want) if a != b][:1], desc))
    M.check('let names = ["Left", "Right"]' in page[0], 'web.replay_names', desc)
    M.count('web.replay')
    M.count('web.replay.rows', len(got))
    M.distinct(desc)


def web():
    from cshogi.web import app
    r = Ref(M.seed * 97 + M.shard)
    for i in range(M.cases):
        if i % 4 == 0:
            web_match(i, r, app)
        else:
            web_replay(i, r, app)


# ---------------------------------------------------------------- the page of the viewer
def node(page, script):
    """Run the page in a stand-in for the browser (page.js)."""
    from cshogi.web import app
    with open(os.path.join(os.path.dirname(app.__file__), 'static', 'board.js'), encoding='utf-8') as f:
        js = f.read()
    p = subprocess.run(['node', os.path.join(HERE, 'page.js')], input=json.dumps({'page': page, 'board_js': js, 'script': script}), capture_output=True, text=True, timeout=120)
    if p.returncode:
        raise RuntimeError('the page fails: ' + p.stderr[-600:])
    return json.loads(p.stdout)


def cells(html):
    return [re.sub(r'<[^>]*>', '', x) for x in re.findall(r'<td[^>]*>(.*?)</td>', html)]


def page_shows(r, got, want, n, desc):
    """What the page shows with row n selected; want: the rows of the game."""
    k = n - 1 if n and n == len(want) and want[-1]['move'] == 0 else n
    refs(r, [])
    for m in want[:k]:
        r.apply(m['move'])
    bd, hand, _ = ref_board_of(r.sfen())
    where = lambda: 'row %d of %s' % (n, desc)
    try:
        sb, sh, marks = read_svg(got['svg'], page=True)
    except Exception as x:
        M.violation('page.svg', '%r: %s' % (x, where()))
        return
    M.check((sb, sh) == (bd, hand), 'page.board', lambda: 'the board of %s shows %r %r' % (where(), [(usi_sq(q), a, b) for q, (a, b) in enumerate(zip(sb, bd)) if a != b], (sh, hand)))
    wm = []
    if k:
        fr, to = fields(want[k - 1]['move'])[:2]
        wm = [to] + ([fr] if fr is not None else [])
    M.check([x[1] for x in marks] == wm, 'page.marks', lambda: '%s marks %r instead of %r' % (where(), marks, wm))
    rows = [cells(x) for x in got['rows']]
    w = [[str(x['number']), x['kif_move'], '%d秒' % x['time']] for x in want]
    M.check(rows == w, 'page.rows', lambda: '%s lists %r instead of %r' % (where(), [a for a, b in zip(rows, w) if a != b][:1], [b for a, b in zip(rows, w) if a != b][:1]))
    for c in range(2):
        j = k - 1 if (k - 1) % 2 == c else k - 2     # the last move of that side
        x = want[j] if j >= 0 else None
        cw = ['' if x is None or x['eval'] == 'null' else str(x['eval']), '' if x is None else x['pv']]
        M.check(cells(got[('black', 'white')[c]]) == cw, 'page.comment', lambda: '%s tells %r instead of %r of side %d' % (where(), got[('black', 'white')[c]], cw, c))
    M.count('page.shown')
    M.maxi('page.hand', max(map(sum, hand)))
    M.maxi('page.pawns', max(h[0] for h in hand))
    if max(h[0] for h in hand) > 10:
        M.count('page.eleven')


def served(app, fn, **kw):
    """app.run with fn(client) in place of the server."""
    class Server:
        def serve_forever(self):
            fn(self.app.test_client())

    def make_server(host, port, a):
        s = Server()
        s.app = a
        return s
    app.make_server = make_server
    app.run(**kw)


def page_replay(i, r, app):
    path, want, desc = replay_record(i, r, *((400, True) if i == 1 else (R.choice([0, 3, 40, 90, 320]),)))[:3]
    page = []
    M.crumb(desc)
    try:
        served(app, lambda c: page.append(c.get('/').get_data(as_text=True)), csa=path)
        last = re.findall(r'kif_move:"(.*?)"', page[0])
        want[-1]['kif_move'] = want[-1]['kif_move'] or (last and last[-1])
        script, number, at = [['drop']], 0, [0]
        N = len(want)
        for _ in range(R.randrange(4, 25)):
            k = R.randrange(8)
            if k == 0:
                script.append(['click', '#btn-first'])
                number = 0
            elif k == 1:
                script.append(['click', '#btn-last'])
                number = N
            elif k == 2 and number:
                script.append(['click', '#btn-back'])
                number -= 1
            elif k in (2, 3, 4):
                if number == N and R.random() < .7:
                    continue
                script.append(['click', '#btn-next'])
                number = min(number + 1, N)
            elif k == 5:
                number = R.randrange(N + 1)
                script.append(['number', str(number)])
            else:
                number = R.randrange(N) + 1
                script.append(['row', number - 1])
            at.append(number)
        seen, have = set(), [0, 0]
        for row in want:                    # and the rows after which a side first holds nine pawns or more
            f = fields(row['move']) if row['move'] else None
            if f:
                c = row['number'] % 2 ^ 1
                have[c] += (f[4] in (1, 9)) - (f[0] is None and f[3] == 1)
                if have[c] > 8 and have[c] not in seen:
                    seen.add(have[c])
                    script.append(['number', str(row['number'])])
                    at.append(row['number'])
        out = node(page[0], script)
    except Exception as x:
        M.violation('page.exception', '%r: %s' % (x, desc))
        return
    M.eval(len(out))
    for o, n in zip(out, at):
        page_shows(r, o['shown'], want, n, desc)
    M.check(cells('<td>' + out[0]['shown']['names'] + '</td>') == ['▲Left △Right'], 'page.names', lambda: '%r' % out[0]['shown']['names'])
    M.count('page.replay')
    M.distinct(desc)
    if i < 3:
        M.sample('replay: ' + ' '.join(desc.split('\n')[:60])[:300] + ' / script ' + json.dumps(script)[:200])


def page_clicks(r, page, moves, turn, desc):
    """Moves made with the mouse on the page reach the server as what they are."""
    refs(r, moves)
    legal = {r.usi(m): m for m in r.legal()}
    script, want = [], []
    pick = R.sample(sorted(legal), min(12, len(legal)))
    pro = [u for u in legal if u.endswith('+')]
    pick += R.sample(pro, min(4, len(pro)))
    for u in pick:
        base = u[:4]
        both, forced = base in legal and base + '+' in legal, base not in legal
        src = ('black', 'white')[turn] + '-' + u[0] if u[1] == '*' else u[:2]
        shift = both and u.endswith('+') and R.random() < .5
        script += [['drop'], ['mouse', src, False], ['mouse', u[2:4], shift]]
        want += [None, None, (u, 1 if both and not shift else 0)]
        if both and not shift:
            script.append(['answer', u.endswith('+')])
            want.append((u, 0))
    # a piece of the other side is no start of a move
    bd = ref_board_of(r.sfen())[0]
    other = [q for q in range(81) if bd[q] and (bd[q] > 16) != bool(turn)]
    own = [q for q in range(81) if bd[q] and (bd[q] > 16) == bool(turn)]
    q = R.choice(other)
    script += [['drop'], ['mouse', usi_sq(q), False], ['mouse', usi_sq(R.choice(other)), False]]
    want += [None, None, ('', 0)]
    out = node(page, script)
    for o, w in zip(out, want):
        if w is None:
            continue
        u, conf = w
        exp = [['/move', str(len(moves) + 1), u]] if u and not conf else []
        got = [[a, str(d.get('number')), d.get('move')] for a, d in o['ajax']]
        M.eval()
        M.check(got == exp and o['confirms'] == conf, 'page.click', lambda: '%r (asks %d) instead of %r (asks %d) for %s after %s' % (got, o['confirms'], exp, conf, u, ' '.join(moves)))
        M.count('page.click')
        if u.endswith('+'):
            M.count('page.click.asks' if conf else 'page.click.promotes')


class Lively:
    """A game full of captures and promotions that ends at its move limit."""

    def __init__(self, r, n):
        self.moves, self.say, self.score, self.kind, self.winner, self.n = [], {}, {}, 'max', None, n
        while True:
            r.start()
            self.moves, seen = [], {}
            while len(self.moves) < n:
                k = poskey(r.sfen())
                seen[k] = seen.get(k, 0) + 1
                legal = r.legal()
                if not legal or seen[k] > 3:
                    break
                hot = [m for m in legal if fields(m)[2] or fields(m)[4] or fields(m)[0] is None]
                m = R.choice(hot if hot and R.random() < .4 else legal)
                self.say[str(len(self.moves))] = [['bestmove ' + r.usi(m)], 0]
                self.score[len(self.moves)] = None
                self.moves.append(r.usi(m))
                r.apply(m)
            if len(self.moves) == n and r.legal():
                break
        self.pos_turn = n % 2


def almost_legal(ms, legal):
    """Moves a piece can make but the rules forbid: the king left in check, a second pawn on a file."""
    import cshogi
    b = cshogi.Board()
    for m in ms:
        b.push_usi(m)
    out = set(cshogi.move_to_usi(m) for m in b.pseudo_legal_moves)
    if b.pieces_in_hand[b.turn][0]:
        out |= set('P*' + cshogi.SQUARE_NAMES[s] for s in range(81) if b.piece(s) == 0 and R.random() < .1)
    return sorted(out - set(legal))


def page_human(i, r, app):
    """A game with a human side, played through the requests of the page."""
    sides = R.choice([(1, 1), (1, 0), (0, 1)])
    opt = dict(draw=R.choice([256, 30, 9, 4]), resign=None, mate_win=False, ponder=False, time=(None, None), inc=(None, None))
    for _ in range(50):
        g = Planned(r, opt, [], R.choice([['mate', 'shuffle', 'resign', 'perpetual'], ['max']]))
        if g.kind in ('mate', 'max', 'repetition', 'perpetual') or (g.kind == 'resign' and not sides[g.n % 2]):
            if g.n < 100:
                break
    else:
        return
    if R.random() < .5:
        g = Lively(r, R.choice([50, 80, 120]))
        opt['draw'] = g.n
    names = [R.choice([None, 'Taro']) if h else None for h in sides]
    shown = [names[k] or ('Human' if sides[k] else ('FakeOne', 'FakeTwo')[k]) for k in range(2)]
    eng = ['human' if sides[e] else fake('h%d_%d' % (i, e), {'mode': 'play', 'name': ('FakeOne', 'FakeTwo')[e], 'plan': [{p: v for p, v in g.say.items() if int(p) % 2 == e}]}) for e in range(2)]
    for p in range(g.n + 1):
        if sides[p % 2]:
            g.score[p] = None
    want = match_rows(r, g)
    desc = 'human %r %s %d plies: %s' % (sides, g.kind, g.n, ' '.join(g.moves))
    M.crumb(desc[:300])
    ms = g.moves
    bad = []

    def color(p):
        return ('black', 'white')[p % 2] if p < g.n and sides[p % 2] else ''

    def wait(c, n):
        t = time.time()
        while True:
            d = c.get('/update').get_json()
            if len(d['moves']) >= n or time.time() - t > LIMIT:
                return d
            real_sleep(.01)

    def agree(d, n):
        for k in range(max(n, len(d['moves']))):
            a, b = (d['moves'][k] if k < len(d['moves']) else None), (want[k] if k < len(want) else None)
            if not M.check(a and b and same(a, b), 'page.game_row', lambda: 'row %d is %r instead of %r; %s' % (k, a, b, desc)):
                bad.append(1)
                return

    def play(c):
        p = 0
        while p < g.n and not bad:
            if not sides[p % 2]:
                p += 1
                continue
            d = wait(c, p)
            agree(d, p)
            M.eval()
            M.check(d['human'] == color(p), 'page.human', lambda: '/update tells %r after %d plies; %s' % (d['human'], p, desc))
            if R.random() < (.15 if g.n < 30 else .04):
                page = c.get('/').get_data(as_text=True)
                page_clicks(r, page, ms[:p], p % 2, desc)
                M.count('page.clicked')
            refs(r, ms[:p])
            legal = [r.usi(m) for m in r.legal()]
            almost = almost_legal(ms[:p], legal)
            for _ in range(R.choice([0, 0, 0, 1, 2]) or (R.random() < .6 and bool(almost))):      # what must not be played
                k = R.randrange(4) if not almost or R.random() < .3 else 4
                if k == 0:
                    q = {'number': p + 1, 'move': R.choice(['1a1a', '5i5a', 'P*5a', '7g7f+', 'K*5e', 'zz', '', '9i9a+'])}
                    if q['move'] in legal:
                        continue
                elif k == 1:
                    q = {'number': p, 'move': R.choice(legal)}
                elif k == 2:
                    q = {'number': 0, 'move': R.choice(legal)}
                elif k == 4:
                    q = {'number': p + 1, 'move': R.choice(almost)}
                    M.count('page.almost_legal')
                else:
                    q = {'number': p + 3, 'move': 'resign'}
                d = c.get('/move', query_string=q).get_json()
                M.check(len(d['moves']) == p, 'page.refused', lambda: '%r was played after %d plies; %s' % (q, p, desc))
                M.count('page.refused')
            d = c.get('/move', query_string={'number': p + 1, 'move': ms[p]}).get_json()
            n = len(d['moves'])
            if n > p:
                M.check(n == g.n or d['human'] == color(n), 'page.human', lambda: '/move tells %r with %d rows; %s' % (d['human'], n, desc))
                M.check(d['names'] == shown, 'page.names', lambda: '%r instead of %r' % (d['names'], shown))
            p += 1
            d = wait(c, p)
            if len(d['moves']) < p:
                M.violation('page.hang', 'the move %s of ply %d was not played; %s' % (ms[p - 1], p, desc))
                bad.append(1)
        if not bad:
            d = wait(c, len(want))
            agree(d, len(want))
            M.check(d['human'] == '', 'page.human', lambda: '/update tells %r after the end; %s' % (d['human'], desc))
            page = c.get('/').get_data(as_text=True)
            out = node(page, [['drop'], ['number', str(R.randrange(len(want) + 1))]])
            rows = [dict(a, time=b['time']) for a, b in zip(want, d['moves'])]
            page_shows(r, out[0]['shown'], rows, len(want), desc)
            page_shows(r, out[1]['shown'], rows, int(out[1]['shown']['number']), desc)

    real_sleep = time.sleep
    time.sleep = lambda s: real_sleep(s * .15)
    try:
        guarded(lambda: served(app, play, engine1=eng[0], engine2=eng[1], name1=names[0], name2=names[1], draw=opt['draw']))
    except Hung:
        M.violation('page.hang', desc)
        raise SystemExit
    except Exception as x:
        M.violation('page.exception', '%r: %s' % (x, desc))
    finally:
        time.sleep = real_sleep
        for ch in multiprocessing.active_children():
            ch.terminate()
            ch.join(5)
    for e in range(2):
        if not sides[e]:
            shutil.rmtree(os.path.dirname(eng[e]), ignore_errors=True)
    M.count('page.human.' + g.kind)
    M.distinct(desc)


def page():
    from cshogi.web import app
    r = Ref(M.seed * 97 + M.shard)
    for i in range(M.cases):
        if i % 4 == 0:
            page_human(i, r, app)
        else:
            page_replay(i, r, app)


# ---------------------------------------------------------------- Elo
def elo():
    z = statistics.NormalDist().inv_cdf(.975)
    for i in range(M.cases):
        w, l, d = (R.choice([0, 1, 2, R.randrange(30), R.randrange(2000)]) for _ in range(3))
        n = w + l + d
        if n == 0:
            continue
        M.eval()
        s = (w + d / 2) / n
        sd = math.sqrt((w * (1 - s) ** 2 + l * s ** 2 + d * (.5 - s) ** 2) / n) / math.sqrt(n)
        e = Elo(w, l, d)
        near = lambda a, b, tol=1e-6: abs(a - b) <= tol * max(1, abs(b))
        M.check(near(e.point_ratio(), s) and near(e.draw_ratio(), d / n), 'elo.ratio', lambda: '%r' % ((w, l, d, e.point_ratio(), e.draw_ratio()),))
        if 0 < s < 1:
            M.check(near(e.diff(), 400 * math.log10(s / (1 - s))), 'elo.diff', lambda: '%r' % ((w, l, d, e.diff()),))
            M.count('diff')
            M.check(near(Elo(l, w, d).diff(), -e.diff()), 'elo.symmetric', lambda: '%r' % ((w, l, d),))
        if w + l:
            M.check(near(e.los(), 100 * statistics.NormalDist().cdf((w - l) / math.sqrt(w + l))), 'elo.los', lambda: '%r' % ((w, l, d, e.los()),))
            M.count('los')
        lo, hi = s - z * sd, s + z * sd
        if .01 < lo and hi < .99 and sd > 0:
            want = (400 * math.log10(hi / (1 - hi)) - 400 * math.log10(lo / (1 - lo))) / 2
            M.check(abs(e.error_margin() - want) <= .02 * want + .01, 'elo.margin', lambda: '%r: %r instead of %r' % ((w, l, d), e.error_margin(), want))
            M.count('margin')
        M.distinct((w, l, d))


if __name__ == '__main__':
    try:
        {'engine': engine, 'info': info, 'match': match, 'league': leagues, 'elo': elo, 'web': web, 'page': page}[M.mode]()
    finally:
        shutil.rmtree(TMP, ignore_errors=True)
    M.finish()
