"""A scripted USI engine.  config.json (in its directory) says what to answer; log.jsonl records every line received with the time.

mode 'script': the k-th command received is answered with replies[k].
mode 'play':   plays the game planned for it: plan[game][number of moves in the position] = [output lines, delay].
"""
import json
import os
import sys
import time

cfg = json.load(open('config.json'))
out = sys.stdout.buffer
log = open('log.jsonl', 'a')


def note(*a):
    log.write(json.dumps([time.monotonic(), *a]) + '\n')
    log.flush()


def script():
    replies = cfg['replies']
    k = 0
    while True:
        line = sys.stdin.buffer.readline()
        note('in', line.decode('latin1'))
        if line == b'':
            return
        r = replies[k] if k < len(replies) else {}
        k += 1
        if r.get('err'):
            sys.stderr.write('e' * r['err'])
            sys.stderr.flush()
        for chunk, delay in r.get('out', []):
            out.write(chunk.encode('latin1'))
            out.flush()
            if delay:
                time.sleep(delay)
        if r.get('die') is not None:
            os._exit(r['die'])
        if r.get('close'):
            out.flush()
            os.close(1)
        if line.strip() == b'quit':
            return


def say(line):
    note('out', line)
    out.write(line.encode() + b'\n')
    out.flush()


def play():
    n = -1
    if os.path.exists('game'):
        n = int(open('game').read())
    moves = []
    pondering = None
    while True:
        line = sys.stdin.readline()
        note('in', line)
        t = line.split()
        if not t:
            if line == '':
                return
            continue
        if t[0] == 'usi':
            say('id name ' + cfg['name'])
            say('id author nobody')
            say('option name X type string default <empty>')
            say('usiok')
        elif t[0] == 'isready':
            say('info string loading')
            say('readyok')
        elif t[0] == 'usinewgame':
            n += 1
            with open('game', 'w') as f:
                f.write(str(n))
        elif t[0] == 'position':
            moves = t[3:] if len(t) > 2 and t[2] == 'moves' else []
        elif t[0] == 'go' or t[0] == 'ponderhit':
            if 'ponder' in t:
                pondering = True
                say('info string pondering')
                continue
            if t[0] == 'ponderhit' and not pondering:
                note('odd', line)
                continue
            pondering = None
            p = cfg['plan'][n].get(str(len(moves))) if 0 <= n < len(cfg['plan']) else None
            if p is None:
                note('unplanned', len(moves))
                say('bestmove resign')
                continue
            if p[1]:
                time.sleep(p[1])
            for x in p[0]:
                say(x)
        elif t[0] == 'stop':
            if pondering:
                pondering = None
                say('info score cp -99999 pv 5i5h')
                say('bestmove resign')
        elif t[0] == 'quit':
            return


{'script': script, 'play': play}[cfg['mode']]()
