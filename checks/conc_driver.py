"""Runs driver.py as a program; its document is opened for writing when the other processes come to the same point (C21).

argv: src gate-directory my-number processes -- driver arguments
"""
import os
import random
import runpy
import sys
import time

src, gate, me, total = sys.argv[1], sys.argv[2], sys.argv[3], int(sys.argv[4])
sys.argv = [os.path.join(src, 'driver.py')] + sys.argv[6:]
sys.dont_write_bytecode = True
sys.path[0] = src
rng, state = random.Random(int(me) * 7919 + total), {'busy': False, 'met': False}


def audit(event, args):
    if state['busy']:
        return
    state['busy'] = True
    try:
        if event == 'open' and isinstance(args[0], str) and (args[2] or 0) & (os.O_WRONLY | os.O_RDWR) and not state['met'] \
                and not args[0].endswith(('.txt', '.json')) and not args[0].startswith('/dev'):
            state['met'] = True
            os.mkdir(os.path.join(gate, me))
            end = time.time() + 20
            while len(os.listdir(gate)) < total and time.time() < end:
                time.sleep(.0005)
        elif state['met'] and event in ('open', 'os.rename', 'os.remove', 'os.truncate', 'os.mkdir', 'os.link'):
            time.sleep(rng.random() * .003)
    finally:
        state['busy'] = False


def slow(frame, event, arg):
    if state['met'] and event == 'c_call' and getattr(arg, '__name__', '') in ('write', 'close', '__exit__', 'writelines', 'flush'):
        time.sleep(rng.random() * .003)


sys.addaudithook(audit)
sys.setprofile(slow)
try:
    runpy.run_path(sys.argv[0], run_name='__main__')
finally:
    sys.setprofile(None)
    state['busy'] = True
    if not state['met']:
        os.mkdir(os.path.join(gate, me))
