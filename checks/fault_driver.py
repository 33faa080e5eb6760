"""Runs driver.py as a program which gets a signal at a chosen point of its work (C22).

argv: src point signal count-file -- driver arguments. Points: a number n (the n-th call of a function of the generators), 'open'
(when the document is opened for writing), 'write' (the first write or close after that), 'rename', 'none' (count the calls).
"""
import os
import runpy
import signal
import sys

src, point, sig, out = sys.argv[1:5]
sys.argv = [os.path.join(src, 'driver.py')] + sys.argv[6:]
sys.dont_write_bytecode = True
sys.path[0] = src
st = {'calls': 0, 'opened': False, 'done': False}
sig = getattr(signal, sig)
nth = int(point) if point.isdigit() else -1


def hit():
    st['done'] = True
    signal.raise_signal(sig)


def audit(event, args):
    if st['done']:
        return
    if event == 'open' and isinstance(args[0], str) and (args[2] or 0) & (os.O_WRONLY | os.O_RDWR) \
            and not args[0].endswith(('.txt', '.json')) and not args[0].startswith('/dev'):
        st['opened'] = True
        if point == 'open':
            hit()
    elif event == 'os.rename' and point == 'rename':
        hit()


def watch(frame, event, arg):
    if st['done']:
        return
    if event == 'call' and frame.f_code.co_filename.startswith(src) and frame.f_code.co_name != '<module>':
        st['calls'] += 1
        if st['calls'] == nth:
            hit()
    elif event == 'c_call' and st['opened'] and point == 'write' and \
            getattr(arg, '__name__', '') in ('write', 'close', '__exit__', 'writelines', 'flush', 'replace', 'rename'):
        hit()


sys.addaudithook(audit)
sys.setprofile(watch)
try:
    runpy.run_path(sys.argv[0], run_name='__main__')
finally:
    sys.setprofile(None)
    st['done'] = True
    if out != '-':
        with open(out, 'w') as f:
            f.write(str(st['calls']))
