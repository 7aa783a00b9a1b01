#!/usr/bin/env python3
"""Runs the quick check of each planted bug's property on a copy of /repo with the bug applied (development aid;
no check uses it). Each worker has its own copies of /repo and /verif, bound over the real ones in a mount
namespace of its own, so that neither is touched and several run at once.

usage: tools/planted.py [--tier thorough] [--jobs N] [--dir DIR] [ID...]   (every bug without IDs)"""
import argparse, json, os, queue, shutil, subprocess, tempfile, threading, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(*c, **k):
    return subprocess.run(c, text=True, capture_output=True, **k)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('--tier', default='quick')
    ap.add_argument('--jobs', type=int, default=2)
    ap.add_argument('--dir', default=os.path.join(V, 'seeded'))
    ap.add_argument('--prop', help='run this check instead of the one of the bug (edits that change nothing)')
    ap.add_argument('ids', nargs='*')
    args = ap.parse_args()
    base = tempfile.mkdtemp(prefix='planted-', dir='/tmp')
    todo, missed, lock = queue.Queue(), [], threading.Lock()
    for i in args.ids or sorted(os.listdir(args.dir)):
        todo.put(i)

    def worker(k):
        d = f'{base}/{k}'
        os.makedirs(d)
        sh('rsync', '-a', '--exclude', 'target', '/repo/', f'{d}/repo/') if shutil.which('rsync') else \
            shutil.copytree('/repo', f'{d}/repo', symlinks=True, ignore=shutil.ignore_patterns('target'))
        shutil.copytree(V, f'{d}/verif', symlinks=True,
                        ignore=lambda p, n: [x for x in n if p == V and x in ('seeded', '.git')
                                             or p == f'{V}/build' and x in ('tmp', 'replays')])
        while True:
            try:
                i = todo.get_nowait()
            except queue.Empty:
                return
            meta = json.load(open(f'{args.dir}/{i}/meta.json'))
            prop = args.prop or meta['property']
            a = sh('git', '-C', f'{d}/repo', 'apply', f'{args.dir}/{i}/patch.diff')
            assert a.returncode == 0, a.stderr
            t = time.time()
            r = sh('unshare', '-Urm', 'sh', '-c',
                   f'mount --bind {d}/repo /repo && mount --bind {d}/verif /verif && cd /verif && exec python3 check.py {prop} {args.tier}',
                   env=dict(os.environ, VERIF_SEED='1', VERIF_TIER=args.tier))
            t = time.time() - t
            sh('git', '-C', f'{d}/repo', 'checkout', '--', '.')
            line = [x for x in r.stdout.split('\n') if x.startswith(f'VIOLATION property={prop} ')]
            ok = r.returncode == 1 and line
            with lock:
                if not ok:
                    missed.append(i)
                what = [x for x in r.stdout.split('\n') if 'differences; smallest' in x]
                print('CAUGHT' if ok else 'MISSED', i, prop, r.returncode, f'{t:.0f}s', (what or [''])[0][:140], flush=True)
                if r.returncode not in (0, 1):
                    print(r.stdout[-1500:], r.stderr[-1500:])

    threads = [threading.Thread(target=worker, args=(k,)) for k in range(args.jobs)]
    [t.start() for t in threads]
    [t.join() for t in threads]
    shutil.rmtree(base)
    print('missed:', missed)


main()
