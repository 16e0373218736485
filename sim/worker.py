"""One simulated process: executes scenarios of one property and reports.

Protocol (two pipes given by number): one JSON command per line in, lines
'S <tag>' and 'R <json>' out.  Everything a scenario does is a function of the
scenario (and, if the code under test keeps state, of the scenarios this
process executed before it)."""
import importlib
import json
import os
import random
import shutil
import sys
import tempfile
import time
import traceback


class Env:
    """What a property's execute() may use."""

    def __init__(self, variant, scratch):
        self.variant = variant
        self.root = scratch
        self.n = 0
        self.recorded = {}

    def scratch(self):
        self.n += 1
        d = os.path.join(self.root, 'r%06d' % self.n)
        os.mkdir(d)
        return d


def load(prop_id):
    return importlib.import_module('sim.props.' + prop_id.lower()).PROP


def scenario(prop, seed, i, tier):
    rng = random.Random('%s/%s/%d' % (seed, prop.id, i))
    return prop.gen(rng, i, tier)


def main():
    prop_id, variant, rt_dir, ext, scratch, fin, fout = sys.argv[1:8]
    inp = os.fdopen(int(fin), 'r')
    out = os.fdopen(int(fout), 'w')
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    from sim import boot
    prop = load(prop_id)
    if prop.threads:
        from sim import pysched
        pysched.install()
    boot.boot(variant, rt_dir, ext)
    env = Env(variant, tempfile.mkdtemp(prefix='w', dir=scratch))
    os.chdir(env.root)
    prop.setup(env)

    def say(s):
        out.write(s + '\n')
        out.flush()

    say('READY')

    def one(tag, scn, record=False):
        say('S %s' % tag)
        t = time.perf_counter()
        env.recorded = {}
        try:
            r = prop.execute(scn, env)
        except BaseException:
            r = {'harness_error': traceback.format_exc()[-3000:]}
        for n in os.listdir(env.root):
            shutil.rmtree(os.path.join(env.root, n), ignore_errors=True)
        r['t'] = time.perf_counter() - t
        r['tag'] = tag
        if record:
            r['recorded'] = env.recorded
        say('R ' + json.dumps(r))

    for line in inp:
        c = json.loads(line)
        if c['op'] == 'runs':
            for i in c['idx']:
                one(i, scenario(prop, c['seed'], i, c['tier']))
            say('DONE')
        elif c['op'] == 'scns':
            for k, s in enumerate(c['scns']):
                one('s%d' % k, s, record=c.get('record', False) and k == len(c['scns']) - 1)
            say('DONE')
        elif c['op'] == 'quit':
            break
    shutil.rmtree(env.root, ignore_errors=True)
    out.flush()
    os._exit(0)


if __name__ == '__main__':
    main()
