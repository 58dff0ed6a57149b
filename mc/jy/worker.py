# -*- coding: utf-8 -*-
# Jython 2.7 worker: explores one share of the space of one property.
import os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import core

pid, shard, shards, tier, seed, work, out, replay = sys.argv[1:9]
x = core.Explorer(pid, int(shard), int(shards), tier, int(seed), work, out)
try:
    mod = __import__(pid.lower())
except ImportError:
    # the code under test cannot even be imported: this is reported, too
    x.import_failed()
    raise
if replay:
    x.replay(mod, replay)
else:
    x.run(mod)
x.finish(mod)
core.halt(0)
