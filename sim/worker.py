"""One worker: owns a process image and a scratch file system and executes scenarios."""
import json
import random
import sys
import traceback
from . import core, fs

FAMILIES = {}
PROPS = {}


def register():
    from . import metric, matrix, iofam, data, imports
    FAMILIES.update(metric=metric, matrix=matrix, io=iofam, data=data, imports=imports)
    for mod, props in ((iofam, 'C01 C02 C03 C04 C05'), (data, 'C06 C07'), (matrix, 'C08 C09'),
                       (metric, 'C10 C11 C12 C13 C14 C15'), (imports, 'C16')):
        for p in props.split():
            PROPS[p] = mod


class Ctx(object):
    def __init__(self):
        self.image = core.Image()
        self.image.install()
        core.install_seams()
        self.fs = fs.SimFS()
        fs.install(self.fs)
        register()

    def close(self):
        self.fs.destroy()


def scenario_for(prop, seed, index, tier='quick'):
    rng = random.Random('%s:%s:%s' % (seed, prop, index))
    scn = PROPS[prop].generate(prop, rng, tier)
    scn['prop'] = prop
    scn['id'] = [seed, index]
    return json.loads(json.dumps(scn))


def execute(scn, ctx):
    """Run one scenario.  An exception that escapes from the library where the harness makes a plain, fault-free call
    (building the objects of the scenario, loading the package) is a verdict on the library, not a harness failure."""
    try:
        return FAMILIES[scn['family']].execute(scn, ctx)
    except core.HarnessError:
        raise
    except Exception as e:
        last = traceback.extract_tb(sys.exc_info()[2])[-1]
        if not last.filename.startswith(core.ROOT):
            raise
        sim = core.Sim({'points': []})
        sim.violate('plain-call-raised', 'a plain call raised %s: %s (%s:%d)' % (type(e).__name__, str(e)[:200], last.filename, last.lineno))
        sim.log.update(repr(sim.violations).encode('utf-8', 'replace'))
        return sim
