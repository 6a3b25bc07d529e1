"""C02: edits survive saving and reopening."""
import sangfroid
from . import core, model, obs, ops
from .core import workload, rule
from .common import *

rule('C02', '''
Random documents are opened and edited by random sequences of API calls (params of every kind, timelines, attributes, layers added and
moved, settings); at random points the animation is saved as .sif or .sifz and opened again in the same process, and everything readable
through the API is compared, before the save, after it, and in the re-opened copy; as is the saved file, by expat, with the document in memory.
Non-trivial: at least one edit came before the save. Distinct by the sequence of edits.''',
     required=['saves judged', 'edits made', 'readouts compared', 'edits made after an earlier save'])


def names(path):
    return path


@workload('C02', 700, 16000)
def histories(case):
    rng = case.rng
    doc = model.Doc(rng, size=rng.choice([2, 4, 8]))
    if rng.random()<0.1:
        animation = sangfroid.Animation()
        fps = 24
        case.did('blank animation')
    else:
        animation = load(case, doc)
        fps = doc.fps
    edits = []
    saves = 0
    for _ in range(rng.choice([1, 2, 3, 3, 6])):
        for _ in range(rng.choice([1, 1, 2, 4, 8])):
            e = ops.random_edit(case, animation, fps)
            case.did(e)
            edits.append(e)
            case.saw('edits made')
            if saves:
                case.saw('edits made after an earlier save')
        before = obs.readout(animation)
        memory = obs.tree_of_tag(animation.tag)
        fn = case.path(rng.choice(['a', 'b'])+rng.choice(['.sif', '.sifz']))
        animation.save(fn)
        saves += 1
        case.did('save', fn.split('/')[-1])
        after = obs.readout(animation)
        d = obs.compare_readouts(before, after)
        case.check(d is None, 'saving changed what can be read', d or '')
        d = obs.diff(memory, obs.tree_of_tag(animation.tag))
        case.check(d is None, 'saving changed the document in memory', d or '')
        again = sangfroid.open(fn)
        d = obs.compare_readouts(before, obs.readout(again))
        case.check(d is None, 'the reopened animation reads differently', d or '', str(edits[-12:]))
        case.saw('readouts compared', 2)
        case.saw('saves judged')
        root = [k for k in obs.tree_of_file(fn)[2] if k[0]=='canvas']
        case.check(len(root)==1 and root[0]==memory, 'the file differs from the document in memory',
                   obs.diff(memory, root[0]) or '')
        if rng.random()<0.5:
            animation = again
            case.did('go on with the reopened one')
        intact(case, animation, 'after editing and saving')
    case.distinct(edits)
