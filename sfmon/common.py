"""Things most workloads need."""
import gzip
import io
import sangfroid
from . import model, obs


def write(case, data, name='a.sif'):
    fn = case.path(name)
    with open(fn, 'wb') as f:
        f.write(data)
    return fn


def gzipped(rng, data):
    """As any program might gzip it."""
    r = rng.random()
    if r<0.7:
        return gzip.compress(data, mtime=0)
    if r<0.85:
        # with the name of the file in it
        out = io.BytesIO()
        with gzip.GzipFile(filename='animation.sif', mode='wb', compresslevel=rng.choice([0, 1, 9]), fileobj=out, mtime=1700000000) as f:
            f.write(data)
        return out.getvalue()
    # in pieces, one after another
    i = rng.randrange(len(data)+1)
    return gzip.compress(data[:i], mtime=0)+gzip.compress(data[i:], mtime=5)


def load(case, doc, name='a.sif', seed=None):
    fn = write(case, doc.xml(seed if seed is not None else case.rng.randrange(1000)), name)
    return sangfroid.open(fn)


def document(case, **kwargs):
    doc = model.Doc(case.rng, **kwargs)
    return doc, load(case, doc)


def intact(case, animation, message):
    """Runs the sanitizer for the document tree."""
    problem = obs.links(animation.tag)
    case.saw('trees checked for damage')
    if problem:
        case.fail('the document tree is damaged '+message, problem)
