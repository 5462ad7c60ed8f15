"""Models of reading a text file line by line: the file is a sequence of lines, a line a sequence of fields, all
uninterpreted.  Failures of the file system are conditions."""
from .sym import *
from .vals import *
from .models import model, MODELS, fresh, mkit
from . import harness as H

LINES = psym('csv.lines', 'nat')


def app(f, *a, ret='T'):
    x = atom('app', sym(f, 'fn'), tuple(a))
    return batom(x) if ret == 'bool' else P(x)


def text(name):
    return St('$text', {'$name': name})


def line(i):
    return app('line', i)


def fields(name, sep):
    """number of the fields of a piece of text"""
    a = name.single_atom()
    if sep == ',' and a is not None and a.k == 'app' and a.a[0] is sym('line', 'fn'):
        arr, k = sym('csv.fields', 'natarr'), a.a[1][0]
    else:
        arr, k = sym(('fields of', sep, name), 'natarr'), ZERO
    return P(atom('el', arr, k))


def field(name, sep, j):
    return app('field', name, sep, j)


def trimmed(name):
    return app('trim', name)


def res(ok, v):
    return En('std::result::Result', [(ok, 'Ok', {'0': v}), (Not(ok), 'Err', {'0': Opq('error')})])


@model('std::path::Path::new', 'std::path::Path::to_path_buf', 'std::path::PathBuf::as_path', 'std::path::PathBuf::from')
def m_path(x):
    return x.args[0]


@model('std::fs::File::open')
def m_open(x):
    v = x.val(0)
    if not isinstance(v, Opq) or v.why != 'name':
        return fresh(x, 'file')
    return res(app('opens', ret='bool'), St('$file', {}))


@model('std::io::BufReader::new', 'std::io::BufReader::with_capacity')
def m_reader(x):
    v = x.val(len(x.args) - 1)
    return v if isinstance(v, St) and v.n == '$file' else fresh(x, 'reader')


@model('std::io::BufRead::lines')
def m_lines(x):
    v = x.val(0)
    if not (isinstance(v, St) and v.n == '$file'):
        return fresh(x, 'lines')
    return mkit(LINES, lambda s, i: res(app('readable', i, ret='bool'), text(line(i))))


def istext(v):
    return isinstance(v, St) and v.n == '$text'


@model('std::str::split')
def m_split(x):
    v, p = x.val(0), x.val(1)
    if not istext(v) or not isinstance(p, Lit):
        return fresh(x, 'split')
    n = v.f['$name']
    return mkit(fields(n, p.text), lambda s, j: text(field(n, p.text, j)))


@model('std::str::trim', 'std::str::trim_matches', 'std::str::trim_start', 'std::str::trim_end')
def m_trim(x):
    v = x.val(0)
    f = x.path.split('::')[-1]
    if not istext(v) or f == 'trim_matches':
        return fresh(x, 'trim')
    n = v.f['$name']
    a = n.single_atom()
    if f == 'trim' and a is not None and a.k == 'app' and a.a[0] is sym('trim', 'fn'):
        return v
    return text(app(f, n))


@model('std::string::String::as_str', 'std::string::ToString::to_string')
def m_str(x):
    v = x.val(0)
    return v if istext(v) or isinstance(v, Lit) else fresh(x, 'string')


@model('std::str::is_empty', 'std::string::String::is_empty')
def m_sempty(x):
    v = x.val(0)
    return app('empty', v.f['$name'], ret='bool') if istext(v) else fresh(x, 'is_empty')


@model('std::str::starts_with', 'std::str::ends_with', 'std::str::contains')
def m_has(x):
    v, p = x.val(0), x.val(1)
    if not istext(v) or not isinstance(p, Lit):
        return fresh(x, 'search')
    return app(x.path.split('::')[-1], v.f['$name'], p.text, ret='bool')
